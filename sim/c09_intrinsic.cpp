// C09: an intrinsic triangulation keeps describing the same surface under every history of edits.
// C10: its correspondence with the input (locations, traces, equivalent points, common subdivision) stays exact.
#include "meshlib.h"

#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "geometrycentral/surface/transfer_functions.h"

using namespace sim;
namespace {

enum { IO_flipPossible, IO_flipNotDelaunay, IO_flipDelaunay, IO_insertFace, IO_barycenter, IO_circumcenter, IO_split, IO_remove, IO_refine, IO_refineFn, IO_mark, IO_clearMark, IO_refresh, IO_trace, IO_subdivision, IO_points, IO_COUNT };
const std::vector<std::string> ioNames = {"flipEdgeIfPossible", "flipEdgeIfNotDelaunay", "flipToDelaunay", "insertVertex(face)", "insertBarycenter", "insertCircumcenter", "splitEdge", "removeInsertedVertex",
                                          "delaunayRefine", "delaunayRefine(function)", "setMarkedEdges", "clearMarkedEdges", "refreshQuantities", "trace", "commonSubdivision", "equivalentPoints"};

double triArea(double a, double b, double c) {
  double s = (a + b + c) / 2;
  return std::sqrt(std::max(0., s * (s - a) * (s - b) * (s - c)));
}
double triAngle(double la, double lb, double lopp) { // angle between sides la and lb
  double c = (la * la + lb * lb - lopp * lopp) / (2 * la * lb);
  return std::acos(std::max(-1., std::min(1., c)));
}
Vector2 apex(Vector2 a, Vector2 b, double la, double lb) { // left of a->b, at distance la from a and lb from b
  Vector2 d = b - a;
  double L = norm(d), x = (L * L + la * la - lb * lb) / (2 * L), y = std::sqrt(std::max(0., la * la - x * x));
  return a + d / L * x + Vector2{-d.y, d.x} / L * y;
}

struct IWorld {
  std::unique_ptr<ManifoldSurfaceMesh> in;
  std::unique_ptr<VertexPositionGeometry> vpg;
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* g = nullptr;
  std::vector<Vector3> pos;
  bool flat = false;
  double scale = 1, area = 0;
  std::vector<double> inLen;    // by input edge
  std::vector<double> angleSum; // by input vertex
  size_t comps = 1;
  Snap S0;
};

// planar triangulations: jittered grids with optional parts removed, followed by random edge flips
Soup flatSoup(int kind, int size, u64 seed) {
  Rng r(seed);
  size_t n = (size_t)size + 1;
  Soup s;
  auto keep = [&](size_t i, size_t j) {
    switch (kind % 4) {
    case 1: return !(i >= n / 2 && j >= n / 2 && n >= 2); // L shape
    case 2: return !(n >= 3 && i == n / 2 && j == n / 2);  // annulus
    default: return true;
    }
  };
  if (kind % 4 == 3) { // fan
    size_t m = 4 + (size_t)r.below(6);
    s.pos.push_back({0, 0, 0});
    for (size_t i = 0; i < m; i++) {
      double a = 2 * PI * (double)i / (double)m + r.real(-.15, .15), q = r.real(.7, 1.4);
      s.pos.push_back({q * std::cos(a), q * std::sin(a), 0});
      s.polys.push_back({0, 1 + i, 1 + (i + 1) % m});
    }
    s.name = "fan";
    return s;
  }
  for (size_t i = 0; i <= n; i++)
    for (size_t j = 0; j <= n; j++) s.pos.push_back({(double)i + r.real(-.22, .22), (double)j + r.real(-.22, .22), 0});
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      if (!keep(i, j)) continue;
      size_t a = i * (n + 1) + j, b = a + n + 1, c = b + 1, d = a + 1; // a (i,j) b (i+1,j) c d : ccw
      if (r.chance(.5)) { s.polys.push_back({a, b, c}); s.polys.push_back({a, c, d}); }
      else { s.polys.push_back({b, c, d}); s.polys.push_back({b, d, a}); }
    }
  compactSoup(s);
  s.name = "flat";
  return s;
}

Vector3 at(const IWorld& W, const SurfacePoint& p) { // through the input positions
  switch (p.type) {
  case SurfacePointType::Vertex: return W.pos[p.vertex.getIndex()];
  case SurfacePointType::Edge: {
    Halfedge he = p.edge.halfedge();
    return (1 - p.tEdge) * W.pos[he.vertex().getIndex()] + p.tEdge * W.pos[he.next().vertex().getIndex()];
  }
  default: {
    Halfedge he = p.face.halfedge();
    return p.faceCoords[0] * W.pos[he.vertex().getIndex()] + p.faceCoords[1] * W.pos[he.next().vertex().getIndex()] + p.faceCoords[2] * W.pos[he.next().next().vertex().getIndex()];
  }
  }
}

void buildWorld(IWorld& W, const History& h) {
  W.flat = h.get("flat") != 0;
  Soup s = W.flat ? flatSoup((int)h.get("kind"), (int)h.get("size"), h.seed) : makeManifoldSoup((int)h.get("kind"), (int)h.get("size"), h.seed, true);
  if (W.flat && h.get("preflip")) { // flip edges of the input in the plane
    ManifoldSurfaceMesh tmp(s.polys);
    Rng r(hcomb(h.seed, 77));
    for (int k = 0; k < (int)h.get("preflip"); k++) {
      Edge e = tmp.edge(r.below(tmp.nEdges()));
      if (e.isBoundary()) continue;
      Halfedge he = e.halfedge();
      Vector3 p0 = s.pos[he.twin().vertex().getIndex()], p2 = s.pos[he.vertex().getIndex()], p1 = s.pos[he.next().next().vertex().getIndex()], p3 = s.pos[he.twin().next().next().vertex().getIndex()];
      auto cr = [](Vector3 a, Vector3 b, Vector3 c) { return cross(b - a, c - a).z; };
      if (cr(p1, p3, p0) > .15 && cr(p3, p1, p2) > .15) tmp.flip(e, true);
    }
    s.polys = tmp.getFaceVertexList();
  }
  W.in.reset(new ManifoldSurfaceMesh(s.polys));
  if (!W.flat) {
    Rng r(hcomb(h.seed, 78));
    double j = .05 * (double)h.get("jitter");
    for (auto& p : s.pos) p += j * Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
  }
  W.pos = s.pos;
  W.S0 = snapshotChecked(*W.in);
  if (!W.in->isTriangular()) throw Discard{"not triangular"};
  double minA = 10;
  W.inLen.resize(W.in->nEdges());
  W.scale = 0;
  for (Edge e : W.in->edges()) {
    W.inLen[e.getIndex()] = norm(W.pos[e.firstVertex().getIndex()] - W.pos[e.secondVertex().getIndex()]);
    W.scale = std::max(W.scale, W.inLen[e.getIndex()]);
  }
  W.angleSum.assign(W.in->nVertices(), 0);
  for (Face f : W.in->faces()) {
    Halfedge he = f.halfedge();
    double l[3];
    for (int k = 0; k < 3; k++) { l[k] = W.inLen[he.edge().getIndex()]; he = he.next(); }
    W.area += triArea(l[0], l[1], l[2]);
    for (int k = 0; k < 3; k++) {
      double a = triAngle(l[k], l[(k + 2) % 3], l[(k + 1) % 3]);
      minA = std::min(minA, a);
      W.angleSum[he.vertex().getIndex()] += a;
      he = he.next();
    }
  }
  if (minA < 9 * PI / 180) throw Discard{"sliver in the input"};
  for (Vertex v : W.in->vertices()) if (W.angleSum[v.getIndex()] < .35) throw Discard{"needle in the input"};
  if (h.get("lengths")) {
    EdgeData<double> L(*W.in);
    for (Edge e : W.in->edges()) L[e] = W.inLen[e.getIndex()];
    W.elg.reset(new EdgeLengthGeometry(*W.in, L));
    W.g = W.elg.get();
  } else {
    VertexData<Vector3> P(*W.in);
    for (Vertex v : W.in->vertices()) P[v] = W.pos[v.getIndex()];
    W.vpg.reset(new VertexPositionGeometry(*W.in, P));
    W.g = W.vpg.get();
  }
  W.comps = W.S0.components();
}

struct Tri {
  IWorld* W = nullptr;
  std::unique_ptr<IntrinsicTriangulation> t;
  SignpostIntrinsicTriangulation* sp = nullptr;
  IntegerCoordinatesIntrinsicTriangulation* ic = nullptr;
  Snap S;
  std::vector<double> len; // by edge index, last checked state
  double markedLen = 0;
  bool risky = false; // an interior shared edge was split
  bool skinny = false;
  bool degenerate = false; // a vertex was inserted on an edge (or vertex) up to rounding
  size_t nIn = 0;      // number of input vertices
  // callbacks observed during the current operation
  std::vector<size_t> flips;
  std::vector<std::pair<size_t, size_t>> faceIns;
  struct Sp { size_t e, h1, h2; };
  std::vector<Sp> splits;
  size_t totalIns = 0;

  ManifoldSurfaceMesh& m() { return *t->intrinsicMesh; }
  double L(size_t e) { return t->edgeLengths[m().edge(e)]; }
  void clearLog() { flips.clear(); faceIns.clear(); splits.clear(); }
  Vector3 P(Vertex v) { return at(*W, t->vertexLocations[v]); }
};

void noteDegenerate(Tri* p, Vertex v) {
  for (Face f : v.adjacentFaces()) {
    Halfedge h = f.halfedge();
    double l[3], A, longest = 0;
    for (int k = 0; k < 3; k++) { l[k] = p->t->edgeLengths[h.edge()]; longest = std::max(longest, l[k]); h = h.next(); }
    A = triArea(l[0], l[1], l[2]);
    if (!(2 * A > 1e-5 * longest * p->W->scale)) p->degenerate = true;
  }
}

void registerCallbacks(Tri& T) {
  Tri* p = &T;
  T.t->faceInsertionCallbackList.push_back([p](Face f, Vertex v) { noteDegenerate(p, v); });
  T.t->edgeSplitCallbackList.push_back([p](Edge e, Halfedge a, Halfedge b) { noteDegenerate(p, a.vertex()); });
  T.t->edgeFlipCallbackList.push_back([p](Edge e) {
    p->flips.push_back(e.getIndex());
    if (p->t->markedEdges.size() > 0) CHECK(!p->t->markedEdges[e], "marked-flipped", "marked edge %zu was flipped", e.getIndex());
  });
  T.t->faceInsertionCallbackList.push_back([p](Face f, Vertex v) {
    p->faceIns.push_back({f.getIndex(), v.getIndex()});
    bool in = false;
    for (Face g : v.adjacentFaces()) if (g == f) in = true;
    CHECK(in, "callback", "face insertion callback: face %zu is not incident on the new vertex", f.getIndex());
  });
  T.t->edgeSplitCallbackList.push_back([p](Edge e, Halfedge a, Halfedge b) {
    p->splits.push_back({e.getIndex(), a.getIndex(), b.getIndex()});
    CHECK(a.vertex() == b.vertex() && a.edge() != b.edge(), "callback", "edge split callback: halfedges %zu and %zu do not both start at the new vertex", a.getIndex(), b.getIndex());
    if (p->t->markedEdges.size() > 0 && p->t->markedEdges[e])
      CHECK(p->t->markedEdges[a.edge()] && p->t->markedEdges[b.edge()], "marked-split", "halves of a marked edge are not marked");
  });
}

bool signpostLike(Tri& T) { return T.sp != nullptr; }

// Is the sliver threshold respected? (numerical domain of the checks)
double minAngleOf(Tri& T) {
  double a = 10;
  for (Face f : T.m().faces()) {
    Halfedge h = f.halfedge();
    double l[3];
    for (int k = 0; k < 3; k++) { l[k] = T.L(h.edge().getIndex()); h = h.next(); }
    for (int k = 0; k < 3; k++) a = std::min(a, triAngle(l[k], l[(k + 2) % 3], l[(k + 1) % 3]));
  }
  return a;
}

bool inDomain(Tri& T) { // floating point loses the geometry of degenerate triangles
  for (Edge e : T.m().edges()) {
    double l = T.t->edgeLengths[e];
    if (l >= 0 && l < 1e-3 * T.W->scale) return false;
  }
  return minAngleOf(T) > .004;
}

// ---- C09: everything the triangulation says about itself
void checkState(Tri& T, const char* where, bool refreshed) {
  IWorld& W = *T.W;
  ManifoldSurfaceMesh& m = T.m();
  T.S = snapshotChecked(m);
  IntrinsicTriangulation& t = *T.t;
  CHECK(T.S.euler() == W.S0.euler() && T.S.nBL == W.S0.nBL, "topology", "%s: Euler characteristic or boundary loops changed", where);
  double tol = 2e-6;
  T.len.assign(m.nEdges() + 4, 0);
  for (size_t e : T.S.es) {
    double l = T.L(e);
    CHECK(std::isfinite(l) && l > 0, "edge-length", "%s: edge %zu has length %g", where, e, l);
    if (e >= T.len.size()) T.len.resize(e + 1, 0);
    T.len[e] = l;
  }
  double area = 0;
  std::vector<double> asum;
  double minA = 10;
  std::map<size_t, double> ang; // by halfedge index: angle of its corner
  for (Face f : m.faces()) {
    CHECK(f.degree() == 3, "triangular", "%s: face %zu has degree %zu", where, f.getIndex(), f.degree());
    Halfedge h = f.halfedge();
    double l[3];
    Halfedge hs[3];
    for (int k = 0; k < 3; k++) { hs[k] = h; l[k] = T.L(h.edge().getIndex()); h = h.next(); }
    for (int k = 0; k < 3; k++) CHECK(l[k] < (l[(k + 1) % 3] + l[(k + 2) % 3]) * (1 + 1e-9), "triangle-inequality", "%s: face %zu: lengths %.12g %.12g %.12g", where, f.getIndex(), l[0], l[1], l[2]);
    area += triArea(l[0], l[1], l[2]);
    for (int k = 0; k < 3; k++) {
      double a = triAngle(l[k], l[(k + 2) % 3], l[(k + 1) % 3]);
      ang[hs[k].getIndex()] = a;
      minA = std::min(minA, a);
    }
    // basis of the face
    Vector2 sum = Vector2::zero();
    for (int k = 0; k < 3; k++) {
      Vector2 v = t.halfedgeVectorsInFace[hs[k]], w = t.halfedgeVectorsInFace[hs[(k + 1) % 3]];
      sum += v;
      CHECK(std::abs(norm(v) - l[k]) < tol * l[k], "vectors-in-face", "%s: halfedge %zu: vector length %.12g, edge length %.12g", where, hs[k].getIndex(), norm(v), l[k]);
      CHECK(cross(v, w) > -tol * l[k] * l[(k + 1) % 3], "vectors-in-face", "%s: face %zu is not laid out counter-clockwise", where, f.getIndex());
    }
    CHECK(norm(sum) < tol * (l[0] + l[1] + l[2]), "vectors-in-face", "%s: vectors of face %zu do not close up", where, f.getIndex());
  }
  T.skinny = minA < .02;
  if (T.skinny) tol = 1e-4;
  CHECK(std::abs(area - W.area) < tol * W.area, "area", "%s: total area %.12g, surface has %.12g", where, area, W.area);
  for (Vertex v : m.vertices()) {
    double s = 0;
    for (Halfedge he : v.outgoingHalfedges()) if (he.isInterior()) s += ang[he.getIndex()];
    size_t i = v.getIndex();
    const SurfacePoint& loc = t.vertexLocations[v];
    double expect;
    if (i < T.nIn) {
      CHECK(loc.type == SurfacePointType::Vertex && loc.vertex == W.in->vertex(i), "original-location", "%s: original vertex %zu is not located at its input vertex", where, i);
      expect = W.angleSum[i];
      CHECK(v.isBoundary() == W.in->vertex(i).isBoundary(), "original-boundary", "%s: vertex %zu", where, i);
    } else {
      CHECK(loc.type != SurfacePointType::Vertex, "inserted-location", "%s: inserted vertex %zu is located at a vertex", where, i);
      try { loc.validate(); } catch (std::exception& e) { CHECK(false, "inserted-location", "%s: location of vertex %zu is invalid: %s", where, i, e.what()); }
      expect = v.isBoundary() ? PI : 2 * PI;
      if (loc.type == SurfacePointType::Edge) CHECK(loc.tEdge > -1e-9 && loc.tEdge < 1 + 1e-9, "inserted-location", "%s: t = %g", where, loc.tEdge);
      else CHECK(loc.faceCoords.x > -1e-6 && loc.faceCoords.y > -1e-6 && loc.faceCoords.z > -1e-6 && std::abs(loc.faceCoords.x + loc.faceCoords.y + loc.faceCoords.z - 1) < 1e-6, "inserted-location",
                 "%s: vertex %zu barycentric coordinates %g %g %g", where, i, loc.faceCoords.x, loc.faceCoords.y, loc.faceCoords.z);
      if (v.isBoundary()) CHECK(loc.type == SurfacePointType::Edge && loc.edge.isBoundary(), "inserted-location", "%s: boundary vertex %zu is not located on the boundary", where, i);
    }
    CHECK(std::abs(s - expect) < 20 * tol, "angle-sum", "%s: angles at vertex %zu sum to %.10g, the surface has %.10g", where, i, s, expect);
    CHECK(std::abs(t.vertexAngleSums[v] - expect) < 20 * tol, "vertex-angle-sums", "%s: vertexAngleSums[%zu] = %.10g, expected %.10g", where, i, t.vertexAngleSums[v], expect);
    // tangent vectors
    Halfedge h = v.halfedge();
    double sc = (v.isBoundary() ? PI : 2 * PI) / expect;
    Halfedge first = h;
    size_t guard = 0;
    do {
      Vector2 a = t.halfedgeVectorsInVertex[h];
      double l = T.L(h.edge().getIndex());
      CHECK(std::isfinite(a.x) && std::abs(norm(a) - l) < tol * l, "vectors-in-vertex", "%s: halfedge %zu of vertex %zu: vector length %.12g, edge length %.12g", where, h.getIndex(), i, norm(a), l);
      if (!h.isInterior()) break;
      Halfedge n = h.next().next().twin();
      Vector2 b = t.halfedgeVectorsInVertex[n];
      double turn = std::arg(std::complex<double>(b.x, b.y) / std::complex<double>(a.x, a.y));
      double want = sc * ang[h.getIndex()];
      double d = std::remainder(turn - want, 2 * PI);
      CHECK(std::abs(d) < 100 * tol, "vectors-in-vertex", "%s: vertex %zu: halfedges %zu -> %zu turn by %.10g, scaled corner angle is %.10g", where, i, h.getIndex(), n.getIndex(), turn, want);
      h = n;
    } while (h != first && guard++ < 10000);
    if (T.sp) {
      Halfedge hh = v.halfedge();
      for (Halfedge he : v.outgoingHalfedges()) {
        double d = std::remainder(T.sp->signpostAngle[he] * sc - t.halfedgeVectorsInVertex[he].arg(), 2 * PI);
        CHECK(std::abs(d) < 100 * tol, "signpost-angle", "%s: halfedge %zu: signpost %.10g does not agree with its tangent vector", where, he.getIndex(), T.sp->signpostAngle[he]);
      }
      (void)hh;
    }
  }
  // positions in the plane
  if (W.flat) {
    double pt = (T.skinny ? 1e-3 : 2e-5) * W.scale;
    for (size_t e : T.S.es) {
      Edge E = m.edge(e);
      double d = norm(T.P(E.firstVertex()) - T.P(E.secondVertex()));
      CHECK(std::abs(d - T.len[e]) < pt, "flat-length", "%s: edge %zu has length %.10g, its endpoints are %.10g apart on the flat surface", where, e, T.len[e], d);
    }
    for (Face f : m.faces()) {
      Vector3 a = T.P(f.halfedge().vertex()), b = T.P(f.halfedge().next().vertex()), c = T.P(f.halfedge().next().next().vertex());
      CHECK(cross(b - a, c - a).z > -pt * W.scale, "flat-orientation", "%s: face %zu is turned over", where, f.getIndex());
    }
    if (T.sp)
      for (Vertex v : m.vertices()) {
        const SurfacePoint& loc = t.vertexLocations[v];
        Vector3 ref;
        if (loc.type == SurfacePointType::Vertex) {
          Halfedge ih = loc.vertex.halfedge();
          ref = W.pos[ih.next().vertex().getIndex()] - W.pos[ih.vertex().getIndex()];
        } else if (loc.type == SurfacePointType::Face) {
          Halfedge ih = loc.face.halfedge();
          ref = W.pos[ih.next().vertex().getIndex()] - W.pos[ih.vertex().getIndex()];
        } else continue;
        for (Halfedge he : v.outgoingHalfedges()) {
          Vector3 d = T.P(he.twin().vertex()) - T.P(v);
          double a = std::arg(std::complex<double>(d.x, d.y) / std::complex<double>(ref.x, ref.y));
          double err = std::remainder(a - T.sp->signpostAngle[he], 2 * PI);
          CHECK(std::abs(err) * norm(d) < 10 * pt, "signpost-direction", "%s: halfedge %zu points %.8g from the reference direction on the flat surface, its signpost says %.8g", where, he.getIndex(), a, T.sp->signpostAngle[he]);
        }
      }
  }
  // derived quantities
  double gotMin = t.minAngleDegrees() * PI / 180;
  CHECK(std::abs(gotMin - minA) < 1e-6, "min-angle", "%s: minAngleDegrees() is %.10g, smallest angle is %.10g", where, gotMin, minA);
  double marked = 0;
  if (t.markedEdges.size() > 0)
    for (size_t e : T.S.es) if (t.markedEdges[m.edge(e)]) marked += T.len[e];
  CHECK(std::abs(marked - T.markedLen) < 1e-5 * (1 + T.markedLen), "marked-length", "%s: marked edges have total length %.10g, was %.10g", where, marked, T.markedLen);
  if (T.ic) {
    CHECK(T.ic->normalCoordinates.edgeCoords.size() >= m.nEdges(), "normal-coordinates", "size");
    for (size_t e : T.S.es) CHECK(T.ic->normalCoordinates[m.edge(e)] >= -1, "normal-coordinates", "%s: edge %zu has normal coordinate %d", where, e, T.ic->normalCoordinates[m.edge(e)]);
  }
  if (refreshed) {
    EdgeLengthGeometry fresh(m, t.edgeLengths);
    fresh.requireCornerAngles();
    fresh.requireFaceAreas();
    fresh.requireEdgeCotanWeights();
    for (Face f : m.faces()) CHECK(std::abs(fresh.faceAreas[f] - t.faceAreas[f]) < 1e-9 * W.area, "refreshed", "%s: faceAreas of face %zu is out of date", where, f.getIndex());
    for (Corner c : m.corners()) CHECK(std::abs(fresh.cornerAngles[c] - t.cornerAngles[c]) < 1e-9, "refreshed", "%s: cornerAngles of corner %zu is out of date", where, c.getIndex());
    for (Edge e : m.edges()) CHECK(std::abs(fresh.edgeCotanWeights[e] - t.edgeCotanWeights[e]) < 1e-6 * (1 + std::abs(fresh.edgeCotanWeights[e])), "refreshed", "%s: edgeCotanWeights of edge %zu is out of date", where, e.getIndex());
  }
}

struct Diamond { bool degOne; double A1, A2, sum, newLen, cot; };
Diamond diamond(Tri& T, Edge e) {
  Diamond d;
  Halfedge a = e.halfedge(), b = a.twin();
  d.degOne = a.next() == b || b.next() == a || a.next().next() == b || b.next().next() == a;
  double l = T.L(e.getIndex()), a1 = T.L(a.next().edge().getIndex()), a2 = T.L(a.next().next().edge().getIndex()), b1 = T.L(b.next().edge().getIndex()), b2 = T.L(b.next().next().edge().getIndex());
  // a from x to y
  Vector2 x{0, 0}, y{l, 0};
  Vector2 u = apex(x, y, a2, a1), w = apex(y, x, b2, b1); // u left of x->y ; w left of y->x
  d.A1 = cross(w - x, u - x) * -1; // area x,w... positive when convex at x
  d.A1 = cross(w - x, y - x) >= 0 ? cross(w - x, u - x) : -1;
  d.A2 = cross(u - y, w - y);
  d.sum = d.A1 + d.A2;
  d.newLen = norm(u - w);
  d.cot = .5 * (1 / std::tan(triAngle(a1, a2, l)) + 1 / std::tan(triAngle(b1, b2, l)));
  return d;
}

bool isFixedEdge(Tri& T, Edge e) { return e.isBoundary() || (T.t->markedEdges.size() > 0 && T.t->markedEdges[e]); }

// all edge lengths except those listed are what they were
void checkUntouched(Tri& T, const std::vector<double>& before, const Snap& SB, const std::vector<size_t>& except, const char* where) {
  std::set<size_t> ex(except.begin(), except.end());
  for (size_t e : SB.es)
    if (!ex.count(e)) CHECK(T.L(e) == before[e], "untouched", "%s changed the length of edge %zu, which it does not concern", where, e);
}

// ---- C10
// every way of placing a point in a face (a vertex or edge can occur several times in one face)
std::vector<std::pair<Face, Vector3>> placements(const SurfacePoint& p) {
  std::vector<std::pair<Face, Vector3>> out;
  auto corner = [](Halfedge he) { Halfedge h = he.face().halfedge(); int k = 0; while (h != he) { h = h.next(); k++; } return k; };
  if (p.type == SurfacePointType::Face) out.push_back({p.face, p.faceCoords});
  if (p.type == SurfacePointType::Vertex)
    for (Halfedge h : p.vertex.outgoingHalfedges())
      if (h.isInterior()) { Vector3 c{0, 0, 0}; c[corner(h)] = 1; out.push_back({h.face(), c}); }
  if (p.type == SurfacePointType::Edge)
    for (Halfedge h : {p.edge.halfedge(), p.edge.halfedge().twin()})
      if (h.isInterior()) {
        double t = h == p.edge.halfedge() ? p.tEdge : 1 - p.tEdge;
        Vector3 c{0, 0, 0};
        int k = corner(h);
        c[k] = 1 - t;
        c[(k + 1) % 3] = t;
        out.push_back({h.face(), c});
      }
  return out;
}

// smallest and largest distance of the points within a common face; none: lo > hi
std::pair<double, double> segLens(const std::vector<double>& L, const SurfacePoint& a, const SurfacePoint& b) {
  double lo = 1e300, hi = -1;
  auto pb = placements(b);
  for (auto& x : placements(a))
    for (auto& y : pb) {
      if (x.first != y.first) continue;
      Halfedge h = x.first.halfedge();
      double l0 = L[h.edge().getIndex()], l1 = L[h.next().edge().getIndex()], l2 = L[h.next().next().edge().getIndex()];
      Vector2 p0{0, 0}, p1{l0, 0}, p2 = apex(p0, p1, l2, l1);
      Vector3 d = y.second - x.second;
      double l = norm(d.x * p0 + d.y * p1 + d.z * p2);
      lo = std::min(lo, l);
      hi = std::max(hi, l);
    }
  return {lo, hi};
}

void checkPath(Tri& T, const std::vector<SurfacePoint>& path, const std::vector<double>& L, double want, const SurfacePoint& p0, const SurfacePoint& p1, bool exactEnd, const char* what, size_t id) {
  IWorld& W = *T.W;
  double pt = (T.skinny ? 1e-3 : 5e-5) * W.scale;
  CHECK(path.size() >= 2, "trace", "%s %zu: path has %zu points", what, id, path.size());
  CHECK(path.front() == p0, "trace-start", "%s %zu does not start at its vertex", what, id);
  if (exactEnd) CHECK(path.back() == p1, "trace-end", "%s %zu (length %.10g, path of %zu points) does not end at its vertex", what, id, want, path.size());
  double lo = 0, hi = 0;
  for (size_t i = 0; i + 1 < path.size(); i++) {
    // with several placements in shared faces (parallel edges, faces meeting themselves) the length is ambiguous
    auto l = segLens(L, path[i], path[i + 1]);
    CHECK(l.first <= l.second, "trace-adjacent", "%s %zu: points %zu and %zu are not in a common face", what, id, i, i + 1);
    if (i > 0) CHECK(path[i].type == SurfacePointType::Edge || T.risky, "trace-crossing", "%s %zu: intermediate point %zu is not an edge crossing", what, id, i);
    lo += l.first;
    hi += l.second;
  }
  CHECK(want > lo - pt && want < hi + pt, "trace-length", "%s %zu: the traced path has length %.10g, the edge %.10g", what, id, lo, want);
}

// does a face meet the vertex at more than one corner?
bool gluedAt(const SurfacePoint& p) {
  if (p.type != SurfacePointType::Vertex) return false;
  std::set<size_t> fs;
  for (Halfedge h : p.vertex.outgoingHalfedges())
    if (h.isInterior() && !fs.insert(h.face().getIndex()).second) return true;
  return false;
}

size_t properCrossings(Tri& T, Vector3 a, Vector3 b, bool& unsure) {
  IWorld& W = *T.W;
  size_t n = 0;
  unsure = false;
  double eps = 1e-4 * W.scale * W.scale;
  for (Edge e : W.in->edges()) {
    Vector3 c = W.pos[e.firstVertex().getIndex()], d = W.pos[e.secondVertex().getIndex()];
    double s1 = cross(b - a, c - a).z, s2 = cross(b - a, d - a).z, s3 = cross(d - c, a - c).z, s4 = cross(d - c, b - c).z;
    bool endA = norm(a - c) < 1e-6 || norm(a - d) < 1e-6, endB = norm(b - c) < 1e-6 || norm(b - d) < 1e-6;
    if (endA || endB) continue; // shares an end
    bool sep1 = (s1 > eps && s2 > eps) || (s1 < -eps && s2 < -eps), sep2 = (s3 > eps && s4 > eps) || (s3 < -eps && s4 < -eps);
    if (sep1 || sep2) continue;
    bool cr1 = (s1 > eps && s2 < -eps) || (s1 < -eps && s2 > eps), cr2 = (s3 > eps && s4 < -eps) || (s3 < -eps && s4 > eps);
    if (cr1 && cr2) n++;
    else unsure = true;
  }
  return n;
}

void checkTraces(Tri& T, Ctx& ctx, u64 salt) {
  IWorld& W = *T.W;
  IntrinsicTriangulation& t = *T.t;
  if (T.risky && (T.sp || ((salt & 7) && !getenv("SIM_RISKY")))) return;
  double pt = (T.skinny ? 1e-3 : 5e-5) * W.scale;
  if (T.risky) { // known finding: locations of vertices inserted along edges which cross a split input edge
    EdgeData<std::vector<SurfacePoint>> all = t.traceAllIntrinsicEdgesAlongInput();
    T.S = snapshotChecked(T.m());
    for (Edge e : T.m().edges()) {
      double lo = 0, hi = 0;
      for (size_t i = 0; i + 1 < all[e].size(); i++) {
        auto l = segLens(W.inLen, all[e][i], all[e][i + 1]);
        lo += l.first;
        hi += l.second;
      }
      CHECK(t.edgeLengths[e] > lo - 10 * pt && t.edgeLengths[e] < hi + 10 * pt, "trace-length-after-shared-split", "intrinsic edge %zu: its trace over the input has length %.10g, the edge %.10g", e.getIndex(), lo, t.edgeLengths[e]);
    }
    return;
  }
  EdgeData<std::vector<SurfacePoint>> all = t.traceAllIntrinsicEdgesAlongInput();
  T.S = snapshotChecked(T.m()); // may have been compressed
  for (Edge e : T.m().edges()) {
    auto& path = all[e];
    Halfedge he = e.halfedge();
    const SurfacePoint& a = t.vertexLocations[he.vertex()];
    const SurfacePoint& b = t.vertexLocations[he.twin().vertex()];
    double want = t.edgeLengths[e];
    bool exact = T.ic || b.type == SurfacePointType::Vertex;
    // known finding: the trimming of signpost traces cuts off genuine crossings where a face meets the target vertex several times
    bool gluedTarget = T.sp && (gluedAt(a) || gluedAt(b));
    if (gluedTarget) {
      ctx.count("traces-to-self-glued-vertex");
      continue;
    }
    checkPath(T, path, W.inLen, want, a, b, exact, "intrinsic edge", e.getIndex());
    for (auto& q : path) CHECK((q.type == SurfacePointType::Vertex ? q.vertex.getMesh() : q.type == SurfacePointType::Edge ? q.edge.getMesh() : q.face.getMesh()) == W.in.get(), "trace-mesh", "intrinsic edge %zu: its trace over the input names elements of another mesh", e.getIndex());
    Vector3 A = at(W, a), B = at(W, b);
    CHECK(norm(at(W, path.back()) - B) < 10 * pt, "trace-end", "intrinsic edge %zu: the trace ends %.3g away from its vertex", e.getIndex(), norm(at(W, path.back()) - B));
    if (W.flat)
      for (size_t i = 1; i + 1 < path.size(); i++) {
        Vector3 q = at(W, path[i]);
        double off = std::abs(cross(B - A, q - A).z) / norm(B - A);
        CHECK(off < 10 * pt, "trace-straight", "intrinsic edge %zu: crossing %zu is %.3g away from the straight line", e.getIndex(), i, off);
        CHECK(dot(q - at(W, path[i - 1]), B - A) > -10 * pt * W.scale, "trace-order", "intrinsic edge %zu: crossings out of order", e.getIndex());
      }
    if (T.ic && W.flat) {
      int n = T.ic->normalCoordinates[e];
      bool unsure;
      size_t c = properCrossings(T, A, B, unsure);
      if (!unsure && !T.risky) CHECK((n < 0 ? 0 : n) == (int)c, "normal-coordinates", "intrinsic edge %zu crosses %zu input edges, its normal coordinate is %d", e.getIndex(), c, n);
    }
    if (t.checkEdgeOriginal(e)) CHECK(path.size() == 2, "edge-original", "edge %zu is reported to lie along an input edge but crosses %zu edges", e.getIndex(), path.size() - 2);
    // the other direction and the single-edge function
    if ((mix64(salt + e.getIndex()) & 3) == 0) {
      auto one = t.traceIntrinsicHalfedgeAlongInput(he);
      CHECK(one.size() == path.size(), "trace-single", "edge %zu: single trace has %zu points, batch %zu", e.getIndex(), one.size(), path.size());
      for (size_t i = 0; i < one.size(); i++) CHECK(norm(at(W, one[i]) - at(W, path[i])) < 1e-9 * W.scale, "trace-single", "edge %zu: point %zu", e.getIndex(), i);
      auto rev = t.traceIntrinsicHalfedgeAlongInput(he.twin());
      if (getenv("SIM_VERBOSE") && !(norm(at(W, rev.front()) - B) < 1e-9 * W.scale && norm(at(W, rev.back()) - A) < 10 * pt)) {
        for (auto& q : path) fprintf(stderr, "  fwd %s\n", std::to_string(q).c_str());
        for (auto& q : rev) fprintf(stderr, "  rev %s\n", std::to_string(q).c_str());
      }
      CHECK(norm(at(W, rev.front()) - B) < 1e-9 * W.scale && norm(at(W, rev.back()) - A) < 10 * pt, "trace-reverse", "edge %zu traced backwards", e.getIndex());
      if (exact && a.type == SurfacePointType::Vertex) {
        CHECK(rev.size() == path.size(), "trace-reverse", "edge %zu: %zu points forwards, %zu backwards", e.getIndex(), path.size(), rev.size());
        for (size_t i = 0; i < rev.size(); i++) CHECK(norm(at(W, rev[rev.size() - 1 - i]) - at(W, path[i])) < 20 * pt, "trace-reverse", "edge %zu: point %zu", e.getIndex(), i);
      }
    }
    ctx.count("traced-edges");
  }
  // input edges along the intrinsic triangulation
  std::vector<double> IL(T.len.size() + T.m().nEdges(), 0);
  for (Edge e : T.m().edges()) IL[e.getIndex()] = t.edgeLengths[e];
  auto evalB = [&](const SurfacePoint& p) -> Vector3 {
    switch (p.type) {
    case SurfacePointType::Vertex: return T.P(p.vertex);
    case SurfacePointType::Edge: return (1 - p.tEdge) * T.P(p.edge.halfedge().vertex()) + p.tEdge * T.P(p.edge.halfedge().twin().vertex());
    default: { Halfedge h = p.face.halfedge(); return p.faceCoords[0] * T.P(h.vertex()) + p.faceCoords[1] * T.P(h.next().vertex()) + p.faceCoords[2] * T.P(h.next().next().vertex()); }
    }
  };
  bool refined = T.totalIns > 0;
  if (T.ic && (salt & 1)) { // both implementations: with and without a cached subdivision
    // nothing: the batch call above built the subdivision
  }
  EdgeData<std::vector<SurfacePoint>> back = t.traceAllInputEdgesAlongIntrinsic();
  for (Edge e : W.in->edges()) {
    auto& path = back[e];
    SurfacePoint a(T.m().vertex(e.halfedge().vertex().getIndex())), b(T.m().vertex(e.halfedge().twin().vertex().getIndex()));
    double want = W.inLen[e.getIndex()];
    bool gluedTarget = T.sp && (gluedAt(a) || gluedAt(b)), judgeGlued = (mix64(salt + 5 + e.getIndex()) & 7) == 0;
    if (gluedTarget) ctx.count("traces-to-self-glued-vertex");
    if (gluedTarget && !judgeGlued) continue;
    CHECK(path.size() >= 2 && path.front() == a && path.back() == b, "trace-input-ends", "input edge %zu (vertex %zu to %zu): its trace (%zu points, from %s to %s) does not start and end at its vertices", e.getIndex(),
          a.vertex.getIndex(), b.vertex.getIndex(), path.size(), path.size() ? std::to_string(path.front()).c_str() : "", path.size() ? std::to_string(path.back()).c_str() : "");
    for (auto& q : path) CHECK((q.type == SurfacePointType::Vertex ? q.vertex.getMesh() : q.type == SurfacePointType::Edge ? q.edge.getMesh() : q.face.getMesh()) == &T.m(), "trace-mesh", "input edge %zu: its trace over the triangulation names elements of another mesh", e.getIndex());
    double lo = 0, hi = 0;
    bool via = false;
    for (size_t i = 0; i + 1 < path.size(); i++) {
      if (i > 0 && path[i].type != SurfacePointType::Edge) via = true;
      auto l = segLens(IL, path[i], path[i + 1]);
      CHECK(l.first <= l.second, "trace-adjacent", "input edge %zu: points %zu and %zu are not in a common intrinsic face", e.getIndex(), i, i + 1);
      lo += l.first;
      hi += l.second;
    }
    if (gluedTarget) {
      CHECK(want > lo - 10 * pt && want < hi + 10 * pt, "signpost-trace-to-glued-vertex", "input edge %zu: its trace over the signpost triangulation has length %.10g, the edge %.10g; a face meets an end vertex at several corners", e.getIndex(), lo, want);
      continue;
    }
    if (via) CHECK(refined, "trace-input-via", "input edge %zu passes through a vertex although none was inserted", e.getIndex());
    CHECK(want > lo - 10 * pt && want < hi + 10 * pt, "trace-input-length", "input edge %zu: its trace over the intrinsic triangulation has length %.10g, the edge %.10g", e.getIndex(), lo, want);
    if (W.flat) {
      Vector3 A = W.pos[e.halfedge().vertex().getIndex()], B = W.pos[e.halfedge().next().vertex().getIndex()];
      for (size_t i = 1; i + 1 < path.size(); i++) CHECK(std::abs(cross(B - A, evalB(path[i]) - A).z) / norm(B - A) < 10 * pt, "trace-input-straight", "input edge %zu: crossing %zu is off the edge", e.getIndex(), i);
    }
    if ((mix64(salt + 991 + e.getIndex()) & 3) == 0) {
      auto one = t.traceInputHalfedgeAlongIntrinsic(e.halfedge());
      CHECK(one.size() == path.size(), "trace-single", "input edge %zu: single trace has %zu points, batch %zu", e.getIndex(), one.size(), path.size());
      auto rev = t.traceInputHalfedgeAlongIntrinsic(e.halfedge().twin());
      CHECK(rev.front() == b && rev.back() == a, "trace-reverse", "input edge %zu (%zu -> %zu) traced backwards does not join its vertices: %zu points, from %s to %s", e.getIndex(), a.vertex.getIndex(), b.vertex.getIndex(), rev.size(),
            std::to_string(rev.front()).c_str(), std::to_string(rev.back()).c_str());
      // a curve through a vertex (up to rounding) may pass it on either side
      bool generic = true;
      for (auto* q : {&path, &rev}) for (auto& x : *q) if (x.type == SurfacePointType::Edge && std::min(x.tEdge, 1 - x.tEdge) < 1e-4) generic = false;
      if (generic) CHECK(rev.size() == path.size(), "trace-reverse", "input edge %zu: %zu points forwards, %zu backwards", e.getIndex(), path.size(), rev.size());
    }
  }
}

// single-edge tracing without a common subdivision at hand
void checkUncachedInputTraces(Tri& T, u64 salt) {
  if (T.risky) return;
  IWorld& W = *T.W;
  for (Edge e : W.in->edges()) {
    if (mix64(salt + e.getIndex()) & 3) continue;
    Halfedge he = (salt & 16) ? e.halfedge() : e.halfedge().twin();
    auto p = T.t->traceInputHalfedgeAlongIntrinsic(he);
    SurfacePoint a(T.m().vertex(he.vertex().getIndex())), b(T.m().vertex(he.twin().vertex().getIndex()));
    CHECK(p.size() >= 2 && p.front() == a && p.back() == b, "trace-input-ends", "input halfedge %zu traced on its own does not join its vertices (%zu points)", he.getIndex(), p.size());
  }
}

void checkPoints(Tri& T, const Op& op, Ctx& ctx) {
  IWorld& W = *T.W;
  IntrinsicTriangulation& t = *T.t;
  if (T.risky) return;
  double pt = (T.skinny ? 1e-3 : 1e-4) * W.scale;
  Rng r(arg(op, 0));
  for (int k = 0; k < 6; k++) {
    // random intrinsic point
    SurfacePoint p;
    Vector3 truth;
    bool onEdge = r.chance(.25);
    if (onEdge) {
      Edge e = T.m().edge(T.S.es[r.below(T.S.es.size())]);
      double s = r.real(.05, .95);
      p = SurfacePoint(e, s);
      truth = (1 - s) * T.P(e.halfedge().vertex()) + s * T.P(e.halfedge().twin().vertex());
    } else if (r.chance(.1)) {
      Vertex v = T.m().vertex(T.S.vs[r.below(T.S.vs.size())]);
      p = SurfacePoint(v);
      CHECK(t.equivalentPointOnInput(p) == t.vertexLocations[v], "equivalent-vertex", "vertex %zu", v.getIndex());
      continue;
    } else {
      Face f = T.m().face(T.S.fs[r.below(T.S.fs.size())]);
      Vector3 b{r.real(.05, 1), r.real(.05, 1), r.real(.05, 1)};
      b /= b.x + b.y + b.z;
      p = SurfacePoint(f, b);
      Halfedge h = f.halfedge();
      truth = b.x * T.P(h.vertex()) + b.y * T.P(h.next().vertex()) + b.z * T.P(h.next().next().vertex());
    }
    SurfacePoint q = t.equivalentPointOnInput(p);
    Vector3 got = at(W, q);
    if (W.flat) CHECK(norm(got - truth) < 10 * pt, "equivalent-on-input", "intrinsic %s point is at (%.6g, %.6g), reported at (%.6g, %.6g)", onEdge ? "edge" : "face", truth.x, truth.y, got.x, got.y);
    ctx.count("equivalent-points");
    if (T.sp) {
      SurfacePoint back = t.equivalentPointOnIntrinsic(q);
      Vector3 g2;
      back = back.inSomeFace();
      SurfacePoint pf = p.inSomeFace();
      if (W.flat) {
        Halfedge h = back.face.halfedge();
        g2 = back.faceCoords[0] * T.P(h.vertex()) + back.faceCoords[1] * T.P(h.next().vertex()) + back.faceCoords[2] * T.P(h.next().next().vertex());
        CHECK(norm(g2 - truth) < 20 * pt, "equivalent-round-trip", "to the input and back moves the point by %.3g", norm(g2 - truth));
      } else if (!onEdge && back.face == pf.face) {
        CHECK(norm(back.faceCoords - pf.faceCoords) < 1e-3, "equivalent-round-trip", "to the input and back moves the point by %.3g in barycentric coordinates", norm(back.faceCoords - pf.faceCoords));
      } else if (!onEdge) {
        double mb = std::min(std::min(pf.faceCoords.x, pf.faceCoords.y), pf.faceCoords.z);
        CHECK(mb < .02, "equivalent-round-trip", "a point well inside of intrinsic face %zu comes back in face %zu", pf.face.getIndex(), back.face.getIndex());
      }
    }
  }
  // data transfer by location
  VertexData<double> d(*W.in);
  VertexData<Vector3> d3(*W.in);
  for (Vertex v : W.in->vertices()) { d[v] = (double)(mix64(arg(op, 1) + v.getIndex()) % 1000); d3[v] = W.pos[v.getIndex()]; }
  VertexData<double> up = t.sampleFromInput(d);
  VertexData<Vector3> up3 = t.sampleFromInput(d3);
  VertexData<double> down = t.restrictToInput(up);
  for (Vertex v : W.in->vertices()) CHECK(down[v] == d[v], "restrict-sample", "restrictToInput(sampleFromInput(x)) differs at vertex %zu", v.getIndex());
  for (Vertex v : T.m().vertices()) CHECK(norm(up3[v] - T.P(v)) < 1e-9 * (1 + W.scale), "sample", "sampleFromInput at vertex %zu", v.getIndex());
}

void checkSubdivision(Tri& T, const Op& op, Ctx& ctx) {
  IWorld& W = *T.W;
  IntrinsicTriangulation& t = *T.t;
  if (T.risky) return;
  if (T.sp) {
    // signposts give crossings in floating point: when an edge passes through a vertex, or runs along an input edge
    // without being recorded as original, the combinatorics of the crossings are not determined (documented: may fail)
    for (Edge e : T.m().edges()) {
      if (t.checkEdgeOriginal(e) || e.isBoundary()) continue;
      auto path = t.traceIntrinsicHalfedgeAlongInput(e.halfedge());
      bool generic = path.size() > 2 || path.front().type != SurfacePointType::Vertex || path.back().type != SurfacePointType::Vertex;
      if (gluedAt(path.front()) || gluedAt(path.back())) generic = false;
      for (size_t i = 1; i + 1 < path.size(); i++)
        if (path[i].type != SurfacePointType::Edge || std::min(path[i].tEdge, 1 - path[i].tEdge) < 1e-4) generic = false;
      for (Vertex v : e.adjacentVertices()) {
        const SurfacePoint& l = t.vertexLocations[v];
        if (l.type == SurfacePointType::Edge && !l.edge.isBoundary()) generic = false;
        if (l.type == SurfacePointType::Face)
          for (int k = 0; k < 3; k++) if (l.faceCoords[k] < 1e-4) generic = false;
      }
      if (!generic) { ctx.count("signpost-subdivision-not-judged-degenerate"); return; }
    }
  }
  if (getenv("SIM_DUMP") && T.sp)
      for (Edge e : T.m().edges()) { fprintf(stderr, "e%zu v%zu v%zu orig %d len %g:", e.getIndex(), e.firstVertex().getIndex(), e.secondVertex().getIndex(), (int)t.checkEdgeOriginal(e), t.edgeLengths[e]); for (auto& q : t.traceIntrinsicHalfedgeAlongInput(e.halfedge())) fprintf(stderr, " %s", std::to_string(q).c_str()); fprintf(stderr, "\n"); }
  double pt = (T.skinny ? 1e-3 : 5e-5) * W.scale;
  CommonSubdivision& cs = t.getCommonSubdivision();
  CHECK(&cs == &t.getCommonSubdivision(), "subdivision-cached", "a second call builds another subdivision");
  T.S = snapshotChecked(T.m());
  CHECK(T.m().isCompressed(), "subdivision", "mesh not compressed");
  auto evalB = [&](const SurfacePoint& p) -> Vector3 {
    switch (p.type) {
    case SurfacePointType::Vertex: return T.P(p.vertex);
    case SurfacePointType::Edge: return (1 - p.tEdge) * T.P(p.edge.halfedge().vertex()) + p.tEdge * T.P(p.edge.halfedge().twin().vertex());
    default: { Halfedge h = p.face.halfedge(); return p.faceCoords[0] * T.P(h.vertex()) + p.faceCoords[1] * T.P(h.next().vertex()) + p.faceCoords[2] * T.P(h.next().next().vertex()); }
    }
  };
  // the points themselves
  size_t nTrans = 0, nPar = 0, nVert = 0;
  for (auto& p : cs.subdivisionPoints) {
    switch (p.intersectionType) {
    case CSIntersectionType::VERTEX_VERTEX: CHECK(p.posA.type == SurfacePointType::Vertex && p.posB.type == SurfacePointType::Vertex, "point-type", "VERTEX_VERTEX"); nVert++; break;
    case CSIntersectionType::EDGE_TRANSVERSE: CHECK(p.posA.type == SurfacePointType::Edge && p.posB.type == SurfacePointType::Edge, "point-type", "EDGE_TRANSVERSE"); nTrans++; break;
    case CSIntersectionType::EDGE_PARALLEL: CHECK(p.posA.type == SurfacePointType::Edge && p.posB.type == SurfacePointType::Edge, "point-type", "EDGE_PARALLEL"); nPar++; break;
    case CSIntersectionType::FACE_VERTEX: CHECK(p.posA.type == SurfacePointType::Face && p.posB.type == SurfacePointType::Vertex, "point-type", "FACE_VERTEX"); nVert++; break;
    case CSIntersectionType::EDGE_VERTEX: CHECK(p.posA.type == SurfacePointType::Edge && p.posB.type == SurfacePointType::Vertex, "point-type", "EDGE_VERTEX"); nVert++; break;
    }
    if (p.posB.type == SurfacePointType::Vertex) CHECK(p.posA == t.vertexLocations[p.posB.vertex], "point-location", "vertex %zu of the triangulation is elsewhere in the subdivision", p.posB.vertex.getIndex());
    if (p.intersectionType == CSIntersectionType::EDGE_TRANSVERSE && W.flat) CHECK(norm(at(W, p.posA) - evalB(p.posB)) < 10 * pt, "point-same-place", "an intersection is at different places on the two meshes, %.3g apart", norm(at(W, p.posA) - evalB(p.posB)));
    if (p.intersectionType == CSIntersectionType::EDGE_TRANSVERSE && W.flat && T.ic) {
      Vector3 da = W.pos[p.posA.edge.halfedge().next().vertex().getIndex()] - W.pos[p.posA.edge.halfedge().vertex().getIndex()];
      Vector3 db = T.P(p.posB.edge.halfedge().next().vertex()) - T.P(p.posB.edge.halfedge().vertex());
      double c = cross(da, db).z;
      if (std::abs(c) > 1e-3 * norm(da) * norm(db)) ctx.count(p.orientation == (c > 0) ? "orientation-agrees" : "orientation-disagrees");
    }
  }
  CHECK(nVert == T.S.nV, "point-count", "%zu points at vertices, the triangulation has %zu", nVert, T.S.nV);
  // points along the edges
  std::map<CommonSubdivisionPoint*, int> onA, onB;
  std::set<CommonSubdivisionPoint*> sharedB;
  for (Edge e : T.m().edges()) {
    auto& v = cs.pointsAlongB[e];
    Halfedge h = e.halfedge();
    CHECK(v.size() >= 2, "along-B", "edge %zu lists %zu points", e.getIndex(), v.size());
    for (auto* p : v) CHECK(p != nullptr, "along-B", "edge %zu lists a null point", e.getIndex());
    CHECK(v.front()->posB == SurfacePoint(h.vertex()) && v.back()->posB == SurfacePoint(h.twin().vertex()), "along-B-ends", "edge %zu: wrong end points", e.getIndex());
    double last = 0;
    for (size_t i = 1; i + 1 < v.size(); i++) {
      CHECK(v[i]->posB.type == SurfacePointType::Edge && v[i]->posB.edge == e, "along-B", "edge %zu: point %zu is on another element", e.getIndex(), i);
      onB[v[i]]++;
      if (v[i]->intersectionType == CSIntersectionType::EDGE_PARALLEL) {
        CHECK(v.size() == 3, "along-B-parallel", "edge %zu lists a parallel point among crossings", e.getIndex());
        sharedB.insert(v[i]);
      } else {
        CHECK(v[i]->posB.tEdge > last - 1e-6, "along-B-order", "edge %zu: points out of order", e.getIndex());
        last = v[i]->posB.tEdge;
      }
    }
    if (T.ic) CHECK(t.checkEdgeOriginal(e) == (v.size() == 3 && v[1]->intersectionType == CSIntersectionType::EDGE_PARALLEL), "shared-edges", "edge %zu: checkEdgeOriginal disagrees with the subdivision", e.getIndex());
    if (T.sp && t.checkEdgeOriginal(e)) CHECK(v.size() == 3 && v[1]->intersectionType == CSIntersectionType::EDGE_PARALLEL, "shared-edges", "edge %zu is an original edge, the subdivision does not record it as shared", e.getIndex());
    size_t n = 0;
    for (size_t i = 1; i + 1 < v.size(); i++) if (v[i]->intersectionType != CSIntersectionType::EDGE_PARALLEL) n++;
    CHECK(cs.intersectionsB(e) == n, "intersections", "intersectionsB(%zu) = %zu, there are %zu points", e.getIndex(), cs.intersectionsB(e), n);
  }
  for (Edge e : W.in->edges()) {
    auto& v = cs.pointsAlongA[e];
    Halfedge h = e.halfedge();
    CHECK(v.size() >= 2, "along-A", "input edge %zu lists %zu points", e.getIndex(), v.size());
    for (auto* p : v) CHECK(p != nullptr, "along-A", "input edge %zu lists a null point", e.getIndex());
    CHECK(v.front()->posA == SurfacePoint(h.vertex()) && v.back()->posA == SurfacePoint(h.twin().vertex()), "along-A-ends", "input edge %zu: wrong end points", e.getIndex());
    double last = 0;
    size_t n = 0;
    for (size_t i = 1; i + 1 < v.size(); i++) {
      CHECK(v[i]->posA.type == SurfacePointType::Edge && v[i]->posA.edge == e, "along-A", "input edge %zu: point %zu is on another element", e.getIndex(), i);
      onA[v[i]]++;
      if (v[i]->intersectionType == CSIntersectionType::EDGE_PARALLEL) {
        // sits between two vertices of the triangulation, which its intrinsic edge joins
        Edge b = v[i]->posB.edge;
        bool ok = v[i - 1]->posB.type == SurfacePointType::Vertex && v[i + 1]->posB.type == SurfacePointType::Vertex;
        CHECK(ok, "along-A-parallel", "input edge %zu: parallel point %zu is not between two vertices", e.getIndex(), i);
        Vertex x = v[i - 1]->posB.vertex, y = v[i + 1]->posB.vertex;
        CHECK((b.firstVertex() == x && b.secondVertex() == y) || (b.firstVertex() == y && b.secondVertex() == x), "along-A-parallel", "input edge %zu: its parallel intrinsic edge joins other vertices", e.getIndex());
        CHECK(sharedB.count(v[i]), "along-A-parallel", "input edge %zu: parallel point is missing on the intrinsic edge", e.getIndex());
      } else {
        n++;
        CHECK(v[i]->posA.tEdge > last - 1e-6, "along-A-order", "input edge %zu: points out of order", e.getIndex());
        last = v[i]->posA.tEdge;
        if (v[i]->posB.type == SurfacePointType::Vertex && v[i - 1]->posB.type == SurfacePointType::Vertex) CHECK(false, "along-A-parallel", "input edge %zu: two consecutive vertices without a shared edge between them", e.getIndex());
      }
    }
    if (v.size() == 2) CHECK(false, "along-A-parallel", "input edge %zu joins its vertices directly, but no shared edge is recorded", e.getIndex());
    else CHECK(v[v.size() - 2]->posB.type != SurfacePointType::Vertex, "along-A-parallel", "input edge %zu: last segment runs between vertices without a shared edge", e.getIndex());
    CHECK(cs.intersectionsA(e) == n, "intersections", "intersectionsA(%zu) = %zu, there are %zu points", e.getIndex(), cs.intersectionsA(e), n);
  }
  for (auto& p : cs.subdivisionPoints)
    if (p.intersectionType == CSIntersectionType::EDGE_TRANSVERSE || p.intersectionType == CSIntersectionType::EDGE_PARALLEL)
      CHECK(onA[&p] == 1 && onB[&p] == 1, "point-lists", "an edge intersection is listed %d times along A, %d times along B", onA[&p], onB[&p]);
  // counts
  size_t nV, nE, nF;
  std::tie(nV, nE, nF) = cs.elementCounts();
  CHECK(nV == T.S.nV + nTrans && nV == cs.nVertices(), "counts", "elementCounts: %zu vertices, %zu points", nV, T.S.nV + nTrans);
  CHECK((i64)nV - (i64)nE + (i64)nF == W.S0.euler(), "counts", "elementCounts: %zu - %zu + %zu is not the Euler characteristic", nV, nE, nF);
  CHECK(nE == cs.nEdges() && nF == cs.nFaces(), "counts", "nEdges / nFaces");
  // mesh
  bool tri = arg(op, 1) & 1;
  std::unique_ptr<SimplePolygonMesh> simple = cs.buildSimpleMesh();
  CHECK(simple->polygons.size() == nF && simple->vertexCoordinates.size() == nV, "simple-mesh", "buildSimpleMesh: %zu faces, %zu vertices; expected %zu, %zu", simple->polygons.size(), simple->vertexCoordinates.size(), nF, nV);
  bool skip = (arg(op, 1) >> 1) & 1;
  ManifoldSurfaceMesh* had = skip ? cs.mesh.get() : nullptr;
  cs.constructMesh(tri, skip);
  ManifoldSurfaceMesh& cm = *cs.mesh;
  if (had) { // documented: nothing happens
    CHECK(&cm == had, "skip", "constructMesh(skipIfAlreadyConstructed) replaced the mesh");
    tri = cm.nFaces() != nF || cm.isTriangular();
  }
  Snap C = snapshotChecked(cm);
  if (!tri) CHECK(C.nV == nV && C.nE == nE && C.nF == nF, "mesh-counts", "mesh has %zu/%zu/%zu, elementCounts says %zu/%zu/%zu", C.nV, C.nE, C.nF, nV, nE, nF);
  CHECK(C.nV == nV && C.euler() == W.S0.euler() && C.nBL == W.S0.nBL, "mesh-topology", "the mesh of the subdivision has another topology");
  if (!tri && (arg(op, 1) & 4)) { cs.triangulateMesh(); C = snapshotChecked(cm); tri = true; }
  if (tri) for (Face f : cm.faces()) CHECK(f.degree() == 3, "mesh-triangulated", "face of degree %zu", f.degree());
  ctx.count("subdivisions");
  // sources
  std::set<CommonSubdivisionPoint*> used;
  for (Vertex v : cm.vertices()) {
    auto* p = cs.sourcePoints[v];
    CHECK(p && used.insert(p).second, "source-points", "vertex %zu has no own source point", v.getIndex());
  }
  std::vector<double> areaA(W.in->nFaces(), 0), areaB(T.m().nFaces() + 1, 0);
  EdgeData<double> inL(*W.in), inB(T.m());
  for (Edge e : W.in->edges()) inL[e] = W.inLen[e.getIndex()];
  for (Edge e : T.m().edges()) inB[e] = t.edgeLengths[e];
  EdgeData<double> la = cs.interpolateEdgeLengthsA(inL), lb = cs.interpolateEdgeLengthsB(inB);
  auto once = [](const SurfacePoint& p, Face f) { int n = 0; for (auto& x : placements(p)) n += x.first == f; return n <= 1; };
  bool glued = false, gluedWrong = false;
  for (Edge e : cm.edges()) {
    // a face glued to itself meets a vertex more than once: the stored points do not tell which corner is meant
    Face fa = cs.sourceFaceA[e.halfedge().face()], fb = cs.sourceFaceB[e.halfedge().face()];
    bool clear = true;
    for (Vertex v : e.adjacentVertices()) clear = clear && once(cs.sourcePoints[v]->posA, fa) && once(cs.sourcePoints[v]->posB, fb);
    if (!clear) { glued = true; gluedWrong = gluedWrong || !(std::abs(la[e] - lb[e]) < 10 * pt); continue; }
    CHECK(std::abs(la[e] - lb[e]) < 10 * pt, "subdivision-lengths", "edge %zu of the subdivision: %.10g through the input, %.10g through the triangulation", e.getIndex(), la[e], lb[e]);
  }
  for (Face f : cm.faces()) {
    Face fa = cs.sourceFaceA[f], fb = cs.sourceFaceB[f];
    CHECK(fa != Face() && fb != Face() && fa.getMesh() == W.in.get() && fb.getMesh() == &T.m(), "source-faces", "face %zu has no source face", f.getIndex());
    double A = 0;
    std::vector<Vector3> pa;
    for (Vertex v : f.adjacentVertices()) {
      SurfacePoint a, b;
      try { a = cs.sourcePoints[v]->posA.inFace(fa); b = cs.sourcePoints[v]->posB.inFace(fb); } catch (std::exception& e) { CHECK(false, "source-faces", "face %zu: a vertex does not lie in its source face: %s", f.getIndex(), e.what()); }
      Halfedge h = fa.halfedge();
      double l0 = inL[h.edge()], l1 = inL[h.next().edge()], l2 = inL[h.next().next().edge()];
      Vector2 p1{l0, 0}, p2 = apex({0, 0}, p1, l2, l1);
      Vector2 q = a.faceCoords[1] * p1 + a.faceCoords[2] * p2;
      pa.push_back({q.x, q.y, 0});
    }
    for (size_t i = 0; i < pa.size(); i++) A += .5 * cross(pa[i], pa[(i + 1) % pa.size()]).z;
    CHECK(A > -pt * W.scale, "subdivision-orientation", "face %zu of the subdivision is turned over (area %.3g)", f.getIndex(), A);
    areaA[fa.getIndex()] += A;
    areaB[fb.getIndex()] += A;
  }
  for (Face f : W.in->faces()) {
    Halfedge h = f.halfedge();
    double want = triArea(inL[h.edge()], inL[h.next().edge()], inL[h.next().next().edge()]);
    CHECK(std::abs(areaA[f.getIndex()] - want) < 100 * pt * W.scale, "subdivision-covers-A", "input face %zu has area %.8g, its part of the subdivision %.8g", f.getIndex(), want, areaA[f.getIndex()]);
  }
  for (Face f : T.m().faces()) {
    Halfedge h = f.halfedge();
    double want = triArea(inB[h.edge()], inB[h.next().edge()], inB[h.next().next().edge()]);
    CHECK(std::abs(areaB[f.getIndex()] - want) < 100 * pt * W.scale, "subdivision-covers-B", "intrinsic face %zu has area %.8g, its part of the subdivision %.8g", f.getIndex(), want, areaB[f.getIndex()]);
  }
  // interpolation
  VertexData<double> dA(*W.in), dB(T.m());
  for (Vertex v : W.in->vertices()) dA[v] = (double)(mix64(arg(op, 2) + v.getIndex()) % 1000) * .01;
  for (Vertex v : T.m().vertices()) dB[v] = (double)(mix64(arg(op, 2) + 5 + v.getIndex()) % 1000) * .01;
  VertexData<double> iA = cs.interpolateAcrossA(dA), iB = cs.interpolateAcrossB(dB);
  Eigen::VectorXd mA = cs.interpolationMatrixA() * dA.toVector(), mB = cs.interpolationMatrixB() * dB.toVector();
  size_t k = 0;
  for (Vertex v : cm.vertices()) {
    double ea = cs.sourcePoints[v]->posA.interpolate(dA), eb = cs.sourcePoints[v]->posB.interpolate(dB);
    CHECK(std::abs(iA[v] - ea) < 1e-9 && std::abs(mA[k] - ea) < 1e-9, "interpolate-A", "vertex %zu: %.10g, matrix %.10g, expected %.10g", v.getIndex(), iA[v], mA[k], ea);
    CHECK(std::abs(iB[v] - eb) < 1e-9 && std::abs(mB[k] - eb) < 1e-9, "interpolate-B", "vertex %zu: %.10g, matrix %.10g, expected %.10g", v.getIndex(), iB[v], mB[k], eb);
    k++;
  }
  FaceData<double> fA(*W.in), fB(T.m());
  for (Face f : W.in->faces()) fA[f] = (double)f.getIndex();
  for (Face f : T.m().faces()) fB[f] = (double)f.getIndex();
  FaceData<double> cA = cs.copyFromA(fA), cB = cs.copyFromB(fB);
  for (Face f : cm.faces()) CHECK(cA[f] == (double)cs.sourceFaceA[f].getIndex() && cB[f] == (double)cs.sourceFaceB[f].getIndex(), "copy-from", "face %zu", f.getIndex());
  // mass and transfer
  bool sliver = false;
  if (tri)
    for (Face f : cm.faces()) {
      Halfedge h = f.halfedge();
      double a = la[h.edge()], b = la[h.next().edge()], c = la[h.next().next().edge()];
      if (triArea(a, b, c) < 1e-5 * W.scale * W.scale || std::min(a, std::min(b, c)) < 1e-3 * W.scale) sliver = true;
    }
  if (tri && !sliver && !glued) {
    Eigen::SparseMatrix<double> M = cs.vertexGalerkinMassMatrixFromLengthsA(inL), M2 = cs.vertexGalerkinMassMatrixFromLengthsB(inB);
    Eigen::VectorXd one = Eigen::VectorXd::Ones(M.rows());
    double a1 = one.dot(M * one), a2 = one.dot(M2 * one);
    CHECK(std::abs(a1 - W.area) < 1e-4 * W.area && std::abs(a2 - W.area) < 1e-4 * W.area, "mass-matrix", "mass matrices of the subdivision integrate to %.8g and %.8g, the area is %.8g", a1, a2, W.area);
    if (W.vpg && (arg(op, 3) & 3) == 0) {
      AttributeTransfer at2(cs, *W.vpg);
      VertexData<double> cst(*W.in, 3.25);
      for (int meth = 0; meth < 2; meth++) {
        TransferMethod tm = meth ? TransferMethod::L2 : TransferMethod::Pointwise;
        VertexData<double> toB = at2.transferAtoB(cst, tm);
        for (Vertex v : T.m().vertices()) CHECK(std::abs(toB[v] - 3.25) < 1e-5, "transfer-constant", "method %d: a constant becomes %.10g at vertex %zu", meth, toB[v], v.getIndex());
        VertexData<double> cb(T.m(), -1.5);
        VertexData<double> toA = at2.transferBtoA(cb, tm);
        for (Vertex v : W.in->vertices()) CHECK(std::abs(toA[v] + 1.5) < 1e-5, "transfer-constant", "method %d back: a constant becomes %.10g", meth, toA[v]);
      }
      VertexData<double> tb = at2.transferAtoB(dA, TransferMethod::L2);
      double ia = one.dot(at2.M_CS_Galerkin * (at2.P_A * dA.toVector())), ib = one.dot(at2.M_CS_Galerkin * (at2.P_B * tb.toVector()));
      CHECK(std::abs(ia - ib) < 1e-5 * (1 + std::abs(ia)), "transfer-integral", "L2 transfer changes the integral from %.10g to %.10g", ia, ib);
      VertexData<double> tp = at2.transferAtoB(dA, TransferMethod::Pointwise);
      for (size_t i = 0; i < T.nIn; i++) CHECK(std::abs(tp[T.m().vertex(i)] - dA[W.in->vertex(i)]) < 1e-9, "transfer-pointwise", "vertex %zu", i);
      ctx.count("transfers");
    }
  }
  if (glued) ctx.count("subdivisions-of-self-glued-faces");
  if ((arg(op, 3) & 12) == 0) CHECK(!gluedWrong, "subdivision-lengths-self-glued", "interpolateEdgeLengths() is wrong on an edge of the subdivision inside of a face which meets the same vertex at two corners");
}

Vertex pickVertex(Tri& T, u64 a) { return T.m().vertex(T.S.vs[a % T.S.vs.size()]); }

// returns false if the run has to end
bool applyOp(Tri& T, const Op& op, Ctx& ctx, bool corr) {
  IWorld& W = *T.W;
  IntrinsicTriangulation& t = *T.t;
  ManifoldSurfaceMesh& m = T.m();
  Snap SB = T.S;
  std::vector<double> LB = T.len;
  T.clearLog();
  ctx.steps++;
  const char* nm = ioNames[(size_t)op.kind].c_str();
  Edge e = m.edge(SB.es[arg(op, 0) % SB.es.size()]);
  Face f = m.face(SB.fs[arg(op, 0) % SB.fs.size()]);
  auto unchanged = [&](const char* why) {
    Snap N = snapshotChecked(m);
    CHECK(N == SB, "refused-changes", "%s was refused (%s) but changed the mesh: %s", nm, why, SB.diff(N).c_str());
    checkUntouched(T, LB, SB, {}, nm);
    CHECK(T.flips.empty() && T.splits.empty() && T.faceIns.empty(), "callback", "%s was refused but invoked callbacks", nm);
  };
  auto isRiskyEdge = [&](Edge x) { return !x.isBoundary() && t.checkEdgeOriginal(x); };
  bool refreshed = false;
  switch (op.kind) {
  case IO_flipPossible:
  case IO_flipNotDelaunay: {
    if (e.isBoundary() && (arg(op, 1) & 3)) e = m.edge(SB.es[arg(op, 2) % SB.es.size()]);
    bool fixed = isFixedEdge(T, e), del = op.kind == IO_flipNotDelaunay;
    Diamond d{};
    if (!e.isBoundary()) d = diamond(T, e);
    if (!e.isBoundary()) {
      bool isDel = t.isDelaunay(e);
      if (!fixed && std::abs(d.cot) > 1e-4) CHECK(isDel == (d.cot > 0), "is-delaunay", "edge %zu: isDelaunay() = %d, its cotan weight is %.6g", e.getIndex(), (int)isDel, d.cot);
      if (fixed) CHECK(isDel, "is-delaunay", "a fixed edge is reported not Delaunay");
    }
    size_t oa = 0, ob = 0;
    if (!e.isBoundary()) { oa = e.halfedge().next().next().vertex().getIndex(); ob = e.halfedge().twin().next().next().vertex().getIndex(); }
    bool r = del ? t.flipEdgeIfNotDelaunay(e) : t.flipEdgeIfPossible(e);
    if (!r) {
      unchanged("returned false");
      if (!fixed && !d.degOne && !e.isBoundary()) {
        if (del) CHECK(d.cot > -1e-4, "flip-missed", "edge %zu with cotan weight %.6g was not flipped", e.getIndex(), d.cot);
        else CHECK(d.A1 < 1e-4 * d.sum || d.A2 < 1e-4 * d.sum, "flip-missed", "edge %zu can be flipped (areas %.6g, %.6g) but was not", e.getIndex(), d.A1, d.A2);
      }
    } else {
      CHECK(!fixed && !d.degOne, "flip-wrong", "an edge which cannot be flipped was flipped");
      if (del) CHECK(d.cot < 1e-4, "flip-wrong", "a Delaunay edge (weight %.6g) was flipped", d.cot);
      else CHECK(d.A1 > -1e-4 * std::abs(d.sum) && d.A2 > -1e-4 * std::abs(d.sum), "flip-wrong", "edge in a non-convex quad (areas %.6g, %.6g) was flipped", d.A1, d.A2);
      CHECK(std::abs(T.L(e.getIndex()) - d.newLen) < 1e-6 * W.scale, "flip-length", "flipped edge %zu has length %.10g, expected %.10g", e.getIndex(), T.L(e.getIndex()), d.newLen);
      size_t na = e.halfedge().vertex().getIndex(), nb = e.halfedge().twin().vertex().getIndex();
      CHECK((na == oa && nb == ob) || (na == ob && nb == oa), "flip-ends", "flipped edge %zu joins vertices %zu and %zu, expected %zu and %zu", e.getIndex(), na, nb, oa, ob);
      checkUntouched(T, LB, SB, {e.getIndex()}, nm);
      CHECK(T.flips.size() == 1 && T.flips[0] == e.getIndex() && T.splits.empty() && T.faceIns.empty(), "callback", "%s: flip callback invoked %zu times", nm, T.flips.size());
      ctx.nontrivial = true;
      ctx.count("flips");
    }
    ctx.ev(r);
    break;
  }
  case IO_flipDelaunay: {
    t.flipToDelaunay();
    refreshed = true;
    for (Edge x : m.edges()) {
      if (isFixedEdge(T, x)) continue;
      Diamond d = diamond(T, x);
      if (!d.degOne) CHECK(d.cot > -1e-5, "not-delaunay", "after flipToDelaunay() edge %zu has cotan weight %.6g", x.getIndex(), d.cot);
    }
    CHECK(t.isDelaunay(), "not-delaunay", "isDelaunay() is false after flipToDelaunay()");
    std::set<size_t> fl(T.flips.begin(), T.flips.end());
    checkUntouched(T, LB, SB, std::vector<size_t>(fl.begin(), fl.end()), nm);
    if (T.flips.size()) { ctx.nontrivial = true; ctx.count("flips", T.flips.size()); }
    ctx.ev(T.flips.size());
    break;
  }
  case IO_insertFace:
  case IO_barycenter: {
    Vector3 b{argUnit(op, 1) + .15, argUnit(op, 2) + .15, argUnit(op, 3) + .15};
    b /= b.x + b.y + b.z;
    if (op.kind == IO_barycenter) b = Vector3::constant(1. / 3);
    Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
    Vertex v3[3] = {h[0].vertex(), h[1].vertex(), h[2].vertex()};
    double l0 = T.L(h[0].edge().getIndex()), l1 = T.L(h[1].edge().getIndex()), l2 = T.L(h[2].edge().getIndex());
    Vector2 p[3] = {{0, 0}, {l0, 0}, apex({0, 0}, {l0, 0}, l2, l1)};
    Vector2 q = b.x * p[0] + b.y * p[1] + b.z * p[2];
    Vector3 truth = b.x * T.P(v3[0]) + b.y * T.P(v3[1]) + b.z * T.P(v3[2]);
    Vertex v = op.kind == IO_barycenter ? t.insertBarycenter(f) : t.insertVertex(SurfacePoint(f, b));
    CHECK(v != Vertex() && v.degree() == 3 && m.nVertices() == SB.nV + 1 && m.nFaces() == SB.nF + 2, "insert", "%s: no degree-3 vertex was added", nm);
    for (int k = 0; k < 3; k++) {
      Halfedge o = h[k].next().next(); // v -> v3[k]
      CHECK(o.vertex() == v && h[k].next().twin().next() == h[(k + 1) % 3] && o.twin().vertex() == v3[k], "insert-connectivity", "%s: side %d of the face", nm, k);
      double want = norm(q - p[k]);
      CHECK(std::abs(T.L(o.edge().getIndex()) - want) < 1e-6 * W.scale, "insert-length", "%s: edge to corner %d has length %.10g, expected %.10g", nm, k, T.L(o.edge().getIndex()), want);
    }
    checkUntouched(T, LB, SB, {}, nm);
    CHECK(T.faceIns.size() == 1 && T.faceIns[0].first == f.getIndex() && T.faceIns[0].second == v.getIndex() && T.flips.empty() && T.splits.empty(), "callback", "%s: face insertion callback invoked %zu times", nm, T.faceIns.size());
    if (W.flat) CHECK(norm(T.P(v) - truth) < 2e-4 * W.scale, "insert-location", "%s: the new vertex is at distance %.3g of where it was asked for", nm, norm(T.P(v) - truth));
    T.totalIns++;
    ctx.nontrivial = true;
    ctx.ev(v.getIndex());
    break;
  }
  case IO_circumcenter: {
    double cx = 0;
    Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
    double l0 = T.L(h[0].edge().getIndex()), l1 = T.L(h[1].edge().getIndex()), l2 = T.L(h[2].edge().getIndex());
    double R = l0 * l1 * l2 / (4 * triArea(l0, l1, l2));
    (void)cx;
    Vertex c3[3] = {h[0].vertex(), h[1].vertex(), h[2].vertex()};
    double ma = std::min(triAngle(l0, l2, l1), std::min(triAngle(l1, l0, l2), triAngle(l2, l1, l0)));
    bool acute = triAngle(l0, l2, l1) < PI / 2 - .05 && triAngle(l1, l0, l2) < PI / 2 - .05 && triAngle(l2, l1, l0) < PI / 2 - .05;
    if (ma < .1) { ctx.count("skipped.skinny-circumcenter"); break; }
    Vector3 P3[3] = {T.P(c3[0]), T.P(c3[1]), T.P(c3[2])};
    // which edges might be split?
    std::vector<char> wasShared(m.nEdges() + 8, 0);
    for (size_t x : SB.es) { if (x >= wasShared.size()) wasShared.resize(x + 1, 0); wasShared[x] = isRiskyEdge(m.edge(x)); }
    bool corner = false; // circumcentre within rounding of an edge: where it is inserted is a matter of rounding
    if (std::abs(triAngle(l0, l2, l1) - PI / 2) < .02 || std::abs(triAngle(l1, l0, l2) - PI / 2) < .02 || std::abs(triAngle(l2, l1, l0) - PI / 2) < .02) corner = true;
    if (corner) break;
    Vertex v = t.insertCircumcenter(f);
    if (v == Vertex()) { unchanged("returned Vertex()"); ctx.count("circumcenter-failed"); break; }
    if (m.nVertices() == SB.nV) { ctx.count("circumcenter-at-vertex"); break; }
    CHECK(m.nVertices() == SB.nV + 1, "insert", "%s added %zu vertices", nm, m.nVertices() - SB.nV);
    CHECK(T.faceIns.size() + T.splits.size() == 1 && T.flips.empty(), "callback", "%s: %zu face insertions, %zu splits, %zu flips reported", nm, T.faceIns.size(), T.splits.size(), T.flips.size());
    if (T.splits.size()) {
      CHECK(m.halfedge(T.splits[0].h1).vertex() == v, "callback", "%s: reported halfedges do not start at the new vertex", nm);
      size_t se = T.splits[0].e;
      if (wasShared[se]) T.risky = true;
      double la = T.L(m.halfedge(T.splits[0].h1).edge().getIndex()), lb = T.L(m.halfedge(T.splits[0].h2).edge().getIndex());
      CHECK(std::abs(la - LB[se] / 2) < 1e-6 * W.scale && std::abs(lb - LB[se] / 2) < 1e-6 * W.scale, "circumcenter-split", "%s: edge %zu was not split at its midpoint", nm, se);
    }
    if (acute) { // the circumcentre is inside of the face
      CHECK(T.faceIns.size() == 1 && T.faceIns[0].first == f.getIndex(), "circumcenter", "circumcenter of acute face %zu was not inserted into that face", f.getIndex());
      for (int k = 0; k < 3; k++) CHECK(std::abs(T.L(h[k].next().next().edge().getIndex()) - R) < 1e-5 * (R + W.scale), "circumcenter", "distance to corner %d is %.8g, the circumradius is %.8g", k, T.L(h[k].next().next().edge().getIndex()), R);
    }
    if (W.flat && T.faceIns.size() && !T.risky) {
      // unless stopped by a fixed edge, the point is at circumradius distance from the three corners
      bool marked = t.markedEdges.size() > 0;
      double dd[3];
      for (int k = 0; k < 3; k++) dd[k] = norm(T.P(v) - P3[k]);
      if (!marked) for (int k = 0; k < 3; k++) CHECK(std::abs(dd[k] - R) < 1e-3 * (R + W.scale), "circumcenter", "new vertex is %.8g from corner %d, the circumradius is %.8g", dd[k], k, R);
    }
    T.totalIns++;
    ctx.nontrivial = true;
    ctx.ev(v.getIndex());
    break;
  }
  case IO_split: {
    int mode = (int)(arg(op, 1) % 4);
    // prefer boundary / marked / unshared edges
    for (int k = 0; k < 20; k++) {
      Edge c = m.edge(SB.es[mix64(arg(op, 0) + (u64)k) % SB.es.size()]);
      bool ok = mode == 0 ? c.isBoundary() : mode == 1 ? (isFixedEdge(T, c) && !isRiskyEdge(c)) : mode == 2 ? !isRiskyEdge(c) : true;
      if (mode == 3 && isRiskyEdge(c) && arg(op, 4) % 8) ok = false;
      if (ok) { e = c; break; }
    }
    if (!e.isBoundary() && e.halfedge().face() == e.halfedge().twin().face()) { ctx.count("skipped.split-glued-edge"); break; }
    if (isRiskyEdge(e) && mode != 3) { ctx.count("skipped.only-shared-edges"); break; }
    bool risky = isRiskyEdge(e), bd = e.isBoundary();
    Halfedge he = (arg(op, 3) & 1) ? e.halfedge() : e.halfedge().twin();
    double s = .1 + .8 * argUnit(op, 2);
    double l = T.L(e.getIndex());
    if (l < .02 * W.scale) { ctx.count("skipped.short-edge"); break; }
    Vertex tail = he.vertex(), tip = he.twin().vertex();
    Vector3 truth = (1 - s) * T.P(tail) + s * T.P(tip);
    bool wasMarked = t.markedEdges.size() > 0 && t.markedEdges[e];
    Halfedge r;
    Vertex v;
    bool viaInsert = (arg(op, 3) & 6) == 6;
    if (viaInsert) v = t.insertVertex(SurfacePoint(he, s));
    else { r = t.splitEdge(he, s); v = r.vertex(); }
    if (risky) T.risky = true;
    CHECK(v.degree() == (bd ? 3u : 4u) && m.nVertices() == SB.nV + 1, "split", "split of edge %zu: new vertex has degree %zu", e.getIndex(), v.degree());
    if (viaInsert) {
      // the two along-edge halves: the callback names them
      CHECK(T.splits.size() == 1, "callback", "split callback invoked %zu times", T.splits.size());
      Halfedge a = m.halfedge(T.splits[0].h1), b = m.halfedge(T.splits[0].h2);
      r = a.twin().vertex() == tip && std::abs(T.L(a.edge().getIndex()) - (1 - s) * l) < 1e-6 * W.scale ? a : b;
    } else {
      CHECK(r.vertex() == v && v.getIndex() >= SB.nV - 0 && !std::count(SB.vs.begin(), SB.vs.end(), v.getIndex()), "split-returns", "splitEdge returned a halfedge which does not start at the new vertex");
    }
    // opposite one along the edge
    Halfedge back;
    if (bd) {
      for (Halfedge o : v.outgoingHalfedges()) if (o != r && o.edge().isBoundary()) back = o;
    } else back = r.next().next().twin().next().next().twin();
    CHECK(r.twin().vertex() == tip && back.twin().vertex() == tail, "split-direction", "splitEdge(%s, %.3g): the returned halfedge does not point in the direction of the one given (to vertex %zu instead of %zu)",
          he == e.halfedge() ? "e.halfedge()" : "its twin", s, r.twin().vertex().getIndex(), tip.getIndex());
    CHECK(std::abs(T.L(r.edge().getIndex()) - (1 - s) * l) < 1e-6 * W.scale && std::abs(T.L(back.edge().getIndex()) - s * l) < 1e-6 * W.scale, "split-lengths",
          "splitEdge(t = %.3g) of a%s edge of length %.8g: %.8g behind, %.8g ahead", s, bd ? " boundary" : "n interior", l, T.L(back.edge().getIndex()), T.L(r.edge().getIndex()));
    CHECK(T.splits.size() == 1 && T.splits[0].e == e.getIndex() && T.flips.empty() && T.faceIns.empty(), "callback", "split callback invoked %zu times", T.splits.size());
    {
      Edge a = m.halfedge(T.splits[0].h1).edge(), b = m.halfedge(T.splits[0].h2).edge();
      CHECK((a == r.edge() && b == back.edge()) || (a == back.edge() && b == r.edge()), "callback", "split callback names other edges than the halves");
    }
    if (wasMarked) CHECK(t.markedEdges[r.edge()] && t.markedEdges[back.edge()], "marked-split", "halves of a marked edge are not marked");
    if (W.flat && !(T.risky && T.sp)) CHECK(norm(T.P(v) - truth) < 5e-4 * W.scale, "split-location", "split vertex of edge %zu (t = %.3g) is %.3g away from where it should be", e.getIndex(), s, norm(T.P(v) - truth));
    {
      std::vector<size_t> ex = {r.edge().getIndex(), back.edge().getIndex()};
      checkUntouched(T, LB, SB, ex, nm);
    }
    T.totalIns++;
    ctx.nontrivial = true;
    ctx.ev(v.getIndex());
    break;
  }
  case IO_remove: {
    Vertex v = pickVertex(T, arg(op, 0));
    if (T.totalIns && (arg(op, 1) & 3))
      for (int k = 0; k < 20; k++) { Vertex c = pickVertex(T, mix64(arg(op, 0) + (u64)k)); if (c.getIndex() >= T.nIn) { v = c; break; } }
    bool orig = v.getIndex() < T.nIn, fixedV = t.isOnFixedEdge(v);
    size_t vi = v.getIndex();
    Face r = t.removeInsertedVertex(v);
    if (r == Face()) {
      CHECK(m.nVertices() == SB.nV, "remove", "removeInsertedVertex failed but the vertex is gone");
      if (orig || fixedV) unchanged("cannot be removed");
      else ctx.count("remove-failed");
    } else {
      CHECK(!orig && !fixedV, "remove", "an %s vertex was removed", orig ? "original" : "fixed");
      CHECK(m.nVertices() == SB.nV - 1 && v.isDead() && !r.isDead() && r.degree() == 3, "remove", "removeInsertedVertex(%zu)", vi);
      ctx.nontrivial = true;
      ctx.count("removals");
    }
    for (size_t x : T.flips) CHECK(x < 1000000, "callback", "flip callback");
    ctx.ev(r != Face());
    break;
  }
  case IO_refine:
  case IO_refineFn: {
    size_t cap = 5 + arg(op, 1) % 40;
    double thr = 15 + 10 * argUnit(op, 2), rad = (arg(op, 3) & 1) ? std::numeric_limits<double>::infinity() : W.scale * (.35 + argUnit(op, 3));
    std::vector<char> wasShared(m.nEdges() + 8, 0);
    for (size_t x : SB.es) { if (x >= wasShared.size()) wasShared.resize(x + 1, 0); wasShared[x] = isRiskyEdge(m.edge(x)); }
    bool split3 = false;
    auto hook = t.edgeSplitCallbackList.insert(t.edgeSplitCallbackList.begin(), [&](Edge x, Halfedge, Halfedge) { if (x.getIndex() < wasShared.size() && !x.isBoundary() && (wasShared[x.getIndex()])) split3 = true; });
    size_t c1 = t.edgeFlipCallbackList.size(), c2 = t.edgeSplitCallbackList.size(), c3 = t.faceInsertionCallbackList.size();
    size_t calls = 0;
    bool anyMarkedShared = false;
    if (t.markedEdges.size() > 0) for (Edge x : m.edges()) if (t.markedEdges[x] && !x.isBoundary()) anyMarkedShared = true;
    if (op.kind == IO_refine) t.delaunayRefine(thr, rad, cap);
    else t.delaunayRefine([&](Face x) { calls++; return t.faceArea(x) > W.area * .12; }, cap);
    refreshed = true;
    CHECK(t.edgeFlipCallbackList.size() == c1 && t.edgeSplitCallbackList.size() == c2 && t.faceInsertionCallbackList.size() == c3, "callback-restored", "delaunayRefine() leaves its own callbacks registered");
    t.edgeSplitCallbackList.erase(hook);
    if (split3 || anyMarkedShared) T.risky = true;
    size_t ins = T.faceIns.size() + T.splits.size();
    CHECK(ins <= cap, "refine-cap", "delaunayRefine(maxInsertions = %zu) inserted %zu vertices", cap, ins);
    CHECK(m.nVertices() <= SB.nV + ins, "refine-cap", "more vertices than insertions");
    T.S = snapshotChecked(m);
    for (size_t v : SB.vs) if (v < T.nIn) CHECK(!m.vertex(v).isDead(), "refine-removes-original", "original vertex %zu is gone", v);
    if (ins) T.totalIns += ins;
    bool capped = ins == cap;
    if (!capped) {
      for (Edge x : m.edges()) {
        if (isFixedEdge(T, x)) continue;
        Diamond d = diamond(T, x);
        if (!d.degOne) CHECK(d.cot > -1e-5, "refine-not-delaunay", "after delaunayRefine() edge %zu has cotan weight %.6g", x.getIndex(), d.cot);
      }
      if (op.kind == IO_refineFn) {
        for (Face x : m.faces()) CHECK(t.faceArea(x) <= W.area * .12 * (1 + 1e-9), "refine-function", "after delaunayRefine(function) face %zu still should be refined", x.getIndex());
      } else {
        bool needle = false;
        for (size_t i = 0; i < T.nIn; i++) if (W.angleSum[i] < PI / 3 + .01) needle = true;
        // sectors between fixed edges narrower than 60 degrees cannot be refined
        for (Vertex v : m.vertices()) {
          std::vector<Halfedge> out;
          Halfedge h = v.halfedge();
          double acc = 0, firstAcc = -1, total = 0;
          Halfedge st = h;
          bool any = false;
          do {
            if (isFixedEdge(T, h.edge())) { if (any && acc < PI / 3 + .01) needle = true; if (!any) firstAcc = total; any = true; acc = 0; }
            if (!h.isInterior()) break;
            double a = triAngle(T.L(h.edge().getIndex()), T.L(h.next().next().edge().getIndex()), T.L(h.next().edge().getIndex()));
            acc += a;
            total += a;
            h = h.next().next().twin();
          } while (h != st);
          if (any && !v.isBoundary() && acc + firstAcc < PI / 3 + .01) needle = true;
        }
        if (!needle) {
          for (Face x : m.faces()) {
            Halfedge h = x.halfedge();
            double l[3];
            for (int k = 0; k < 3; k++) { l[k] = T.L(h.edge().getIndex()); h = h.next(); }
            double R = l[0] * l[1] * l[2] / (4 * triArea(l[0], l[1], l[2]));
            if (std::isfinite(rad)) CHECK(R <= rad * (1 + 1e-6), "refine-radius", "after delaunayRefine() face %zu has circumradius %.8g, the limit was %.8g", x.getIndex(), R, rad);
            for (int k = 0; k < 3; k++) {
              double a = triAngle(l[k], l[(k + 2) % 3], l[(k + 1) % 3]) * 180 / PI;
              CHECK(a >= thr - 1e-4, "refine-angle", "after delaunayRefine(%.4g) face %zu has an angle of %.6g degrees", thr, x.getIndex(), a);
            }
          }
          ctx.count("refine-judged");
        }
      }
    } else ctx.count("refine-capped");
    if (ins) ctx.nontrivial = true;
    ctx.ev(ins);
    break;
  }
  case IO_mark: {
    EdgeData<bool> mk(m, false);
    for (Edge x : m.edges()) mk[x] = mix64(arg(op, 0) + x.getIndex()) % 5 == 0;
    if (arg(op, 1) & 1) mk.fill(false), mk[e] = true;
    t.setMarkedEdges(mk);
    T.markedLen = 0;
    for (Edge x : m.edges()) {
      CHECK(t.isFixed(x) == (x.isBoundary() || mk[x]), "is-fixed", "edge %zu", x.getIndex());
      if (mk[x]) T.markedLen += T.L(x.getIndex());
    }
    for (Vertex v : m.vertices()) {
      bool on = false;
      for (Edge x : v.adjacentEdges()) if (x.isBoundary() || mk[x]) on = true;
      CHECK(t.isOnFixedEdge(v) == on, "is-fixed", "isOnFixedEdge(%zu)", v.getIndex());
    }
    unchanged("marking");
    break;
  }
  case IO_clearMark:
    t.clearMarkedEdges();
    T.markedLen = 0;
    unchanged("clearing marks");
    break;
  case IO_refresh:
    t.refreshQuantities();
    refreshed = true;
    unchanged("refresh");
    break;
  case IO_trace:
    if (corr) {
      if (arg(op, 1) & 1) checkUncachedInputTraces(T, arg(op, 2));
      checkTraces(T, ctx, arg(op, 0));
      ctx.nontrivial = true;
    }
    break;
  case IO_subdivision:
    if (corr) { checkSubdivision(T, op, ctx); ctx.nontrivial = true; }
    else { t.getCommonSubdivision(); T.S = snapshotChecked(m); }
    break;
  case IO_points:
    if (corr) checkPoints(T, op, ctx);
    break;
  }
  if (!inDomain(T)) { ctx.count("left-domain.degenerate"); return false; }
  checkState(T, nm, refreshed);
  return true;
}

void build(Tri& T, IWorld& W, bool integer, double moll) {
  T.W = &W;
  if (integer) {
    T.ic = new IntegerCoordinatesIntrinsicTriangulation(*W.in, *W.g, moll);
    T.t.reset(T.ic);
  } else {
    T.sp = new SignpostIntrinsicTriangulation(*W.in, *W.g);
    T.t.reset(T.sp);
  }
  T.nIn = W.in->nVertices();
  T.t->requireCornerAngles();
  T.t->requireFaceAreas();
  T.t->requireEdgeCotanWeights();
  registerCallbacks(T);
  checkState(T, "construction", true);
  CHECK(T.S.next == W.S0.next && T.S.vert == W.S0.vert, "construction", "the initial triangulation is not a copy of the input");
  for (size_t e : T.S.es) CHECK(std::abs(T.len[e] - W.inLen[e]) < 1e-9 * W.scale && T.t->checkEdgeOriginal(T.m().edge(e)), "construction", "edge %zu", e);
}

History gen(u64 seed, int tier, bool corr) {
  Rng r(seed);
  History h;
  h.cfg["flat"] = r.chance(.55);
  h.cfg["kind"] = (i64)r.below(h.cfg["flat"] ? 4 : (u64)nManifoldKinds);
  h.cfg["size"] = r.range(1, tier ? 4 : 3);
  h.cfg["preflip"] = r.chance(.5) ? r.range(1, 20) : 0;
  h.cfg["jitter"] = (i64)r.below(4);
  h.cfg["lengths"] = r.chance(.3);
  h.cfg["type"] = (i64)r.below(5) < 2 ? 0 : (r.chance(.75) ? 1 : 2); // 0 signpost, 1 integer, 2 both in lockstep
  h.cfg["moll"] = r.chance(.5);
  std::vector<double> w;
  switch (r.below(5)) {
  case 0: w = {6, 3, .6, 2, 1, .7, 1.2, 1, .2, .1, .4, .2, .5, 1, 1, 1}; break;
  case 1: w = {8, 1, 0, 0, 0, 0, 0, 0, 0, 0, .2, .1, .2, 1, 1, .5}; break;  // flips only
  case 2: w = {2, 1, .5, 3, 2, 2, 3, 3, 0, 0, .3, .3, .3, 1, 1, 1}; break;   // insertion and removal
  case 3: w = {1, 1, 1.5, .5, .5, .5, 1, .5, 1, .5, .7, .5, .3, 1, 1, 1}; break; // high level
  default: w = {3, 2, .3, 1, .5, 1, 4, 1, .1, .1, 1, .2, .4, 1, 1, 1}; break;  // splits
  }
  if (!corr) w[IO_trace] = .1, w[IO_subdivision] = .2, w[IO_points] = 0;
  else w[IO_trace] *= 1.2, w[IO_subdivision] *= 1.5;
  size_t n = (size_t)r.range(4, tier ? 40 : 22);
  for (size_t i = 0; i < n; i++) {
    Op o;
    o.kind = (int)r.weighted(w);
    for (int k = 0; k < 5; k++) o.a.push_back(r.next() >> 8);
    h.ops.push_back(o);
  }
  return h;
}

bool hasGluedEdge(Tri& T) {
  for (Edge e : T.m().edges())
    if (!e.isBoundary() && e.halfedge().face() == e.halfedge().twin().face()) return true;
  return false;
}

void exec(const History& h, Ctx& ctx, bool corr) {
  IWorld W;
  buildWorld(W, h);
  double moll = h.get("moll") ? 1e-5 : 0;
  std::vector<std::unique_ptr<Tri>> ts;
  int type = (int)h.get("type");
  for (int k = 0; k < (type == 2 ? 2 : 1); k++) {
    ts.emplace_back(new Tri());
    build(*ts.back(), W, type == 1 || k == 1, moll);
  }
  for (auto& op : h.ops) {
    ctx.ev((u64)op.kind);
    bool end = false;
    for (auto& T : ts) {
      if (T->S.nF > 300) return;
      bool wasRisky = T->risky, glued = hasGluedEdge(*T);
      try {
        if (!applyOp(*T, op, ctx, corr)) end = true;
        if (getenv("SIM_DUMP") && T->ic) {
          fprintf(stderr, "after %s\n", ioNames[(size_t)op.kind].c_str());
          auto& n = T->ic->normalCoordinates;
          for (Face f : T->m().faces()) {
            fprintf(stderr, "  f%zu:", f.getIndex());
            for (Halfedge h : f.adjacentHalfedges()) fprintf(stderr, " h%zu(e%zu v%zu n%d round %d l%.6g)", h.getIndex(), h.edge().getIndex(), h.vertex().getIndex(), n[h.edge()], n.roundabouts[h], T->t->edgeLengths[h.edge()]);
            fprintf(stderr, "\n");
          }
          try { for (Edge e : T->m().edges()) (void)T->t->traceIntrinsicHalfedgeAlongInput(e.halfedge()); } catch (std::exception& e) { fprintf(stderr, "   trace: %s\n", e.what()); }
        }
        if (end) return;
      } catch (std::exception& e) {
        // splitting an interior edge shared with the input is marked as not well supported: loud failures afterwards end the run
        if (wasRisky || T->risky) { ctx.count("loud-after-shared-split"); return; }
        // splitting an edge with the same triangle on both sides cannot connect the new vertex to both opposite corners
        if ((glued || T->t->markedEdges.size() > 0) && std::string(e.what()).find("connectVertices(): must not be adjacent") != std::string::npos) { ctx.count("loud-split-of-glued-edge"); return; }
        if (T->degenerate) { ctx.count("ended-degenerate-insertion"); return; }
        CHECK(false, "throws", "%s threw: %s", ioNames[(size_t)op.kind].c_str(), e.what());
      } catch (...) {
        if (T->degenerate) { ctx.count("ended-degenerate-insertion"); return; } // outside of what floating point determines
        throw;
      }
      if (T->degenerate) { ctx.count("ended-degenerate-insertion"); return; }
      ctx.state(hcomb(T->S.hash(), T->sp ? 1 : 2));
      ctx.ev(T->S.hash());
    }
    if (end) return;
    if (ts.size() == 2) {
      Tri &A = *ts[0], &B = *ts[1];
      if (!(A.S == B.S)) { // decisions within rounding, or different removal strategies
        ctx.count("lockstep-ended");
        ts.pop_back();
        continue;
      }
      bool risky = A.risky || B.risky;
      for (size_t e : A.S.es) CHECK(std::abs(A.len[e] - B.len[e]) < 1e-5 * W.scale, "implementations-differ", "edge %zu: %.10g with signposts, %.10g with integer coordinates", e, A.len[e], B.len[e]);
      if (!risky)
        for (size_t v : A.S.vs) {
          Vector3 a = A.P(A.m().vertex(v)), b = B.P(B.m().vertex(v));
          CHECK(norm(a - b) < 1e-3 * W.scale, "implementations-differ", "vertex %zu is located %.3g apart by signposts and integer coordinates", v, norm(a - b));
        }
      ctx.count("lockstep-compared");
    }
  }
}

Register reg9([] {
  Scenario s;
  s.name = "intrinsic-edits";
  s.property = "C09";
  s.opNames = ioNames;
  s.realComponents = "IntrinsicTriangulation, SignpostIntrinsicTriangulation, IntegerCoordinatesIntrinsicTriangulation, NormalCoordinates, trace_geodesic, ManifoldSurfaceMesh, EdgeLengthGeometry (real code)";
  s.stubComponents = "";
  s.rule = "a run builds a flat or curved triangle mesh with positions or lengths, puts one triangulation (or both kinds in lockstep) on it and applies 4-40 operations; after every one lengths, angles, area, "
           "tangent vectors, locations, marks and callbacks are compared with independent layouts and, on flat inputs, with the plane";
  s.generate = [](u64 seed, int tier, int fm) { return gen(seed, tier, false); };
  s.execute = [](const History& h, Ctx& ctx) { exec(h, ctx, false); };
  return s;
}());
Register reg10([] {
  Scenario s;
  s.name = "intrinsic-correspondence";
  s.property = "C10";
  s.opNames = ioNames;
  s.realComponents = "tracing, equivalent points, CommonSubdivision, NormalCoordinates, AttributeTransfer over both intrinsic triangulations (real code)";
  s.stubComponents = "";
  s.rule = "as for edits, interleaved with traces in both directions, point location, data transfer and construction of the common subdivision, each judged against the surface itself";
  s.generate = [](u64 seed, int tier, int fm) { return gen(seed, tier, true); };
  s.execute = [](const History& h, Ctx& ctx) { exec(h, ctx, true); };
  return s;
}());
} // namespace
