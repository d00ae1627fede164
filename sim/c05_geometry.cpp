// C05: the cache of geometric quantities under every order of require / unrequire / purge / refresh / edits.
// C06: the quantities obey their defining identities, and agree with immediates and between realizations.
#include "meshops.h"
#include "quantities.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include <algorithm>
#include <new>
using namespace sim;

namespace {
typedef IntrinsicGeometryInterface IG;
typedef EmbeddedGeometryInterface EG;
typedef std::vector<double> Dump;

void put(Dump& d, double x) { d.push_back(x); }
void put(Dump& d, size_t x) { d.push_back(x == INVALID_IND ? -1. : (double)x); }
void put(Dump& d, Vector2 v) { d.push_back(v.x); d.push_back(v.y); }
void put(Dump& d, Vector3 v) { d.push_back(v.x); d.push_back(v.y); d.push_back(v.z); }
template <size_t N> void put(Dump& d, const std::array<Vector3, N>& a) { for (auto& v : a) put(d, v); }
void put(Dump& d, std::complex<double> c) { d.push_back(c.real()); d.push_back(c.imag()); }

template <class E, class T> bool present(const MeshData<E, T>& m) { return m.getMesh() != nullptr; }
template <class T> bool present(const Eigen::SparseMatrix<T>& m) { return m.rows() > 0; }
bool present(double) { return true; }
template <class E, class T> void dump(Dump& d, SurfaceMesh& mesh, const MeshData<E, T>& m) {
  if (!m.getMesh()) { d.push_back(-12345.5); return; }
  for (E e : iterateElements<E>(&mesh)) put(d, m[e]);
}
template <class T> void dump(Dump& d, SurfaceMesh&, const Eigen::SparseMatrix<T>& m) {
  d.push_back((double)m.rows());
  d.push_back((double)m.cols());
  std::map<std::pair<int, int>, T> e;
  for (int k = 0; k < m.outerSize(); k++)
    for (typename Eigen::SparseMatrix<T>::InnerIterator it(m, k); it; ++it) e[{(int)it.row(), (int)it.col()}] += it.value();
  for (auto& x : e) {
    d.push_back(x.first.first);
    d.push_back(x.first.second);
    put(d, x.second);
  }
}
void dump(Dump& d, SurfaceMesh&, double x) { d.push_back(x); }

enum Dom { TRI = 1, POLY = 2, GENERAL = 4, LENGTHS = 8 }; // where the quantity is defined
struct Q {
  const char* name;
  int dom;
  bool scalar;
  std::function<void(IG&)> req, unreq;
  std::function<void(IG&, Dump&)> dumpf;
  std::function<bool(IG&)> have;
};
std::vector<Q> makeQs() {
  std::vector<Q> v;
#define QI(Name, member, dom)                                                                                          \
  v.push_back(Q{#member, dom, std::is_same<decltype(((IG*)0)->member), double>::value, [](IG& g) { g.require##Name(); }, [](IG& g) { g.unrequire##Name(); }, \
                [](IG& g, Dump& d) { dump(d, g.mesh, g.member); }, [](IG& g) { return present(g.member); }});
#define QE(Name, member, dom)                                                                                          \
  v.push_back(Q{#member, dom, false, [](IG& g) { dynamic_cast<EG&>(g).require##Name(); }, [](IG& g) { dynamic_cast<EG&>(g).unrequire##Name(); },      \
                [](IG& g, Dump& d) { dump(d, g.mesh, dynamic_cast<EG&>(g).member); },                                    \
                [](IG& g) { return present(dynamic_cast<EG&>(g).member); }});
  const int T = TRI, TL = TRI | LENGTHS, TGL = TRI | GENERAL | LENGTHS, TPGL = TRI | POLY | GENERAL | LENGTHS, TPG = TRI | POLY | GENERAL, TP = TRI | POLY;
  QI(VertexIndices, vertexIndices, TPGL)
  QI(InteriorVertexIndices, interiorVertexIndices, TP | LENGTHS)
  QI(EdgeIndices, edgeIndices, TPGL)
  QI(HalfedgeIndices, halfedgeIndices, TPGL)
  QI(CornerIndices, cornerIndices, TPGL)
  QI(FaceIndices, faceIndices, TPGL)
  QI(BoundaryLoopIndices, boundaryLoopIndices, TP | LENGTHS)
  QI(EdgeLengths, edgeLengths, TPGL)
  QI(FaceAreas, faceAreas, TGL | POLY)
  QI(VertexDualAreas, vertexDualAreas, TGL)
  QI(CornerAngles, cornerAngles, TGL)
  QI(VertexAngleSums, vertexAngleSums, TGL)
  QI(CornerScaledAngles, cornerScaledAngles, TGL)
  QI(VertexGaussianCurvatures, vertexGaussianCurvatures, TGL)
  QI(FaceGaussianCurvatures, faceGaussianCurvatures, TGL)
  QI(HalfedgeCotanWeights, halfedgeCotanWeights, TGL)
  QI(EdgeCotanWeights, edgeCotanWeights, TGL)
  QI(ShapeLengthScale, shapeLengthScale, TGL)
  QI(MeshLengthScale, meshLengthScale, TGL | POLY)
  QI(HalfedgeVectorsInFace, halfedgeVectorsInFace, TL)
  QI(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedge, TL)
  QI(HalfedgeVectorsInVertex, halfedgeVectorsInVertex, TL)
  QI(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedge, TL)
  QI(CotanLaplacian, cotanLaplacian, TGL)
  QI(VertexLumpedMassMatrix, vertexLumpedMassMatrix, TGL)
  QI(VertexGalerkinMassMatrix, vertexGalerkinMassMatrix, TGL)
  QI(VertexConnectionLaplacian, vertexConnectionLaplacian, TL)
  QI(FaceGalerkinMassMatrix, faceGalerkinMassMatrix, TGL)
  QI(FaceConnectionLaplacian, faceConnectionLaplacian, TL)
  QI(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacian, TGL)
  QI(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrix, TGL)
  QI(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacian, TL)
  v.push_back(Q{"DECOperators", TL, false, [](IG& g) { g.requireDECOperators(); }, [](IG& g) { g.unrequireDECOperators(); },
                [](IG& g, Dump& d) {
                  for (auto* m : {&g.hodge0, &g.hodge0Inverse, &g.hodge1, &g.hodge1Inverse, &g.hodge2, &g.hodge2Inverse, &g.d0, &g.d1}) dump(d, g.mesh, *m);
                },
                [](IG& g) {
                  for (auto* m : {&g.hodge0, &g.hodge0Inverse, &g.hodge1, &g.hodge1Inverse, &g.hodge2, &g.hodge2Inverse, &g.d0, &g.d1})
                    if (present(*m)) return true;
                  return false;
                }});
  QE(EdgeDihedralAngles, edgeDihedralAngles, TRI | GENERAL)
  QE(VertexMeanCurvatures, vertexMeanCurvatures, TRI | GENERAL)
  QE(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvatures, TRI | GENERAL)
  QE(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvatures, TRI | GENERAL)
  QE(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirections, T)
  QE(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirections, T)
  QE(VertexPositions, vertexPositions, TPG)
  QE(FaceNormals, faceNormals, TPG)
  QE(VertexNormals, vertexNormals, TPG)
  QE(FaceTangentBasis, faceTangentBasis, T | GENERAL)
  QE(VertexTangentBasis, vertexTangentBasis, T | GENERAL)
  QE(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormals, TRI | GENERAL)
  QE(SimplePolygonLaplacian, simplePolygonLaplacian, TPG)
  QE(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrix, TPG)
  QE(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrix, TPG)
  QE(PolygonLaplacian, polygonLaplacian, TPG)
  QE(PolygonGradientMatrix, polygonGradientMatrix, TPG)
  QE(PolygonDivergenceMatrix, polygonDivergenceMatrix, TPG)
  QE(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrix, TPG)
  QE(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacian, T)
  v.push_back(Q{"polygonDECOperators", TP, false, [](IG& g) { dynamic_cast<EG&>(g).requirePolygonDECOperators(); },
                [](IG& g) { dynamic_cast<EG&>(g).unrequirePolygonDECOperators(); },
                [](IG& g_, Dump& d) {
                  EG& g = dynamic_cast<EG&>(g_);
                  for (auto* m : {&g.polygonHodge0, &g.polygonHodge0Inverse, &g.polygonHodge1, &g.polygonHodge2, &g.polygonHodge2Inverse, &g.polygonD0, &g.polygonD1})
                    dump(d, g.mesh, *m);
                },
                [](IG& g_) {
                  EG& g = dynamic_cast<EG&>(g_);
                  for (auto* m : {&g.polygonHodge0, &g.polygonHodge0Inverse, &g.polygonHodge1, &g.polygonHodge2, &g.polygonHodge2Inverse, &g.polygonD0, &g.polygonD1})
                    if (present(*m)) return true;
                  return false;
                }});
  return v;
}
const std::vector<Q>& qs() {
  static std::vector<Q> v = makeQs();
  return v;
}

enum GOp { GO_require, GO_unrequire, GO_purge, GO_refresh, GO_moveOne, GO_moveAll, GO_mutate, GO_overUnrequire, GO_copy, GO_immediates, GO_newGeometry, GO_COUNT };
const std::vector<std::string> gOpNames = {"require", "unrequire", "purge", "refresh", "moveVertex", "moveAll", "mutateMesh", "unrequireTooOften",
                                           "copyGeometry", "immediates", "secondGeometry"};
enum MeshClass { MC_TRI, MC_POLY, MC_GENERAL, MC_LENGTHS };

struct GWorld {
  int mc = 0;
  std::unique_ptr<SurfaceMesh> mesh;
  ManifoldSurfaceMesh* man = nullptr;
  std::unique_ptr<VertexPositionGeometry> vpg; // input data of record (positions) when class != LENGTHS: geometry under test
  std::unique_ptr<EdgeLengthGeometry> elg;
  std::unique_ptr<VertexData<Vector3>> pos; // reference copy of the inputs, follows the mesh
  Snap S;
  IG& g() { return mc == MC_LENGTHS ? (IG&)*elg : (IG&)*vpg; }
  Vector3 jitter(u64 a) {
    Rng r(a);
    return Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
  }
  double lenOf(Edge e) { return norm((*pos)[e.firstVertex()] - (*pos)[e.secondVertex()]) + (e.firstVertex() == e.secondVertex() ? .7 : 0.); }
  void pushInputs() { // reference -> geometry
    if (mc == MC_LENGTHS)
      for (Edge e : mesh->edges()) elg->inputEdgeLengths[e] = lenOf(e);
    else
      for (Vertex v : mesh->vertices()) vpg->inputVertexPositions[v] = (*pos)[v];
  }
  std::unique_ptr<IG> fresh() {
    if (mc == MC_LENGTHS) {
      EdgeData<double> L(*mesh);
      for (Edge e : mesh->edges()) L[e] = lenOf(e);
      return std::unique_ptr<IG>(new EdgeLengthGeometry(*mesh, L));
    }
    return std::unique_ptr<IG>(new VertexPositionGeometry(*mesh, *pos));
  }
  int domBit() const { return mc == MC_TRI ? TRI : mc == MC_POLY ? POLY : mc == MC_GENERAL ? GENERAL : LENGTHS; }
};

bool same(double a, double b, double scale) {
  bool fa = std::isfinite(a), fb = std::isfinite(b);
  if (!fa || !fb) return fa == fb;
  return std::abs(a - b) <= 1e-8 * scale;
}
void compareDump(const Dump& a, const Dump& b, const char* clause, const char* what, const char* name) {
  CHECK(a.size() == b.size(), clause, "%s %s: %zu values, expected %zu", what, name, a.size(), b.size());
  double scale = 1e-12;
  for (double x : b)
    if (std::isfinite(x)) scale = std::max(scale, std::abs(x));
  for (size_t i = 0; i < a.size(); i++)
    CHECK(same(a[i], b[i], scale), clause, "%s %s: value %zu is %.17g, a geometry freshly built from the same data has %.17g", what, name, i, a[i], b[i]);
}

GWorld buildWorld(const History& h) {
  GWorld W;
  W.mc = (int)h.get("class");
  Soup s = W.mc == MC_GENERAL ? makeGeneralSoup((int)h.get("kind"), (int)h.get("size"), h.seed)
                              : makeManifoldSoup((int)h.get("kind"), (int)h.get("size"), h.seed, W.mc != MC_POLY);
  if (W.mc == MC_GENERAL) triangulateSoup(s);
  if (W.mc == MC_GENERAL) W.mesh.reset(new SurfaceMesh(s.polys));
  else {
    W.man = new ManifoldSurfaceMesh(s.polys);
    W.mesh.reset(W.man);
  }
  W.pos.reset(new VertexData<Vector3>(*W.mesh, Vector3::zero()));
  double amp = h.get("jitter") / 100.;
  for (Vertex v : W.mesh->vertices()) (*W.pos)[v] = s.pos[v.getIndex()] + amp * W.jitter(hcomb(h.seed, v.getIndex()));
  // construct the geometry under test in one of the documented ways
  if (W.mc == MC_LENGTHS) {
    if (h.get("ctor") % 2) W.elg.reset(new EdgeLengthGeometry(*W.mesh));
    else {
      EdgeData<double> L(*W.mesh);
      for (Edge e : W.mesh->edges()) L[e] = W.lenOf(e);
      W.elg.reset(new EdgeLengthGeometry(*W.mesh, L));
    }
    if (h.get("ctor") % 2) W.pushInputs();
  } else {
    switch (h.get("ctor") % 3) {
    case 0: W.vpg.reset(new VertexPositionGeometry(*W.mesh)); W.pushInputs(); break;
    case 1: W.vpg.reset(new VertexPositionGeometry(*W.mesh, *W.pos)); break;
    default: {
      Eigen::MatrixXd M(W.mesh->nVertices(), 3);
      size_t i = 0;
      for (Vertex v : W.mesh->vertices()) {
        for (int k = 0; k < 3; k++) M(i, k) = (*W.pos)[v][k];
        i++;
      }
      W.vpg.reset(new VertexPositionGeometry(*W.mesh, M));
    }
    }
  }
  W.S = snapshotChecked(*W.mesh);
  return W;
}

// mutate the mesh (keeping it inside the geometry's domain); new vertices get positions
bool mutateWorld(GWorld& W, const Op& op, Ctx& ctx) {
  if (W.mc == MC_GENERAL) return false;
  std::set<size_t> before;
  for (Vertex v : W.mesh->vertices()) before.insert(v.getIndex());
  bool changed = false;
  size_t nE = W.S.es.size();
  if (nE == 0) return false;
  Edge e(W.mesh.get(), W.S.es[arg(op, 1) % nE]);
  if (W.mc == MC_POLY) {
    static const std::vector<int> kinds = {MO_insertVertexAlongEdge, MO_insertVertex, MO_connectVertices, MO_removeEdge, MO_compress, MO_splitEdge};
    Op o = op;
    o.kind = kinds[arg(op, 0) % kinds.size()];
    changed = applyMeshOp(*W.man, o, ctx, false).applied;
  } else {
    switch (arg(op, 0) % 6) {
    case 0: changed = W.man->flip(e); break;
    case 1: W.man->splitEdgeTriangular(e); changed = true; break;
    case 2: {
      Vertex v = W.man->insertVertex(Face(W.mesh.get(), W.S.fs[arg(op, 1) % W.S.fs.size()]));
      (void)v;
      changed = true;
      break;
    }
    case 3: {
      // only collapses whose closed star is simplicial: keeps the mesh triangular and nondegenerate
      changed = false;
      Vertex a = e.firstVertex(), b = e.secondVertex();
      if (a == b || e.isBoundary() || a.isBoundary() || b.isBoundary()) break;
      std::set<size_t> na, nb;
      size_t da = 0, db = 0;
      for (Vertex x : a.adjacentVertices()) { na.insert(x.getIndex()); da++; }
      for (Vertex x : b.adjacentVertices()) { nb.insert(x.getIndex()); db++; }
      if (na.size() != da || nb.size() != db || da < 4 || db < 4 || na.count(a.getIndex()) || nb.count(b.getIndex())) break;
      size_t common = 0;
      for (size_t x : na) common += nb.count(x);
      if (common != 2) break;
      changed = W.man->collapseEdgeTriangular(e) != Vertex();
      break;
    }
    case 4: W.man->compress(); changed = true; break;
    case 5: changed = W.man->flip(e); if (changed) changed = W.man->flip(e); changed = true; break;
    }
  }
  W.S = snapshotChecked(*W.mesh);
  // positions of new vertices: a perturbed average of their neighbours
  for (Vertex v : W.mesh->vertices()) {
    Vector3& p = (*W.pos)[v];
    if (p == Vector3::zero() || !(before.count(v.getIndex()) || arg(op, 0) % 6 == 4)) {
      Vector3 c = Vector3::zero();
      double n = 0;
      for (Vertex u : v.adjacentVertices()) { c += (*W.pos)[u]; n += 1; }
      if (p == Vector3::zero()) p = c / std::max(n, 1.) + .1 * W.jitter(hcomb(arg(op, 2), v.getIndex()));
    }
  }
  if (changed) W.pushInputs();
  return changed;
}

void checkImmediates(GWorld& W, Ctx& ctx, const char* clause) {
  // immediate computations against a freshly computed cache
  auto f = W.fresh();
  auto eq = [&](double a, double b, const char* what, size_t i) {
    double s = std::max({1., std::abs(a), std::abs(b)});
    bool ok = (!std::isfinite(a) && !std::isfinite(b)) || std::abs(a - b) <= 1e-7 * s;
    CHECK(ok, clause, "%s of element %zu: immediate %.17g, cached %.17g", what, i, a, b);
  };
  if (W.mc == MC_LENGTHS) {
    EdgeLengthGeometry& g = *W.elg;
    IG& q = *f;
    q.requireFaceAreas(); q.requireVertexDualAreas(); q.requireCornerAngles(); q.requireHalfedgeCotanWeights(); q.requireEdgeCotanWeights(); q.requireVertexGaussianCurvatures();
    for (Face x : W.mesh->faces()) {
      eq(g.faceArea(x), q.faceAreas[x], "faceArea", x.getIndex());
      double prod = 1;
      for (Edge e : x.adjacentEdges()) prod *= g.inputEdgeLengths[e];
      eq(g.faceCircumradius(x) * 4 * q.faceAreas[x], prod, "faceCircumradius", x.getIndex());
    }
    for (Vertex x : W.mesh->vertices()) {
      eq(g.vertexDualArea(x), q.vertexDualAreas[x], "vertexDualArea", x.getIndex());
      eq(g.vertexGaussianCurvature(x), q.vertexGaussianCurvatures[x], "vertexGaussianCurvature", x.getIndex());
    }
    for (Corner x : W.mesh->corners()) eq(g.cornerAngle(x), q.cornerAngles[x], "cornerAngle", x.getIndex());
    for (Halfedge x : W.mesh->halfedges()) eq(g.halfedgeCotanWeight(x), q.halfedgeCotanWeights[x], "halfedgeCotanWeight", x.getIndex());
    for (Edge x : W.mesh->edges()) eq(g.edgeCotanWeight(x), q.edgeCotanWeights[x], "edgeCotanWeight", x.getIndex());
    return;
  }
  VertexPositionGeometry& g = *W.vpg;
  EG& q = dynamic_cast<EG&>(*f);
  q.requireEdgeLengths(); q.requireFaceNormals();
  for (Edge x : W.mesh->edges()) eq(g.edgeLength(x), q.edgeLengths[x], "edgeLength", x.getIndex());
  for (Face x : W.mesh->faces()) {
    Vector3 a = g.faceNormal(x), b = q.faceNormals[x];
    for (int k = 0; k < 3; k++) eq(a[k], b[k], "faceNormal", x.getIndex());
  }
  for (Halfedge x : W.mesh->halfedges())
    CHECK((g.halfedgeVector(x) == (*W.pos)[x.tipVertex()] - (*W.pos)[x.tailVertex()]), clause, "halfedgeVector");
  if (W.mc == MC_POLY) return;
  q.requireFaceAreas(); q.requireVertexDualAreas(); q.requireCornerAngles(); q.requireHalfedgeCotanWeights(); q.requireEdgeCotanWeights(); q.requireVertexGaussianCurvatures();
  q.requireEdgeDihedralAngles(); q.requireVertexMeanCurvatures(); q.requireVertexMinPrincipalCurvatures(); q.requireVertexMaxPrincipalCurvatures(); q.requireVertexDualMeanCurvatureNormals();
  for (Face x : W.mesh->faces()) eq(g.faceArea(x), q.faceAreas[x], "faceArea", x.getIndex());
  for (Vertex x : W.mesh->vertices()) {
    eq(g.vertexDualArea(x), q.vertexDualAreas[x], "vertexDualArea", x.getIndex());
    eq(g.vertexGaussianCurvature(x), q.vertexGaussianCurvatures[x], "vertexGaussianCurvature", x.getIndex());
    eq(g.vertexMeanCurvature(x), q.vertexMeanCurvatures[x], "vertexMeanCurvature", x.getIndex());
    double k1 = q.vertexMinPrincipalCurvatures[x], k2 = q.vertexMaxPrincipalCurvatures[x];
    if (std::isfinite(k1) && std::isfinite(k2)) {
      // sqrt(H^2-K) amplifies rounding near umbilics: compare the symmetric functions
      double s = std::max({1., std::abs(k1), std::abs(k2)});
      double i1 = g.vertexMinPrincipalCurvature(x), i2 = g.vertexMaxPrincipalCurvature(x);
      CHECK(std::abs(i1 + i2 - k1 - k2) < 1e-6 * s && std::abs((i2 - i1) * (i2 - i1) - (k2 - k1) * (k2 - k1)) < 1e-5 * s * s && i1 <= i2 + 1e-9 * s && k1 <= k2 + 1e-9 * s,
            clause, "principal curvatures of vertex %zu: immediate %.12g %.12g, cached %.12g %.12g", x.getIndex(), i1, i2, k1, k2);
    }
    Vector3 a = g.vertexDualMeanCurvatureNormal(x), b = q.vertexDualMeanCurvatureNormals[x];
    if (W.mc == MC_TRI)
      for (int k = 0; k < 3; k++) eq(a[k], b[k], "vertexDualMeanCurvatureNormal", x.getIndex());
  }
  for (Corner x : W.mesh->corners()) eq(g.cornerAngle(x), q.cornerAngles[x], "cornerAngle", x.getIndex());
  for (Halfedge x : W.mesh->halfedges()) eq(g.halfedgeCotanWeight(x), q.halfedgeCotanWeights[x], "halfedgeCotanWeight", x.getIndex());
  for (Edge x : W.mesh->edges()) {
    eq(g.edgeCotanWeight(x), q.edgeCotanWeights[x], "edgeCotanWeight", x.getIndex());
    double a = g.edgeDihedralAngle(x), b = q.edgeDihedralAngles[x];
    if (std::abs(std::abs(a) - PI) > 1e-6) eq(a, b, "edgeDihedralAngle", x.getIndex());
  }
  ctx.count("immediates_checked");
}

bool inDomain(const GWorld& W) {
  for (size_t f : W.S.fs) {
    size_t d = W.S.degree(W.S.fHe[f]);
    if (d < 3) return false;
    if (W.mc != MC_POLY && d != 3) return false;
  }
  for (size_t v : W.S.vs)
    if (W.S.vHe[v] == NONE) return false;
  return true;
}

Register reg([] {
  Scenario s;
  s.name = "quantity-cache";
  s.property = "C05";
  s.opNames = gOpNames;
  s.realComponents = "VertexPositionGeometry, EdgeLengthGeometry and all four geometry interfaces with their quantity cache, on manifold, polygonal and general meshes being edited (real code)";
  s.stubComponents = "";
  s.rule = "a run owns one geometry; 10-60 scheduled require/unrequire/purge/refresh/move/mutate operations over all 53 quantities, allocation failures inside "
           "computations in fault mode; after every operation required quantities are compared with a geometry freshly built from the same inputs";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    static const std::vector<double> cls = {5, 2, 2, 2};
    h.cfg["class"] = (i64)r.weighted(cls);
    h.cfg["kind"] = (i64)r.below((u64)(h.cfg["class"] == MC_GENERAL ? nGeneralKinds : nManifoldKinds));
    h.cfg["size"] = r.range(1, tier ? 3 : 2);
    h.cfg["ctor"] = (i64)r.below(6);
    h.cfg["jitter"] = (i64)r.below(3) * 8 + 2;
    std::vector<double> w = {8, 5, 3, 2, 3, 1, 3, .6, .6, .5, .6};
    for (auto& x : w) x *= .2 + 1.5 * r.unit();
    size_t n = (size_t)r.range(8, tier ? 60 : 35);
    int focus = r.chance(.5) ? (int)r.range(1, 6) : 0; // a run may concentrate on few quantities
    std::vector<u64> fq;
    for (int i = 0; i < focus; i++) fq.push_back(r.next() >> 8);
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = (int)r.weighted(w);
      for (int k = 0; k < 4; k++) o.a.push_back(r.next() >> 8);
      if (focus && o.kind <= GO_unrequire) o.a[0] = r.pick(fq);
      if (fm && (o.kind == GO_require || o.kind == GO_refresh) && r.chance(.35)) {
        o.fault = 1;
        o.fa = r.below(r.chance(.5) ? 12 : 150);
      }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    GWorld W = buildWorld(h);
    if (!inDomain(W)) throw Discard{"degenerate input"};
    std::vector<const Q*> dom;
    for (auto& q : qs())
      if (q.dom & W.domBit()) dom.push_back(&q);
    std::vector<i64> cnt(dom.size(), 0);      // requires the user holds for sure
    std::vector<char> uncertain(dom.size(), 0); // a failed require may or may not have counted
    size_t inputQ = NONE;
    for (size_t i = 0; i < dom.size(); i++)
      if (std::string(dom[i]->name) == (W.mc == MC_LENGTHS ? "edgeLengths" : "vertexPositions")) inputQ = i;
    bool stale = false; // after a failed refresh, until the next refresh that succeeds
    auto freshDump = [&](size_t i) {
      auto f = W.fresh();
      dom[i]->req(*f);
      Dump d;
      dom[i]->dumpf(*f, d);
      return d;
    };
    auto checkQ = [&](size_t i, const char* clause) {
      if (stale) return;
      Dump got;
      dom[i]->dumpf(W.g(), got);
      ctx.count("quantities_compared");
      compareDump(got, freshDump(i), clause, "cached", dom[i]->name);
    };
    auto checkAll = [&](const char* clause) {
      for (size_t i = 0; i < dom.size(); i++)
        if (cnt[i] > 0) checkQ(i, clause);
    };
    auto checkInputs = [&](const char* clause) {
      if (W.mc == MC_LENGTHS) {
        CHECK(W.elg->inputEdgeLengths.getMesh() == W.mesh.get(), clause, "the input edge lengths were dropped");
        for (Edge e : W.mesh->edges()) CHECK(W.elg->inputEdgeLengths[e] == W.lenOf(e), clause, "input edge length %zu changed", e.getIndex());
      } else {
        CHECK(W.vpg->inputVertexPositions.getMesh() == W.mesh.get(), clause, "the input positions were dropped");
        for (Vertex v : W.mesh->vertices()) CHECK(W.vpg->inputVertexPositions[v] == (*W.pos)[v], clause, "input position %zu changed", v.getIndex());
      }
    };
    auto refresh = [&] {
      W.g().refreshQuantities();
      stale = false;
    };
    for (auto& op : h.ops) {
      if (W.S.nF > 120) break;
      ctx.steps++;
      ctx.ev((u64)op.kind);
      size_t i = arg(op, 0) % dom.size();
      switch (op.kind) {
      case GO_require: {
        bool failed = false;
        if (op.fault) seam::allocArm((i64)op.fa);
        try {
          dom[i]->req(W.g());
        } catch (const std::bad_alloc&) {
          failed = true;
        }
        bool hit = op.fault && seam::allocDisarm();
        if (hit) ctx.fault("allocation_failure_in_compute");
        CHECK(!failed || hit, "no-spurious-failure", "%s: bad_alloc without a failed allocation", dom[i]->name);
        if (failed) {
          uncertain[i] = 1;
          dom[i]->req(W.g()); // the caller tries again
        }
        cnt[i]++;
        checkQ(i, "require-computes");
        break;
      }
      case GO_unrequire:
        if (cnt[i] > 0) {
          dom[i]->unreq(W.g());
          cnt[i]--;
          ctx.count("unrequires");
        }
        break;
      case GO_purge:
        W.g().purgeQuantities();
        for (size_t j = 0; j < dom.size(); j++) {
          if (j == inputQ || dom[j]->scalar) continue;
          if (cnt[j] == 0 && !uncertain[j])
            CHECK(!dom[j]->have(W.g()), "purge-drops-unrequired", "%s is not required, but still stored after purgeQuantities()", dom[j]->name);
        }
        checkAll("purge-keeps-required");
        checkInputs("purge-keeps-inputs");
        break;
      case GO_refresh: {
        bool failed = false;
        if (op.fault) seam::allocArm((i64)op.fa);
        try {
          refresh();
        } catch (const std::bad_alloc&) {
          failed = true;
        }
        bool hit = op.fault && seam::allocDisarm();
        if (hit) ctx.fault("allocation_failure_in_refresh");
        CHECK(!failed || hit, "no-spurious-failure", "refreshQuantities: bad_alloc without a failed allocation");
        if (failed) refresh();
        checkAll("refresh");
        break;
      }
      case GO_moveOne: {
        if (W.S.vs.empty()) break;
        Vertex v(W.mesh.get(), W.S.vs[arg(op, 0) % W.S.vs.size()]);
        (*W.pos)[v] += .2 * W.jitter(arg(op, 1));
        W.pushInputs();
        refresh();
        checkAll("refresh");
        break;
      }
      case GO_moveAll:
        for (Vertex v : W.mesh->vertices()) (*W.pos)[v] = 1.25 * (*W.pos)[v] + .05 * W.jitter(hcomb(arg(op, 1), v.getIndex()));
        W.pushInputs();
        refresh();
        checkAll("refresh");
        break;
      case GO_mutate: {
        bool ch = mutateWorld(W, op, ctx);
        if (!inDomain(W)) return;
        if (ch) {
          ctx.count("mesh_mutations");
          refresh();
        }
        checkAll("refresh-after-mutation");
        checkInputs("mutation-keeps-inputs");
        break;
      }
      case GO_overUnrequire: {
        if (cnt[i] > 0 || uncertain[i] || i == inputQ) break;
        bool threw = false;
        try {
          dom[i]->unreq(W.g());
        } catch (const std::logic_error&) {
          threw = true;
        }
        CHECK(threw, "unrequire-too-often", "%s: one unrequire too many was accepted silently", dom[i]->name);
        break;
      }
      case GO_copy: {
        if (!W.mesh->isCompressed()) break;
        std::unique_ptr<IG> c;
        if (W.mc == MC_LENGTHS) c = W.elg->copy();
        else c = W.vpg->copy();
        size_t j = arg(op, 1) % dom.size();
        CHECK(!dom[j]->have(*c) || j == inputQ || dom[j]->scalar, "copy", "a copied geometry already stores %s", dom[j]->name);
        dom[j]->req(*c);
        Dump d;
        dom[j]->dumpf(*c, d);
        compareDump(d, freshDump(j), "copy", "copied geometry's", dom[j]->name);
        // changing the copy's inputs changes nothing here
        if (W.mc == MC_LENGTHS)
          for (Edge e : W.mesh->edges()) dynamic_cast<EdgeLengthGeometry&>(*c).inputEdgeLengths[e] *= 2;
        else
          for (Vertex v : W.mesh->vertices()) dynamic_cast<VertexPositionGeometry&>(*c).inputVertexPositions[v] *= 2;
        c->refreshQuantities();
        c.reset();
        checkInputs("copy-is-deep");
        checkAll("copy-is-deep");
        break;
      }
      case GO_immediates:
        checkImmediates(W, ctx, "immediate");
        break;
      case GO_newGeometry: {
        // a second geometry on the same mesh, used and destroyed, affects nothing
        auto f = W.fresh();
        dom[i]->req(*f);
        dom[arg(op, 1) % dom.size()]->req(*f);
        f->refreshQuantities();
        f->purgeQuantities();
        f.reset();
        checkAll("second-geometry");
        break;
      }
      }
      u64 st = 77;
      for (size_t j = 0; j < dom.size(); j++) st = hcomb(st, (u64)(cnt[j] > 0) + 2 * dom[j]->have(W.g()));
      ctx.state(st);
      ctx.ev(st);
    }
    ctx.nontrivial = true;
    checkAll("final");
    checkInputs("final");
  };
  return s;
}());

// ---------------------------------------------------------------------------------------------------------------- C06
double maxAbs(const Eigen::SparseMatrix<double>& m) { double r = 0; for (int k = 0; k < m.outerSize(); k++) for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) r = std::max(r, std::abs(it.value())); return r; }
double maxAbs(const Eigen::SparseMatrix<std::complex<double>>& m) { double r = 0; for (int k = 0; k < m.outerSize(); k++) for (Eigen::SparseMatrix<std::complex<double>>::InnerIterator it(m, k); it; ++it) r = std::max(r, std::abs(it.value())); return r; }

template <class M> void checkSameMatrix(const M& a, const M& b, double tol, const char* clause, const char* what) {
  CHECK(a.rows() == b.rows() && a.cols() == b.cols(), clause, "%s: sizes differ", what);
  M d = a - b;
  double s = std::max({maxAbs(a), maxAbs(b), 1e-12});
  CHECK(maxAbs(d) <= tol * s, clause, "%s: the two matrices differ by %.3g (largest entry %.3g)", what, maxAbs(d), s);
}
void checkLaplacian(const Eigen::SparseMatrix<double>& L, u64 seed, const char* what, double tol = 1e-8) {
  Eigen::SparseMatrix<double> T = L.transpose();
  checkSameMatrix(L, T, tol, "laplacian-symmetric", what);
  double s = std::max(maxAbs(L), 1e-12);
  Eigen::VectorXd one = Eigen::VectorXd::Ones(L.cols());
  CHECK((L * one).cwiseAbs().maxCoeff() <= tol * s * 20, "laplacian-constants", "%s: constants are not in the kernel (%.3g)", what, (L * one).cwiseAbs().maxCoeff());
  Rng r(seed);
  for (int k = 0; k < 3; k++) {
    Eigen::VectorXd x(L.cols());
    for (int i = 0; i < x.size(); i++) x[i] = r.real(-1, 1);
    double e = x.dot(L * x);
    CHECK(e >= -tol * s * (double)x.size(), "laplacian-semidefinite", "%s: negative energy %.3g", what, e);
  }
}
void checkHermitian(const Eigen::SparseMatrix<std::complex<double>>& L, u64 seed, const char* what) {
  Eigen::SparseMatrix<std::complex<double>> T = L.adjoint();
  checkSameMatrix(L, T, 1e-8, "connection-hermitian", what);
}

void checkIdentities(GWorld& W, u64 seed, Ctx& ctx) {
  SurfaceMesh& mesh = *W.mesh;
  IG& g = W.g();
  bool emb = W.mc != MC_LENGTHS;
  g.requireEdgeLengths();
  // only non-degenerate geometry has meaningful floating-point identities
  double mean = 0;
  for (Edge e : mesh.edges()) mean += g.edgeLengths[e];
  mean /= (double)std::max<size_t>(mesh.nEdges(), 1);
  for (Edge e : mesh.edges())
    if (!(g.edgeLengths[e] > 1e-3 * mean)) { ctx.count("degenerate_geometry_skipped"); return; }
  if (W.mc == MC_POLY) {
    EG& q = dynamic_cast<EG&>(g);
    q.requireFaceAreas(); q.requireFaceNormals(); q.requireSimplePolygonLaplacian(); q.requireSimplePolygonVertexGalerkinMassMatrix(); q.requireSimplePolygonVertexLumpedMassMatrix();
    q.requirePolygonLaplacian(); q.requirePolygonGradientMatrix(); q.requirePolygonDivergenceMatrix(); q.requirePolygonVertexLumpedMassMatrix(); q.requirePolygonDECOperators();
    double minA = 1e300, total = 0;
    for (Face f : mesh.faces()) { minA = std::min(minA, q.faceAreas[f]); total += q.faceAreas[f]; }
    if (minA < 2e-2 * mean * mean) { ctx.count("degenerate_geometry_skipped"); return; }
    ctx.nontrivial = true;
    ctx.count("identity_checks");
    checkLaplacian(q.simplePolygonLaplacian, seed, "simplePolygonLaplacian", 1e-7);
    checkLaplacian(q.polygonLaplacian, seed, "polygonLaplacian", 1e-7);
    Eigen::SparseMatrix<double> L2 = q.polygonD0.transpose() * q.polygonHodge1 * q.polygonD0;
    checkSameMatrix(L2, q.polygonLaplacian, 1e-7, "dec-laplacian", "polygonD0^T polygonHodge1 polygonD0 vs polygonLaplacian");
    Eigen::SparseMatrix<double> DD = q.polygonD1 * q.polygonD0;
    CHECK(maxAbs(DD) == 0, "d1-d0-zero", "polygonD1 * polygonD0 is not zero");
    Eigen::VectorXd one = Eigen::VectorXd::Ones(mesh.nVertices());
    double m1 = one.dot(q.polygonVertexLumpedMassMatrix * one), m2 = one.dot(q.polygonHodge0 * one);
    CHECK(std::abs(m1 - total) < 1e-8 * total && std::abs(m2 - total) < 1e-8 * total, "mass-is-area", "polygon mass %.12g, DEC mass %.12g, area %.12g", m1, m2, total);
    double s1 = one.dot(q.simplePolygonVertexGalerkinMassMatrix * one), s2 = one.dot(q.simplePolygonVertexLumpedMassMatrix * one);
    CHECK(std::abs(s1 - s2) < 1e-8 * s1, "mass-lumping", "Galerkin %.12g, lumped %.12g", s1, s2);
    CHECK(s1 >= total * (1 - 1e-6), "mass-is-area", "virtual triangles have area %.12g, less than the vector area %.12g", s1, total);
    Eigen::VectorXd rs = q.simplePolygonVertexGalerkinMassMatrix * one, dg = q.simplePolygonVertexLumpedMassMatrix * one;
    CHECK((rs - dg).cwiseAbs().maxCoeff() < 1e-8 * s1, "mass-lumping", "lumped mass is not the row sum");
    // gradient of the coordinate functions: on flat faces grad(x_k) = e_k - n n_k
    Eigen::MatrixXd P(mesh.nVertices(), 3);
    size_t i = 0;
    for (Vertex v : mesh.vertices()) { for (int k = 0; k < 3; k++) P(i, k) = (*W.pos)[v][k]; i++; }
    Eigen::MatrixXd G = q.polygonGradientMatrix * P;
    size_t fi = 0;
    for (Face f : mesh.faces()) {
      Vector3 n = q.faceNormals[f];
      bool flat = true;
      Vector3 p0 = (*W.pos)[f.halfedge().vertex()];
      for (Vertex v : f.adjacentVertices()) if (std::abs(dot((*W.pos)[v] - p0, n)) > 1e-9 * mean) flat = false;
      if (flat)
        for (int a = 0; a < 3; a++)
          for (int b = 0; b < 3; b++) {
            double want = (a == b ? 1. : 0.) - n[a] * n[b];
            CHECK(std::abs(G(3 * fi + a, b) - want) < 1e-6, "gradient-linear", "polygon gradient of a linear function is %.10g, expected %.10g (face %zu)", G(3 * fi + a, b), want, fi);
          }
      fi++;
    }
    // divergence is the area-weighted transpose of the gradient
    Eigen::SparseMatrix<double> GT = q.polygonGradientMatrix.transpose();
    for (int k = 0; k < GT.outerSize(); k++) (void)k;
    Eigen::VectorXd A(3 * mesh.nFaces());
    fi = 0;
    for (Face f : mesh.faces()) { for (int k = 0; k < 3; k++) A[3 * fi + k] = q.faceAreas[f]; fi++; }
    Eigen::SparseMatrix<double> DM = GT * A.asDiagonal();
    checkSameMatrix(DM, q.polygonDivergenceMatrix, 1e-9, "divergence-adjoint", "polygonDivergenceMatrix vs gradient^T area");
    return;
  }
  // triangles
  g.requireCornerAngles(); g.requireFaceAreas();
  for (Corner c : mesh.corners())
    if (!(g.cornerAngles[c] > 3e-2)) { ctx.count("degenerate_geometry_skipped"); return; }
  ctx.nontrivial = true;
  ctx.count("identity_checks");
  g.requireVertexDualAreas(); g.requireVertexAngleSums(); g.requireCornerScaledAngles(); g.requireVertexGaussianCurvatures(); g.requireFaceGaussianCurvatures();
  g.requireHalfedgeCotanWeights(); g.requireEdgeCotanWeights(); g.requireShapeLengthScale(); g.requireMeshLengthScale(); g.requireCotanLaplacian();
  g.requireVertexLumpedMassMatrix(); g.requireVertexGalerkinMassMatrix(); g.requireFaceGalerkinMassMatrix(); g.requireCrouzeixRaviartLaplacian(); g.requireCrouzeixRaviartMassMatrix();
  double total = 0;
  for (Face f : mesh.faces()) {
    total += g.faceAreas[f];
    double a[3], l[3], sum = 0;
    int k = 0;
    for (Halfedge he : f.adjacentHalfedges()) { a[k] = g.cornerAngles[he.corner()]; l[k] = g.edgeLengths[he.edge()]; sum += a[k++]; }
    CHECK(std::abs(sum - PI) < 1e-6, "angle-sum", "angles of face %zu sum to %.12g", f.getIndex(), sum);
    // area from two sides and the angle between them: corner k sits between sides k and k-1
    for (int j = 0; j < 3; j++) {
      double A = .5 * l[j] * l[(j + 2) % 3] * std::sin(a[j]);
      CHECK(std::abs(A - g.faceAreas[f]) < 1e-6 * mean * mean + 1e-6 * A, "area-angle", "face %zu area %.12g, from sides and angle %.12g", f.getIndex(), g.faceAreas[f], A);
    }
    // weight of a halfedge: half the cotangent of the opposite corner
    k = 0;
    for (Halfedge he : f.adjacentHalfedges()) {
      double opp = g.cornerAngles[he.next().next().corner()];
      double want = .5 / std::tan(opp);
      CHECK(std::abs(g.halfedgeCotanWeights[he] - want) < 1e-5 * std::max(1., std::abs(want)), "cotan-weight", "halfedge %zu: %.12g, expected %.12g", he.getIndex(), g.halfedgeCotanWeights[he], want);
      k++;
    }
  }
  double tv = 0, defect = 0, fdef = 0;
  for (Vertex v : mesh.vertices()) {
    tv += g.vertexDualAreas[v];
    defect += g.vertexGaussianCurvatures[v];
    double s = 0;
    for (Corner c : v.adjacentCorners()) s += g.cornerAngles[c];
    CHECK(std::abs(s - g.vertexAngleSums[v]) < 1e-9 * (1 + s), "vertex-angle-sum", "vertex %zu: %.12g vs %.12g", v.getIndex(), g.vertexAngleSums[v], s);
    double sc = 0;
    for (Corner c : v.adjacentCorners()) sc += g.cornerScaledAngles[c];
    double want = v.isBoundary() ? PI : 2 * PI;
    CHECK(std::abs(sc - want) < 1e-8, "scaled-angle-sum", "scaled angles around vertex %zu sum to %.12g", v.getIndex(), sc);
    CHECK(std::abs(g.vertexGaussianCurvatures[v] - (v.isBoundary() ? 0. : 2 * PI - s)) < 1e-8, "gaussian", "vertex %zu curvature %.12g", v.getIndex(), g.vertexGaussianCurvatures[v]);
  }
  for (Face f : mesh.faces()) fdef += g.faceGaussianCurvatures[f];
  CHECK(std::abs(tv - total) < 1e-9 * total, "dual-area", "dual areas sum to %.12g, faces to %.12g", tv, total);
  CHECK(std::abs(g.shapeLengthScale - std::sqrt(total)) < 1e-9 * std::sqrt(total), "length-scale", "shapeLengthScale %.12g", g.shapeLengthScale);
  CHECK(std::abs(g.meshLengthScale - mean) < 1e-9 * mean, "length-scale", "meshLengthScale %.12g", g.meshLengthScale);
  Eigen::VectorXd one = Eigen::VectorXd::Ones(mesh.nVertices());
  checkLaplacian(g.cotanLaplacian, seed, "cotanLaplacian");
  for (Edge e : mesh.edges()) {
    double w = 0;
    for (Halfedge he : e.adjacentInteriorHalfedges()) w += g.halfedgeCotanWeights[he];
    CHECK(std::abs(w - g.edgeCotanWeights[e]) < 1e-6 * std::max(1., std::abs(w)), "cotan-weight", "edge %zu: %.12g vs halves %.12g", e.getIndex(), g.edgeCotanWeights[e], w);
  }
  {
    double a = one.dot(g.vertexLumpedMassMatrix * one), b = one.dot(g.vertexGalerkinMassMatrix * one);
    CHECK(std::abs(a - total) < 1e-8 * total && std::abs(b - total) < 1e-8 * total, "mass-is-area", "lumped %.12g, Galerkin %.12g, area %.12g", a, b, total);
    Eigen::VectorXd d = g.vertexLumpedMassMatrix * one - g.vertexGalerkinMassMatrix * one;
    CHECK(d.cwiseAbs().maxCoeff() < 1e-8 * total, "mass-lumping", "row sums of the Galerkin mass differ from the lumped mass");
    Eigen::SparseMatrix<double> T = g.vertexGalerkinMassMatrix.transpose();
    checkSameMatrix(T, g.vertexGalerkinMassMatrix, 1e-9, "mass-symmetric", "vertexGalerkinMassMatrix");
    Eigen::VectorXd fo = Eigen::VectorXd::Ones(mesh.nFaces()), eo = Eigen::VectorXd::Ones(mesh.nEdges());
    double c = fo.dot(g.faceGalerkinMassMatrix * fo), e = eo.dot(g.crouzeixRaviartMassMatrix * eo);
    CHECK(std::abs(c - total) < 1e-8 * total, "mass-is-area", "faceGalerkin %.12g, area %.12g", c, total);
    if (W.mc != MC_GENERAL) CHECK(std::abs(e - total) < 1e-8 * total, "mass-is-area", "crouzeixRaviart mass %.12g, area %.12g", e, total);
  }
  checkLaplacian(g.crouzeixRaviartLaplacian, seed, "crouzeixRaviartLaplacian");
  size_t E = 0, V = 0, F = mesh.nFaces();
  E = mesh.nEdges();
  V = mesh.nVertices();
  if (W.mc != MC_GENERAL) {
    g.requireHalfedgeVectorsInFace(); g.requireTransportVectorsAcrossHalfedge(); g.requireHalfedgeVectorsInVertex(); g.requireTransportVectorsAlongHalfedge();
    g.requireVertexConnectionLaplacian(); g.requireFaceConnectionLaplacian(); g.requireCrouzeixRaviartConnectionLaplacian(); g.requireDECOperators();
    // Gauss-Bonnet, with the turning of the boundary
    double turn = 0;
    for (Vertex v : mesh.vertices()) if (v.isBoundary()) turn += PI - g.vertexAngleSums[v];
    double chi = (double)V - (double)E + (double)F;
    CHECK(std::abs(defect + turn - 2 * PI * chi) < 1e-6 * (1 + (double)V), "gauss-bonnet", "curvature %.12g + turning %.12g, Euler characteristic %g", defect, turn, chi);
    // vectors in faces
    for (Face f : mesh.faces()) {
      Vector2 sum{0, 0};
      Halfedge h0 = f.halfedge();
      for (Halfedge he : f.adjacentHalfedges()) {
        Vector2 x = g.halfedgeVectorsInFace[he];
        sum += x;
        CHECK(std::abs(norm(x) - g.edgeLengths[he.edge()]) < 1e-6 * mean, "vectors-in-face", "length of halfedge %zu", he.getIndex());
        CHECK(cross(x, g.halfedgeVectorsInFace[he.next()]) > 0, "vectors-in-face", "face %zu is not counter-clockwise", f.getIndex());
      }
      CHECK(norm(sum) < 1e-6 * mean, "vectors-in-face", "face %zu does not close", f.getIndex());
      CHECK(std::abs(g.halfedgeVectorsInFace[h0].y) < 1e-9 * mean && g.halfedgeVectorsInFace[h0].x > 0, "vectors-in-face", "the x axis is not along f.halfedge()");
    }
    for (Halfedge he : mesh.exteriorHalfedges()) CHECK(std::isnan(g.halfedgeVectorsInFace[he].x), "vectors-in-face", "exterior halfedge has a vector");
    for (Edge e : mesh.edges()) {
      Halfedge a = e.halfedge(), b = a.twin();
      Vector2 ra = g.transportVectorsAcrossHalfedge[a], rb = g.transportVectorsAcrossHalfedge[b];
      if (e.isBoundary()) CHECK(std::isnan(ra.x) && std::isnan(rb.x), "transport-across", "boundary edge has a transport");
      else {
        CHECK(norm(ra * rb - Vector2{1, 0}) < 1e-8, "transport-across", "edge %zu: not inverse", e.getIndex());
        CHECK(norm(ra * g.halfedgeVectorsInFace[a] + g.halfedgeVectorsInFace[b]) < 1e-6 * mean, "transport-across", "edge %zu: does not carry the shared edge to itself", e.getIndex());
      }
      Vector2 va = g.transportVectorsAlongHalfedge[a], vb = g.transportVectorsAlongHalfedge[b];
      CHECK(norm(va * vb - Vector2{1, 0}) < 1e-8, "transport-along", "edge %zu: not inverse", e.getIndex());
      CHECK(norm(va * g.halfedgeVectorsInVertex[a] + g.halfedgeVectorsInVertex[b]) < 1e-6 * mean, "transport-along", "edge %zu: does not carry the edge to itself", e.getIndex());
    }
    for (Vertex v : mesh.vertices()) {
      for (Halfedge he : v.outgoingHalfedges()) {
        CHECK(std::abs(norm(g.halfedgeVectorsInVertex[he]) - g.edgeLengths[he.edge()]) < 1e-6 * mean, "vectors-in-vertex", "length of halfedge %zu", he.getIndex());
        if (he.isInterior()) {
          Halfedge nx = he.next().next().twin();
          Vector2 r = unit(g.halfedgeVectorsInVertex[nx]) / unit(g.halfedgeVectorsInVertex[he]);
          Vector2 w = Vector2::fromAngle(g.cornerScaledAngles[he.corner()]);
          CHECK(norm(r - w) < 1e-6, "vectors-in-vertex", "angle at corner of halfedge %zu", he.getIndex());
        }
      }
      Vector2 x = g.halfedgeVectorsInVertex[v.halfedge()];
      CHECK(std::abs(x.y) < 1e-9 * mean && x.x > 0, "vectors-in-vertex", "the x axis of vertex %zu is not along its halfedge", v.getIndex());
    }
    checkHermitian(g.vertexConnectionLaplacian, seed, "vertexConnectionLaplacian");
    checkHermitian(g.faceConnectionLaplacian, seed, "faceConnectionLaplacian");
    checkHermitian(g.crouzeixRaviartConnectionLaplacian, seed, "crouzeixRaviartConnectionLaplacian");
    // energies of connection Laplacians are the edge sums of transported differences
    {
      Rng r(seed ^ 5);
      Vector<std::complex<double>> X(V);
      for (size_t i = 0; i < V; i++) X[i] = std::complex<double>(r.real(-1, 1), r.real(-1, 1));
      VertexData<size_t> vi = mesh.getVertexIndices();
      double e = 0, sc = 1;
      for (Edge ed : mesh.edges()) {
        Halfedge a = ed.halfedge();
        std::complex<double> t(g.transportVectorsAlongHalfedge[a].x, g.transportVectorsAlongHalfedge[a].y);
        double d = std::norm(X[vi[a.tipVertex()]] - t * X[vi[a.tailVertex()]]);
        e += g.edgeCotanWeights[ed] * d;
        sc += std::abs(g.edgeCotanWeights[ed]) * d;
      }
      double en = X.dot(g.vertexConnectionLaplacian * X).real();
      CHECK(std::abs(en - e) < 1e-7 * sc, "connection-energy", "vertexConnectionLaplacian energy %.12g, sum over edges %.12g", en, e);
      Vector<std::complex<double>> Y(F);
      for (size_t i = 0; i < F; i++) Y[i] = std::complex<double>(r.real(-1, 1), r.real(-1, 1));
      FaceData<size_t> fi = mesh.getFaceIndices();
      e = 0;
      for (Edge ed : mesh.edges()) {
        if (ed.isBoundary()) continue;
        Halfedge a = ed.halfedge();
        std::complex<double> t(g.transportVectorsAcrossHalfedge[a].x, g.transportVectorsAcrossHalfedge[a].y);
        e += std::norm(Y[fi[a.twin().face()]] - t * Y[fi[a.face()]]);
      }
      en = Y.dot(g.faceConnectionLaplacian * Y).real();
      CHECK(std::abs(en - e) < 1e-7 * (1 + e), "connection-energy", "faceConnectionLaplacian energy %.12g, sum over edges %.12g", en, e);
    }
    Eigen::SparseMatrix<double> DD = g.d1 * g.d0;
    CHECK(maxAbs(DD) == 0, "d1-d0-zero", "d1 * d0 is not zero");
    Eigen::SparseMatrix<double> L2 = g.d0.transpose() * g.hodge1 * g.d0;
    checkSameMatrix(L2, g.cotanLaplacian, 1e-8, "dec-laplacian", "d0^T hodge1 d0 vs cotanLaplacian");
    Eigen::SparseMatrix<double> I(V, V);
    I.setIdentity();
    Eigen::SparseMatrix<double> HH = g.hodge0 * g.hodge0Inverse;
    checkSameMatrix(HH, I, 1e-9, "hodge-inverse", "hodge0 * hodge0Inverse");
    checkSameMatrix(g.hodge0, g.vertexLumpedMassMatrix, 1e-9, "hodge-mass", "hodge0 vs lumped mass");
    Eigen::SparseMatrix<double> H2 = g.hodge2 * g.faceGalerkinMassMatrix, IF(F, F);
    IF.setIdentity();
    checkSameMatrix(H2, IF, 1e-9, "hodge-mass", "hodge2 * face areas");
    checkSameMatrix(g.hodge2Inverse, g.faceGalerkinMassMatrix, 1e-9, "hodge-mass", "hodge2Inverse vs face areas");
    for (size_t i = 0; i < E; i++) {
      double w = g.hodge1.coeff((int)i, (int)i), iw = g.hodge1Inverse.coeff((int)i, (int)i);
      if (std::abs(w) > 1e-9) CHECK(std::abs(w * iw - 1) < 1e-9, "hodge-inverse", "hodge1 * hodge1Inverse");
    }
    double fsum = 0;
    for (Vertex v : mesh.vertices()) fsum += (v.isBoundary() ? PI : 2 * PI);
    CHECK(std::abs(fdef - (fsum - PI * (double)F)) < 1e-6 * (1 + (double)F), "face-curvature", "face curvatures sum to %.12g", fdef);
  }
  if (!emb) {
    ctx.count("intrinsic_identity_checks");
    return;
  }
  EG& q = dynamic_cast<EG&>(g);
  q.requireFaceNormals(); q.requireVertexNormals(); q.requireEdgeDihedralAngles(); q.requireVertexMeanCurvatures(); q.requireVertexMinPrincipalCurvatures(); q.requireVertexMaxPrincipalCurvatures();
  q.requireFaceTangentBasis(); q.requireVertexTangentBasis(); q.requireVertexDualMeanCurvatureNormals();
  q.requireSimplePolygonLaplacian(); q.requireSimplePolygonVertexGalerkinMassMatrix(); q.requireSimplePolygonVertexLumpedMassMatrix(); q.requirePolygonLaplacian(); q.requirePolygonVertexLumpedMassMatrix();
  // the same shape through edge lengths only
  {
    EdgeLengthGeometry el(mesh, q.edgeLengths);
    for (auto& x : qs()) {
      if (!(x.dom & LENGTHS) || (W.mc == MC_GENERAL && !(x.dom & GENERAL))) continue;
      std::string nm = x.name;
      if (nm == "DECOperators" ) continue; // hodge1Inverse amplifies
      x.req(el);
      x.req(g);
      Dump a, b;
      x.dumpf(g, a);
      x.dumpf(el, b);
      CHECK(a.size() == b.size(), "intrinsic-equals-embedded", "%s: %zu vs %zu values", x.name, a.size(), b.size());
      double sc = 1;
      for (double v : b) if (std::isfinite(v)) sc = std::max(sc, std::abs(v));
      for (size_t i = 0; i < a.size(); i++)
        CHECK((!std::isfinite(a[i]) && !std::isfinite(b[i])) || std::abs(a[i] - b[i]) < 2e-6 * sc, "intrinsic-equals-embedded",
              "%s: value %zu is %.12g from positions, %.12g from edge lengths", x.name, i, a[i], b[i]);
    }
  }
  for (Face f : mesh.faces()) {
    Vector3 n = q.faceNormals[f];
    Vector3 a = (*W.pos)[f.halfedge().vertex()], b = (*W.pos)[f.halfedge().next().vertex()], c = (*W.pos)[f.halfedge().next().next().vertex()];
    Vector3 m = unit(cross(b - a, c - a));
    CHECK(norm(n - m) < 1e-6, "face-normal", "face %zu", f.getIndex());
    Vector3 X = q.faceTangentBasis[f][0], Y = q.faceTangentBasis[f][1];
    CHECK(std::abs(norm(X) - 1) < 1e-8 && std::abs(dot(X, Y)) < 1e-8 && norm(cross(X, Y) - n) < 1e-6, "face-basis", "face %zu basis is not an oriented orthonormal frame", f.getIndex());
    if (W.mc == MC_TRI) CHECK(norm(X - unit(b - a)) < 1e-6, "face-basis", "face %zu: x is not along the first halfedge", f.getIndex());
  }
  for (Vertex v : mesh.vertices()) {
    Vector3 s = Vector3::zero();
    for (Corner c : v.adjacentCorners()) s += g.cornerAngles[c] * q.faceNormals[c.face()];
    if (norm(s) < 1e-3) continue;
    CHECK(norm(q.vertexNormals[v] - unit(s)) < 1e-6, "vertex-normal", "vertex %zu", v.getIndex());
    Vector3 X = q.vertexTangentBasis[v][0], Y = q.vertexTangentBasis[v][1];
    // the basis is the average of the outgoing edges rotated back: where that average vanishes it is only rounding
    double sumIn = 0;
    Vector3 bas = Vector3::zero();
    if (W.mc == MC_TRI) {
      Vector3 N = q.vertexNormals[v];
      for (Halfedge he : v.outgoingHalfedges()) {
        Vector3 e = ((*W.pos)[he.tipVertex()] - (*W.pos)[v]).removeComponent(N);
        sumIn += norm(e);
        bas += e.rotateAround(N, -q.halfedgeVectorsInVertex[he].arg());
      }
    }
    if (W.mc == MC_TRI && std::isfinite(X.x) && norm(bas) > 1e-3 * sumIn)
      CHECK(std::abs(norm(X) - 1) < 1e-8 && std::abs(dot(X, Y)) < 1e-8 && std::abs(norm(Y) - 1) < 1e-8 && dot(cross(X, Y), q.vertexNormals[v]) > .999, "vertex-basis", "vertex %zu basis is not an oriented frame", v.getIndex());
    double A = g.vertexDualAreas[v], k1 = q.vertexMinPrincipalCurvatures[v], k2 = q.vertexMaxPrincipalCurvatures[v];
    double H = q.vertexMeanCurvatures[v] / A, K = g.vertexGaussianCurvatures[v] / A;
    CHECK(std::abs((k1 + k2) / 2 - H) < 1e-6 * (1 + std::abs(H)), "principal", "vertex %zu: (k1+k2)/2 = %.10g, H = %.10g", v.getIndex(), (k1 + k2) / 2, H);
    CHECK(k1 <= k2 + 1e-9, "principal", "k1 > k2");
    if (H * H > K) CHECK(std::abs(k1 * k2 - K) < 1e-5 * (1 + H * H + std::abs(K)), "principal", "vertex %zu: k1 k2 = %.10g, K = %.10g", v.getIndex(), k1 * k2, K);
  }
  {
    // 0.5 L x
    Eigen::MatrixXd P(V, 3);
    size_t i = 0;
    for (Vertex v : mesh.vertices()) { for (int k = 0; k < 3; k++) P(i, k) = (*W.pos)[v][k]; i++; }
    Eigen::MatrixXd M = .5 * (g.cotanLaplacian * P);
    i = 0;
    double sc = std::max(1e-9, M.cwiseAbs().maxCoeff() + maxAbs(g.cotanLaplacian) * mean);
    for (Vertex v : mesh.vertices()) {
      for (int k = 0; k < 3; k++) CHECK(std::abs(M(i, k) - q.vertexDualMeanCurvatureNormals[v][k]) < 1e-7 * sc, "mean-curvature-normal", "vertex %zu", v.getIndex());
      i++;
    }
  }
  for (Edge e : mesh.edges()) {
    double th = q.edgeDihedralAngles[e];
    if (e.isBoundary() || !e.isManifold()) { CHECK(th == 0, "dihedral", "boundary edge %zu has angle %.12g", e.getIndex(), th); continue; }
    Halfedge a = e.halfedge(), b = a.sibling();
    if (W.mc == MC_GENERAL && a.orientation() == b.orientation()) continue;
    Vector3 n1 = q.faceNormals[a.face()], n2 = q.faceNormals[b.face()];
    CHECK(std::abs(std::cos(th) - dot(n1, n2)) < 1e-6, "dihedral", "edge %zu: cosine of %.12g is not %.12g", e.getIndex(), th, dot(n1, n2));
    // convex exactly if the opposite vertex is behind the other face
    Vector3 opp = (*W.pos)[b.next().tipVertex()] - (*W.pos)[a.vertex()];
    double hgt = dot(opp, n1);
    if (std::abs(hgt) > 1e-4 * mean && std::abs(std::abs(th) - PI) > 1e-3) CHECK((hgt < 0) == (th > 0), "dihedral", "edge %zu: sign of %.12g", e.getIndex(), th);
  }
  if (W.mc == MC_TRI) {
    checkSameMatrix(q.simplePolygonLaplacian, g.cotanLaplacian, 1e-5, "polygon-equals-triangle", "simplePolygonLaplacian vs cotanLaplacian");
    checkSameMatrix(q.polygonLaplacian, g.cotanLaplacian, 1e-5, "polygon-equals-triangle", "polygonLaplacian vs cotanLaplacian");
    checkSameMatrix(q.simplePolygonVertexGalerkinMassMatrix, g.vertexGalerkinMassMatrix, 1e-6, "polygon-equals-triangle", "simplePolygon Galerkin mass");
    checkSameMatrix(q.simplePolygonVertexLumpedMassMatrix, g.vertexLumpedMassMatrix, 1e-6, "polygon-equals-triangle", "simplePolygon lumped mass");
    checkSameMatrix(q.polygonVertexLumpedMassMatrix, g.vertexLumpedMassMatrix, 1e-8, "polygon-equals-triangle", "polygon lumped mass");
    q.requirePolygonDECOperators(); q.requirePolygonVertexConnectionLaplacian();
    Eigen::SparseMatrix<double> L2 = q.polygonD0.transpose() * q.polygonHodge1 * q.polygonD0;
    checkSameMatrix(L2, q.polygonLaplacian, 1e-7, "dec-laplacian", "polygonD0^T polygonHodge1 polygonD0 vs polygonLaplacian");
    checkHermitian(q.polygonVertexConnectionLaplacian, seed, "polygonVertexConnectionLaplacian");
  }
}

Register reg2([] {
  Scenario s;
  s.name = "geometry-identities";
  s.property = "C06";
  s.opNames = gOpNames;
  s.realComponents = "all geometric quantities and immediate computations of VertexPositionGeometry and EdgeLengthGeometry on meshes being edited (real code)";
  s.stubComponents = "";
  s.rule = "a run edits one mesh and geometry 3-20 times (moves, flips, splits, insertions, collapses, compression, refresh) and evaluates the identities after every step "
           "whose geometry is not degenerate";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    static const std::vector<double> cls = {6, 2, 1.5, 2};
    h.cfg["class"] = (i64)r.weighted(cls);
    h.cfg["kind"] = (i64)r.below((u64)(h.cfg["class"] == MC_GENERAL ? nGeneralKinds : nManifoldKinds));
    h.cfg["size"] = r.range(1, tier ? 4 : 3);
    h.cfg["ctor"] = (i64)r.below(6);
    h.cfg["jitter"] = (i64)r.below(4) * 4;
    size_t n = (size_t)r.range(2, tier ? 25 : 12);
    for (size_t i = 0; i < n; i++) {
      Op o;
      static const std::vector<double> w = {0, 0, .3, .5, 2, 1, 5, 0, 0, 1, 0};
      o.kind = (int)r.weighted(w);
      for (int k = 0; k < 4; k++) o.a.push_back(r.next() >> 8);
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    GWorld W = buildWorld(h);
    if (!inDomain(W)) throw Discard{"degenerate input"};
    checkIdentities(W, h.seed, ctx);
    for (auto& op : h.ops) {
      if (W.S.nF > 150) break;
      ctx.steps++;
      ctx.ev((u64)op.kind);
      switch (op.kind) {
      case GO_purge: W.g().purgeQuantities(); break;
      case GO_refresh: W.g().refreshQuantities(); break;
      case GO_moveOne: {
        Vertex v(W.mesh.get(), W.S.vs[arg(op, 0) % W.S.vs.size()]);
        (*W.pos)[v] += .1 * W.jitter(arg(op, 1));
        W.pushInputs();
        W.g().refreshQuantities();
        break;
      }
      case GO_moveAll:
        for (Vertex v : W.mesh->vertices()) (*W.pos)[v] = 1.25 * (*W.pos)[v] + .02 * W.jitter(hcomb(arg(op, 1), v.getIndex()));
        W.pushInputs();
        W.g().refreshQuantities();
        break;
      case GO_mutate:
        mutateWorld(W, op, ctx);
        if (!inDomain(W)) return;
        W.g().refreshQuantities();
        break;
      case GO_immediates: checkImmediates(W, ctx, "immediate"); break;
      default: break;
      }
      checkIdentities(W, hcomb(h.seed, arg(op, 3)), ctx);
      ctx.state(W.S.hash());
      ctx.ev(W.S.hash());
    }
  };
  return s;
}());
} // namespace

namespace sim {
size_t qCount() { return qs().size(); }
const char* qName(size_t i) { return qs()[i].name; }
bool qDefined(size_t i, bool positions) { return (qs()[i].dom & (positions ? TRI : LENGTHS)) != 0; }
void qRequire(size_t i, IntrinsicGeometryInterface& g) { qs()[i].req(g); }
void qUnrequire(size_t i, IntrinsicGeometryInterface& g) { qs()[i].unreq(g); }
bool qHave(size_t i, IntrinsicGeometryInterface& g) { return qs()[i].have(g); }
bool qScalar(size_t i) { return qs()[i].scalar; }
} // namespace sim
