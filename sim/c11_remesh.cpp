// C11: remeshing, smoothing, simplification, subdivision and cutting do what they document to any mesh, through the
// mutation manager they are given, independently of what happened before.
#include "algworld.h"
#include "geometrycentral/surface/quadric_error_simplification.h"
#include "geometrycentral/surface/remeshing.h"
#include "geometrycentral/surface/subdivide.h"
#include "geometrycentral/surface/surgery.h"
#include <algorithm>
using namespace sim;
namespace {

enum OpR { R_edit, R_meshOp, R_require, R_unrequire, R_purge, R_constrain, R_unconstrain, R_newManager, R_laplacian, R_circum, R_delaunay, R_adjust, R_remesh, R_loop, R_linear, R_catmull, R_simplify, R_cut, R_COUNT };
const std::vector<std::string> rNames = {"edit", "meshOp", "require", "unrequire", "purge", "constrain", "unconstrain", "newManager", "smoothByLaplacian", "smoothByCircumcenter", "fixDelaunay",
                                         "adjustEdgeLengths", "remesh", "loopSubdivide", "linearSubdivide", "catmullClarkSubdivide", "quadricErrorSimplify", "cutAlongEdges"};
struct Interrupt {};
struct End {};

struct Limits { // what the running algorithm may do
  bool mayMove = false, mayFlip = false, maySplit = false, mayCollapse = false;
  double splitAbove = -1, splitAboveMin = -1, collapseBelow = -1;
  bool delaunayFlips = false;
  std::function<void(Edge)> onSplit;
  std::function<void(Edge, double)> onCollapse;
  std::function<void(Vertex)> onCollapsed;
};

struct Spy : public VertexRepositionPolicy, public EdgeFlipPolicy, public EdgeSplitPolicy, public EdgeCollapsePolicy {
  ManifoldSurfaceMesh& mesh;
  VertexPositionGeometry& geom;
  MutationManager& mm;
  Limits lim;
  size_t flips = 0, splits = 0, collapses = 0, moves = 0;
  i64 throwAt = -1;
  bool thrown = false;
  std::multiset<std::pair<size_t, size_t>> edges; // mirror of the connectivity, kept by callbacks only
  VertexData<Vector3> offsets;
  Spy(ManifoldSurfaceMesh& m, VertexPositionGeometry& g, MutationManager& mm_) : mesh(m), geom(g), mm(mm_) {
    at = mesh.vertexPermuteCallbackList.insert(mesh.vertexPermuteCallbackList.end(), [this](const std::vector<size_t>& newToOld) {
      std::map<size_t, size_t> to;
      for (size_t i = 0; i < newToOld.size(); i++) to[newToOld[i]] = i;
      std::multiset<std::pair<size_t, size_t>> next;
      for (auto& k : edges) {
        if (!to.count(k.first) || !to.count(k.second)) { next.insert({INVALID_IND, INVALID_IND}); continue; } // (reported by compare)
        size_t a = to[k.first], b = to[k.second];
        next.insert(std::minmax(a, b));
      }
      edges.swap(next);
    });
  }
  ~Spy() { mesh.vertexPermuteCallbackList.erase(at); }
  std::list<std::function<void(const std::vector<size_t>&)>>::iterator at;
  Vector3 P(Vertex v) const { return geom.inputVertexPositions[v]; }
  static std::pair<size_t, size_t> key(Edge e) { size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex(); return std::minmax(a, b); }
  void resync() {
    edges.clear();
    for (Edge e : mesh.edges()) edges.insert(key(e));
  }
  void drop(Edge e) {
    auto it = edges.find(key(e));
    CHECK(it != edges.end(), "mirror", "an edge that disappears was never reported by a callback");
    edges.erase(it);
  }
  void compare(const char* what) {
    std::multiset<std::pair<size_t, size_t>> now;
    for (Edge e : mesh.edges()) now.insert(key(e));
    CHECK(now == edges, "mirror", "data kept up to date through callbacks differs from the mesh after %s", what);
  }
  void maybeThrow() {
    if (throwAt == 0) { throwAt = -1; thrown = true; throw Interrupt(); }
    if (throwAt > 0) throwAt--;
  }
  void beforeVertexReposition(const Vertex& v, const Vector3& d) override {
    CHECK(lim.mayMove, "unexpected-mutation", "a vertex is moved");
    CHECK(mm.mayRepositionVertex(v), "constraint", "a fixed vertex is moved");
    moves++;
    maybeThrow();
  }
  double dihedralSum(Edge e) const {
    Halfedge h = e.halfedge(), t = h.twin();
    auto ang = [&](Halfedge q) {
      Vector3 c = P(q.next().next().vertex()), u = P(q.vertex()) - c, w = P(q.next().vertex()) - c;
      return std::atan2(norm(cross(u, w)), dot(u, w));
    };
    return ang(h) + ang(t);
  }
  bool solid(Edge e) const { // neither triangle is degenerate
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()})
      if (!(triMinAngle(P(h.vertex()), P(h.next().vertex()), P(h.next().next().vertex())) > .02)) return false;
    return true;
  }
  void beforeEdgeFlip(const Edge& e) override {
    CHECK(lim.mayFlip, "unexpected-mutation", "an edge is flipped");
    CHECK(mm.mayFlipEdge(e) && !e.isBoundary(), "constraint", "an unflippable edge is flipped");
    if (lim.delaunayFlips && solid(e)) CHECK(dihedralSum(e) > PI - 1e-5, "delaunay-flip", "an edge with angle sum %g is flipped", dihedralSum(e));
    drop(e);
    flips++;
    maybeThrow();
  }
  void afterEdgeFlip(const Edge& e) override { edges.insert(key(e)); }
  void beforeEdgeSplit(const Edge& e, const double& t) override {
    CHECK(lim.maySplit, "unexpected-mutation", "an edge is split");
    CHECK(mm.maySplitEdge(e), "constraint", "an unsplittable edge is split");
    if (lim.splitAbove > 0) {
      double l = norm(P(e.firstVertex()) - P(e.secondVertex()));
      CHECK(l > lim.splitAbove * (1 - 1e-9) && l > lim.splitAboveMin * (1 - 1e-9), "split-length", "an edge of length %g is split (threshold %g)", l, lim.splitAbove);
    }
    CHECK(std::fabs(t - .5) < 1e-9 || !(lim.splitAbove > 0), "split-middle", "an edge is split at %g", t);
    if (lim.onSplit) lim.onSplit(e);
    drop(e);
    splits++;
    maybeThrow();
  }
  void afterEdgeSplit(const Halfedge& h1, const Halfedge& h2, const double& t) override {
    for (Edge e : h1.vertex().adjacentEdges()) edges.insert(key(e));
    if (lim.splitAbove > 0) {
      Vector3 m = .5 * (P(h1.tipVertex()) + P(h2.tipVertex()));
      CHECK(norm(P(h1.vertex()) - m) < 1e-9 * (1 + norm(m)), "split-middle", "the new vertex is not in the middle of the edge");
    }
  }
  Vector3 mid{0, 0, 0};
  void beforeEdgeCollapse(const Edge& e, const double& t) override {
    CHECK(lim.mayCollapse, "unexpected-mutation", "an edge is collapsed");
    CHECK(mm.mayCollapseEdge(e), "constraint", "an edge which is not collapsible is collapsed");
    if (lim.collapseBelow > 0) {
      double l = norm(P(e.firstVertex()) - P(e.secondVertex()));
      CHECK(l < lim.collapseBelow * (1 + 1e-9), "collapse-length", "an edge of length %g is collapsed (threshold %g)", l, lim.collapseBelow);
    }
    mid = .5 * (P(e.firstVertex()) + P(e.secondVertex()));
    if (lim.onCollapse) lim.onCollapse(e, t);
    pending.clear();
    for (Vertex v : {e.firstVertex(), e.secondVertex()})
      for (Edge x : v.adjacentEdges()) pending.push_back(x.getIndex());
    std::sort(pending.begin(), pending.end());
    pending.erase(std::unique(pending.begin(), pending.end()), pending.end());
    pendingKeys.clear();
    for (size_t i : pending) pendingKeys.push_back(key(mesh.edge(i)));
  }
  std::vector<size_t> pending;
  std::vector<std::pair<size_t, size_t>> pendingKeys;
  void afterEdgeCollapse(const Vertex& v, const double& t) override { // (a collapse may be announced and then turn out to be impossible)
    for (auto& k : pendingKeys) {
      auto it = edges.find(k);
      CHECK(it != edges.end(), "mirror", "an edge that disappears was never reported by a callback");
      edges.erase(it);
    }
    for (Edge e : v.adjacentEdges()) edges.insert(key(e));
    collapses++;
    if (lim.collapseBelow > 0) CHECK(norm(P(v) - mid) < 1e-9 * (1 + norm(mid)), "collapse-middle", "the vertex left by a collapse is not in the middle of the edge");
    if (lim.onCollapsed) lim.onCollapsed(v);
    maybeThrow();
  }
};

typedef std::vector<std::vector<size_t>> Faces;
struct Shape { // positions and faces in terms of dense vertex numbers
  std::vector<Vector3> P;
  Faces F;
  std::vector<char> bd;
};
Shape shapeOf(ManifoldSurfaceMesh& m, VertexPositionGeometry& g) {
  Shape s;
  std::map<size_t, size_t> id;
  for (Vertex v : m.vertices()) { id[v.getIndex()] = s.P.size(); s.P.push_back(g.inputVertexPositions[v]); s.bd.push_back(v.isBoundary()); }
  for (Face f : m.faces()) {
    s.F.push_back({});
    for (Vertex v : f.adjacentVertices()) s.F.back().push_back(id[v.getIndex()]);
  }
  return s;
}
std::vector<size_t> canon(std::vector<size_t> f) { std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); return f; }

struct Run {
  const History& h;
  Ctx& ctx;
  AlgWorld W;
  std::unique_ptr<MutationManager> mm;
  Spy* spy = nullptr; // owned by the manager
  bool poly = false, leaky = false, any = false, fixedV = false, fixedS = false, fixedC = false, fixedF = false;

  Run(const History& h_, Ctx& c) : h(h_), ctx(c) {
    poly = h.get("poly") != 0;
    W.build(h);
    if (poly) {
      Soup s = makeManifoldSoup((int)h.get("kind"), (int)h.get("size"), h.seed, false);
      Rng r(h.seed);
      W.mesh.reset(new ManifoldSurfaceMesh(s.polys));
      VertexData<Vector3> p(*W.mesh);
      for (Vertex v : W.mesh->vertices()) p[v] = Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
      W.geom.reset(new VertexPositionGeometry(*W.mesh, p));
    }
    manager();
  }
  ManifoldSurfaceMesh& M() { return *W.mesh; }
  VertexPositionGeometry& G() { return *W.geom; }
  void manager() {
    mm.reset();
    mm.reset(new MutationManager(M(), G()));
    spy = new Spy(M(), G(), *mm);
    mm->registerPolicy((VertexRepositionPolicy*)spy);
    fixedV = fixedS = fixedC = fixedF = false;
    handles = true;
  }
  bool handles = false;

  // ---- a fresh world: compressed copy, new geometry, new manager with the same constraints, nothing required
  struct Fresh {
    std::unique_ptr<ManifoldSurfaceMesh> mesh;
    std::unique_ptr<VertexPositionGeometry> geom;
    std::unique_ptr<MutationManager> mm;
  };
  Fresh fresh(double scale = 1) {
    Fresh f;
    f.mesh = M().copy();
    std::vector<Vector3> p;
    std::vector<char> rv, se, ce, fe;
    for (Vertex v : M().vertices()) { p.push_back(G().inputVertexPositions[v]); rv.push_back(mm->mayRepositionVertex(v)); }
    for (Edge e : M().edges()) {
      se.push_back(fixedS ? mm->splittableEdges[e] : 1); ce.push_back(fixedC ? mm->collapsibleEdges[e] : 1); fe.push_back(fixedF ? mm->flippableEdges[e] : 1);
    }
    f.mesh->compress();
    VertexData<Vector3> q(*f.mesh);
    VertexData<bool> v1(*f.mesh);
    EdgeData<bool> e1(*f.mesh), e2(*f.mesh), e3(*f.mesh);
    size_t i = 0;
    for (Vertex v : f.mesh->vertices()) { q[v] = scale * p[i]; v1[v] = rv[i] != 0; i++; }
    i = 0;
    for (Edge e : f.mesh->edges()) { e1[e] = se[i] != 0; e2[e] = ce[i] != 0; e3[e] = fe[i] != 0; i++; }
    f.geom.reset(new VertexPositionGeometry(*f.mesh, q));
    f.mm.reset(new MutationManager(*f.mesh, *f.geom));
    if (fixedV) f.mm->setRepositionableVertices(v1);
    if (fixedS) f.mm->setSplittableEdges(e1);
    if (fixedC) f.mm->setCollapsibleEdges(e2);
    if (fixedF) f.mm->setFlippableEdges(e3);
    return f;
  }
  void compareWith(Fresh& f, double scale, const char* name, const char* clause = "world-dependent") {
    Shape a = shapeOf(M(), G()), b = shapeOf(*f.mesh, *f.geom);
    CHECK(a.P.size() == b.P.size() && a.F.size() == b.F.size(), clause, "%s gives %zu vertices, but %zu on an equal mesh without this history (scale %g)", name, a.P.size(), b.P.size(), scale);
    for (size_t i = 0; i < a.F.size(); i++) CHECK(a.F[i] == b.F[i], clause, "%s gives other faces on an equal mesh without this history (scale %g)", name, scale);
    for (size_t i = 0; i < a.P.size(); i++) {
      double d = norm(a.P[i] - b.P[i] / scale);
      CHECK(d <= 1e-9 * (1 + norm(a.P[i])), clause, "%s moves a vertex elsewhere (by %g) on an equal mesh without this history (scale %g)", name, d, scale);
    }
    ctx.count("world-compared");
  }

  // runs an algorithm under the spy; returns false if a policy's exception (injected) came through
  template <class F> bool run(const Op& op, const char* name, Limits lim, F f) {
    seam::AllocQuiet quiet;
    spy->lim = lim;
    spy->flips = spy->splits = spy->collapses = spy->moves = 0;
    spy->resync();
    spy->throwAt = op.fault ? (i64)(op.fa % 40) : -1;
    spy->thrown = false;
    bool ok = true, nice = worstAngle() > 1;
    try {
      f();
    } catch (const Interrupt&) {
      ok = false;
      ctx.fault("policy-exception");
      leaky = true;
      mm->repositionableVertices.size(); // (the manager stays usable)
    }
    spy->throwAt = -1;
    CHECK(ok || spy->thrown, "exception", "an exception out of nowhere");
    CHECK(!(ok && spy->thrown), "exception-swallowed", "%s swallows the exception of a policy", name);
    snapshotChecked(M());
    for (Vertex v : M().vertices()) {
      Vector3 p = G().inputVertexPositions[v];
      bool fin = std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z);
      if (!fin && !nice) { ctx.count("left-domain.degenerate"); throw End(); } // degenerate triangles to begin with
      CHECK(fin, "finite", "%s leaves a vertex at a non-finite position", name);
    }
    ctx.count(name);
    any = true;
    if (!ok) { // the state is valid, but anything in between: go on with a new manager
      G().refreshQuantities();
      manager();
    }
    return ok;
  }
  double worstAngle() { // degrees, triangles only
    double w = 180;
    for (Face f : M().faces()) {
      std::vector<Vector3> p;
      for (Vertex u : f.adjacentVertices()) p.push_back(pos(u));
      if (p.size() == 3) { double a = triMinAngle(p[0], p[1], p[2]); if (!(a >= w)) w = std::isfinite(a) ? a : 0; }
    }
    return w;
  }
  double meanLength() {
    double l = 0;
    for (Edge e : M().edges()) l += norm(pos(e.firstVertex()) - pos(e.secondVertex()));
    return l / (double)M().nEdges();
  }
  Vector3 pos(Vertex v) { return G().inputVertexPositions[v]; }

  bool simplicial() {
    std::set<std::pair<size_t, size_t>> s;
    for (Edge e : M().edges()) {
      if (e.firstVertex() == e.secondVertex()) return false;
      if (!s.insert(Spy::key(e)).second) return false;
    }
    return true;
  }
  void heldFresh(const char* name) { // quantities the user requires must describe the new mesh
    VertexPositionGeometry g(M(), G().inputVertexPositions);
    double sc = 0;
    for (Vertex v : M().vertices()) sc = std::max(sc, norm(pos(v)));
    for (size_t i = 0; i < qCount(); i++) {
      if (W.userReq[i] == 0) continue;
      std::string n = qName(i);
      if (n == "edgeLengths") {
        g.requireEdgeLengths();
        for (Edge e : M().edges()) CHECK(std::fabs(g.edgeLengths[e] - G().edgeLengths[e]) < 1e-9 * (1 + sc), "stale-quantity", "required edge lengths are stale after %s", name);
      } else if (n == "faceNormals") {
        g.requireFaceNormals();
        for (Face f : M().faces()) CHECK(!(norm(g.faceNormals[f] - G().faceNormals[f]) > 1e-9), "stale-quantity", "required normals are stale after %s", name);
      } else if (n == "vertexDualAreas") {
        g.requireVertexDualAreas();
        for (Vertex v : M().vertices()) CHECK(std::fabs(g.vertexDualAreas[v] - G().vertexDualAreas[v]) < 1e-9 * (1 + sc * sc), "stale-quantity", "required areas are stale after %s", name);
      } else if (n == "vertexIndices") {
        size_t k = 0;
        for (Vertex v : M().vertices()) CHECK(G().vertexIndices[v] == k++, "stale-quantity", "required indices are stale after %s", name);
      }
    }
  }

  // ---- smoothing
  void smooth(const Op& op, bool lap) {
    Rng r(arg(op, 0));
    double step = r.chance(.5) ? 1 : r.real(.1, 1);
    RemeshBoundaryCondition bc = (RemeshBoundaryCondition)(int)r.below(3);
    auto normalAt = [&](Vertex v) {
      Vector3 n{0, 0, 0};
      for (Face f : v.adjacentFaces()) {
        std::vector<Vector3> p;
        size_t k = 0, me = 0;
        for (Vertex u : f.adjacentVertices()) { if (u == v) me = k; p.push_back(pos(u)); k++; }
        Vector3 a = p[(me + 1) % 3] - p[me], b = p[(me + 2) % 3] - p[me], c = cross(a, b);
        if (!(triMinAngle(p[0], p[1], p[2]) > .01)) return Vector3{0, 0, 0}; // a normal made of rounding errors
        n += std::atan2(norm(c), dot(a, b)) * c / norm(c);
      }
      return n;
    };
    auto area = [&](Face f) { std::vector<Vector3> p; for (Vertex u : f.adjacentVertices()) p.push_back(pos(u)); return .5 * norm(cross(p[1] - p[0], p[2] - p[0])); };
    std::vector<Vector3> want;
    std::vector<char> judged;
    double total = 0;
    bool allJudged = true, simp = simplicial();
    double sc = meanLength();
    for (Vertex v : M().vertices()) {
      Vector3 d{0, 0, 0};
      bool ok = true;
      if (lap) {
        size_t n = 0;
        for (Vertex u : v.adjacentVertices()) { d += pos(u); n++; }
        d = d / (double)n - pos(v);
      } else {
        double A = 0;
        for (Face f : v.adjacentFaces()) {
          std::vector<Vector3> p;
          for (Vertex u : f.adjacentVertices()) p.push_back(pos(u));
          bool stuck = false;
          for (Edge e : f.adjacentEdges()) stuck = stuck || e.isBoundary() || !mm->mayFlipEdge(e);
          Vector3 c = (p[0] + p[1] + p[2]) / 3.;
          if (!stuck) { // circumcenter
            Vector3 a = p[1] - p[0], b = p[2] - p[0], n = cross(a, b);
            c = p[0] + (dot(b, b) * cross(n, a) - dot(a, a) * cross(n, b)) / (2 * dot(n, n));
            if (triMinAngle(p[0], p[1], p[2]) < 2) ok = false;
          }
          d += area(f) * (c - pos(v));
          A += area(f);
        }
        d /= 2 * A;
        ok = ok && A > 1e-12 * sc * sc;
      }
      Vector3 n = normalAt(v);
      Vector3 x{0, 0, 0};
      if (norm(n) < 1e-5 || !simp) ok = false;
      if (!v.isBoundary() || bc == RemeshBoundaryCondition::Free) {
        n = n / norm(n);
        x = d - n * dot(n, d);
      } else if (bc == RemeshBoundaryCondition::Fixed) { ok = true; }
      else {
        Vector3 t{0, 0, 0};
        for (Edge e : v.adjacentEdges())
          if (e.isBoundary()) { Vector3 q = pos(e.halfedge().tipVertex()) - pos(e.halfedge().tailVertex()); t += q / norm(q); }
        ok = ok && norm(t) > 1e-5;
        t = t / norm(t);
        x = t * dot(t, d);
      }
      x = step * x;
      if (!mm->mayRepositionVertex(v)) { x = Vector3{0, 0, 0}; ok = true; }
      want.push_back(pos(v) + x);
      judged.push_back(ok);
      allJudged = allJudged && ok;
      if (ok) total += norm(x);
    }
    size_t nv = M().nVertices(), ne = M().nEdges(), nf = M().nFaces();
    total /= (double)nv;
    Limits lim;
    lim.mayMove = true;
    bool other = r.chance(.5);
    Fresh f = fresh();
    double got = 0;
    const char* name = lap ? "smoothByLaplacian" : "smoothByCircumcenter";
    if (!run(op, name, lim, [&] { got = lap ? smoothByLaplacian(M(), G(), *mm, step, bc) : smoothByCircumcenter(M(), G(), *mm, step, bc); })) return;
    CHECK(M().nVertices() == nv && M().nEdges() == ne && M().nFaces() == nf, "smooth-connectivity", "%s changes the connectivity", name);
    size_t i = 0;
    for (Vertex v : M().vertices()) {
      double dd = norm(pos(v) - want[i]);
      CHECK(!judged[i] || dd < 1e-6 * (sc + norm(want[i])), "smooth-position", "%s moves a %s vertex to a place which is off by %g (edge length %g, normal %g, degree %zu)", name, v.isBoundary() ? "boundary" : "interior", dd, sc, norm(normalAt(v)), v.degree());
      i++;
    }
    if (allJudged) CHECK(std::fabs(got - total) < 1e-6 * (sc + total), "smooth-return", "%s returns %g, the average movement is %g", name, got, total);
    if (other && !fixedV && !fixedS && !fixedC && !fixedF) {
      double g2 = lap ? smoothByLaplacian(*f.mesh, *f.geom, step, bc) : smoothByCircumcenter(*f.mesh, *f.geom, step, bc);
      CHECK(!allJudged || std::fabs(g2 - got) < 1e-9 * (sc + got), "world-dependent", "%s without a manager returns something else", name);
    } else if (lap) smoothByLaplacian(*f.mesh, *f.geom, *f.mm, step, bc);
    else smoothByCircumcenter(*f.mesh, *f.geom, *f.mm, step, bc);
    if (allJudged) compareWith(f, 1, name);
    G().refreshQuantities();
  }

  // ---- flips
  void delaunay(const Op& op) {
    Rng r(arg(op, 0));
    Shape a = shapeOf(M(), G());
    Limits lim;
    lim.mayFlip = lim.delaunayFlips = true;
    double scale = r.chance(.5) ? 1 : 4;
    Fresh f = fresh(scale);
    size_t n = 0;
    if (!run(op, "fixDelaunay", lim, [&] { n = fixDelaunay(M(), G(), *mm); })) return;
    CHECK(n == spy->flips, "flip-count", "fixDelaunay reports %zu flips and does %zu", n, spy->flips);
    CHECK(n <= 100 * M().nVertices(), "flip-limit", "%zu flips", n);
    spy->compare("fixDelaunay");
    Shape b = shapeOf(M(), G());
    CHECK(a.P.size() == b.P.size() && a.F.size() == b.F.size(), "flip-counts", "fixDelaunay changes the numbers of elements");
    for (size_t i = 0; i < a.P.size(); i++) CHECK(norm(a.P[i] - b.P[i]) == 0, "flip-moves", "fixDelaunay moves a vertex");
    if (n == 0) {
      CHECK(a.F == b.F, "flip-count", "fixDelaunay reports no flips but changes the faces");
      settled();
    }
    size_t n2 = r.chance(.5) && !fixedF ? fixDelaunay(*f.mesh, *f.geom) : fixDelaunay(*f.mesh, *f.geom, *f.mm);
    CHECK(n2 == n, "world-dependent", "fixDelaunay does %zu flips, but %zu on an equal mesh without this history", n, n2);
    compareWith(f, scale, "fixDelaunay");
    G().refreshQuantities();
  }
  void settled() { // no flip was done although every edge was considered
    std::unique_ptr<ManifoldSurfaceMesh> c;
    std::vector<Edge> ce;
    size_t i = 0;
    for (Edge e : M().edges()) {
      if (!e.isBoundary() && mm->mayFlipEdge(e) && spy->solid(e) && spy->dihedralSum(e) > PI + 1e-4) {
        if (!c) {
          c = M().copy();
          for (Edge x : c->edges()) ce.push_back(x);
        }
        CHECK(!c->flip(ce[i]), "delaunay", "an edge with angle sum %g which can be flipped is left", spy->dihedralSum(e));
      }
      i++;
    }
    ctx.count("delaunay-settled");
  }

  // ---- edge lengths
  struct Adjust {
    RemeshOptions o;
    double target = 0;
  };
  RemeshOptions options(Rng& r) {
    RemeshOptions o;
    double m = meanLength();
    switch (r.below(4)) {
    case 0: o.targetEdgeLength = -r.real(.6, 1.8); break;
    case 1: break; // default: relative, -1
    default: o.targetEdgeLength = m * r.real(.6, 2);
    }
    if (r.chance(.35)) o.curvatureAdaptation = r.real(.05, .6);
    if (r.chance(.3)) o.minRelativeLength = r.real(.02, .8);
    o.maxIterations = 1 + (size_t)r.below(3);
    o.smoothStyle = (RemeshSmoothStyle)(int)r.below(2);
    o.boundaryCondition = (RemeshBoundaryCondition)(int)r.below(3);
    return o;
  }
  void adjust(const Op& op) {
    Rng r(arg(op, 0));
    if (M().nVertices() > 160) return;
    RemeshOptions o = options(r);
    double target = o.targetEdgeLength < 0 ? -o.targetEdgeLength * meanLength() : o.targetEdgeLength;
    // which edges must be split
    std::vector<double> thr;
    {
      VertexPositionGeometry g(M(), G().inputVertexPositions);
      g.requireVertexDualAreas(); g.requireVertexMeanCurvatures();
      for (Edge e : M().edges()) {
        double H = .5 * (g.vertexMeanCurvatures[e.firstVertex()] / g.vertexDualAreas[e.firstVertex()] + g.vertexMeanCurvatures[e.secondVertex()] / g.vertexDualAreas[e.secondVertex()]);
        thr.push_back(o.curvatureAdaptation > 0 ? target / (std::fabs(H) * o.curvatureAdaptation + 1) : target);
      }
    }
    std::set<size_t> must, did;
    std::map<size_t, double> low;
    size_t i = 0;
    for (Edge e : M().edges()) {
      double l = norm(pos(e.firstVertex()) - pos(e.secondVertex()));
      low[e.getIndex()] = 1.5 * thr[i];
      if (l > 1.5 * thr[i] * (1 + 1e-7) && l > o.minRelativeLength * target * (1 + 1e-9) && mm->maySplitEdge(e)) must.insert(e.getIndex());
      i++;
    }
    Snap before = snapshotChecked(M());
    Limits lim;
    lim.maySplit = lim.mayCollapse = true;
    lim.splitAbove = o.curvatureAdaptation > 0 ? 1e-300 : 1.5 * target;
    lim.splitAboveMin = o.minRelativeLength * target;
    lim.collapseBelow = .5 * target;
    lim.onSplit = [&](Edge e) {
      did.insert(e.getIndex());
      auto it = low.find(e.getIndex());
      double l = norm(pos(e.firstVertex()) - pos(e.secondVertex()));
      CHECK(it != low.end() && l > it->second * (1 - 1e-7), "split-length", "an edge of length %g is split (threshold %g)", l, it == low.end() ? -1. : it->second);
    };
    double scale = 1; // (curvatureAdaptation has a length scale)
    if (o.curvatureAdaptation == 0 && o.targetEdgeLength < 0 && r.chance(.5)) scale = .25;
    Fresh f = fresh(scale);
    bool got = false;
    if (!run(op, "adjustEdgeLengths", lim, [&] { got = adjustEdgeLengths(M(), G(), *mm, o); })) return;
    for (size_t e : must) CHECK(did.count(e), "split-missed", "an edge longer than the threshold is not split");
    CHECK(got == (spy->splits + spy->collapses > 0), "adjust-return", "adjustEdgeLengths returns %d after %zu splits and %zu collapses", (int)got, spy->splits, spy->collapses);
    CHECK(M().isCompressed(), "adjust-compress", "the mesh is left uncompressed");
    Snap after = snapshotChecked(M());
    CHECK(after.nV + spy->collapses == before.nV + spy->splits, "adjust-count", "numbers of vertices do not fit to %zu splits and %zu collapses", spy->splits, spy->collapses);
    CHECK(after.euler() == before.euler() && after.nBL == before.nBL, "topology", "adjustEdgeLengths changes the topology");
    spy->compare("adjustEdgeLengths");
    bool g2 = adjustEdgeLengths(*f.mesh, *f.geom, *f.mm, o);
    CHECK(g2 == got, "world-dependent", "adjustEdgeLengths returns something else on an equal mesh without this history");
    compareWith(f, scale, "adjustEdgeLengths");
    G().refreshQuantities();
  }
  void remeshOp(const Op& op) {
    Rng r(arg(op, 0));
    if (M().nVertices() > 160) return;
    RemeshOptions o = options(r);
    double target = o.targetEdgeLength < 0 ? -o.targetEdgeLength * meanLength() : o.targetEdgeLength;
    Limits lim;
    lim.maySplit = lim.mayCollapse = lim.mayMove = lim.mayFlip = lim.delaunayFlips = true;
    lim.splitAbove = o.curvatureAdaptation > 0 ? 1e-300 : 1.5 * target;
    lim.splitAboveMin = o.minRelativeLength * target;
    lim.collapseBelow = .5 * target;
    VertexData<char> fixed(M(), 0);
    std::map<std::array<double, 3>, int> fixedAt;
    if (fixedV) for (Vertex v : M().vertices()) if (!mm->mayRepositionVertex(v)) fixedAt[{pos(v).x, pos(v).y, pos(v).z}]++;
    Snap before = snapshotChecked(M());
    Fresh f = fresh(), f2 = fresh();
    if (!run(op, "remesh", lim, [&] { remesh(M(), G(), *mm, o); })) return;
    Snap after = snapshotChecked(M());
    CHECK(after.euler() == before.euler() && after.nBL == before.nBL, "topology", "remeshing changes the topology");
    if (fixedV) for (Vertex v : M().vertices()) {
      auto it = fixedAt.find({pos(v).x, pos(v).y, pos(v).z});
      if (it != fixedAt.end()) it->second--;
    }
    for (auto& x : fixedAt) CHECK(x.second <= 0, "fixed-vertex", "a fixed vertex is not where it was after remeshing");
    spy->compare("remesh");
    heldFresh("remesh");
    if (!fixedV && !fixedS && !fixedC && !fixedF && r.chance(.5)) remesh(*f.mesh, *f.geom, o);
    else remesh(*f.mesh, *f.geom, *f.mm, o);
    compareWith(f, 1, "remesh");
    if (o.maxIterations == 1) { // the documented rounds
      RemeshOptions q = o;
      q.targetEdgeLength = target;
      adjustEdgeLengths(*f2.mesh, *f2.geom, *f2.mm, q);
      fixDelaunay(*f2.mesh, *f2.geom, *f2.mm);
      if (o.smoothStyle == RemeshSmoothStyle::Laplacian) smoothByLaplacian(*f2.mesh, *f2.geom, *f2.mm, 1, o.boundaryCondition);
      else smoothByCircumcenter(*f2.mesh, *f2.geom, *f2.mm, 1, o.boundaryCondition);
      compareWith(f2, 1, "remesh", "remesh-rounds");
    } else { // rounds do not depend on how they are grouped, as long as each changes the connectivity
      RemeshOptions q = o;
      q.targetEdgeLength = target;
      q.maxIterations = 1;
      bool more = true;
      for (size_t k = 0; k < o.maxIterations && more; k++) {
        if (k > 0) f2.geom->refreshQuantities();
        more = adjustEdgeLengths(*f2.mesh, *f2.geom, *f2.mm, q);
        if (!more) { ctx.count("remesh-settled"); break; } // (nothing is adjusted any more after that)
        size_t nFlips = fixDelaunay(*f2.mesh, *f2.geom, *f2.mm);
        double d = o.smoothStyle == RemeshSmoothStyle::Laplacian ? smoothByLaplacian(*f2.mesh, *f2.geom, *f2.mm, 1, o.boundaryCondition)
                                                                 : smoothByCircumcenter(*f2.mesh, *f2.geom, *f2.mm, 1, o.boundaryCondition);
        if (nFlips == 0 && d < .02) { more = false; break; } // it may stop here
        f2.geom->refreshQuantities();
      }
      if (more) compareWith(f2, 1, "remesh", "remesh-rounds");
    }
  }

  // ---- subdivision
  void subdivide(const Op& op, int which) {
    if (M().nFaces() > 70 || !simplicial()) return;
    const char* name = which == 0 ? "loopSubdivide" : which == 1 ? "linearSubdivide" : "catmullClarkSubdivide";
    for (Face f : M().faces()) if (which == 0 && f.degree() != 3) return;
    Shape a = shapeOf(M(), G());
    size_t nV = a.P.size(), nE = M().nEdges(), nF = a.F.size();
    std::vector<std::vector<size_t>> vf(nV);
    std::map<std::pair<size_t, size_t>, std::vector<size_t>> ef;
    std::vector<std::set<size_t>> vn(nV), vb(nV);
    std::vector<Vector3> c(nF);
    for (size_t f = 0; f < nF; f++) {
      size_t d = a.F[f].size();
      for (size_t k = 0; k < d; k++) {
        size_t u = a.F[f][k], w = a.F[f][(k + 1) % d];
        vf[u].push_back(f);
        ef[std::minmax(u, w)].push_back(f);
        vn[u].insert(w); vn[w].insert(u);
        c[f] += a.P[u] / (double)d;
      }
    }
    for (auto& e : ef) if (e.second.size() == 1) { vb[e.first.first].insert(e.first.second); vb[e.first.second].insert(e.first.first); }
    auto mid = [&](std::pair<size_t, size_t> e) { return .5 * (a.P[e.first] + a.P[e.second]); };
    std::vector<Vector3> want(nV);
    std::map<std::pair<size_t, size_t>, Vector3> we;
    for (auto& e : ef) {
      Vector3 m = mid(e.first);
      if (e.second.size() == 2) {
        if (which == 2) m = .25 * (c[e.second[0]] + c[e.second[1]] + 2 * m);
        if (which == 0) {
          Vector3 o{0, 0, 0};
          for (size_t f : e.second) for (size_t v : a.F[f]) if (v != e.first.first && v != e.first.second) o += a.P[v];
          m = .375 * (a.P[e.first.first] + a.P[e.first.second]) + .125 * o;
        }
      }
      we[e.first] = m;
    }
    for (size_t v = 0; v < nV; v++) {
      double n = (double)vn[v].size();
      Vector3 q{0, 0, 0};
      want[v] = a.P[v];
      if (which > 0 && which != 2) continue;
      if (!vb[v].empty()) {
        for (size_t u : vb[v]) q += a.P[u];
        want[v] = .75 * a.P[v] + .125 * q;
      } else if (which == 0) {
        for (size_t u : vn[v]) q += a.P[u];
        double be = n == 3 ? 3. / 16 : 3 / (8 * n);
        want[v] = (1 - n * be) * a.P[v] + be * q;
      } else {
        Vector3 fq{0, 0, 0}, eq{0, 0, 0};
        for (size_t f : vf[v]) fq += c[f] / n;
        for (size_t u : vn[v]) eq += mid(std::minmax(u, v)) / n;
        want[v] = (fq + 2 * eq + (n - 3) * a.P[v]) / n;
      }
    }
    Limits lim;
    lim.maySplit = lim.mayFlip = which == 0;
    Fresh f = fresh();
    manager(); // (without constraints)
    bool own = which != 0 || (arg(op, 0) & 1);
    std::set<std::pair<size_t, size_t>> dummy;
    if (!run(op, name, lim, [&] {
          if (which == 1) linearSubdivide(M(), G());
          else if (which == 2) catmullClarkSubdivide(M(), G());
          else if (own) { spy->lim = Limits(); loopSubdivide(M(), G()); }
          else loopSubdivide(M(), G(), *mm);
        })) return;
    Shape b = shapeOf(M(), G());
    if (which == 0 && !own) CHECK(spy->splits == nE, "subdivide-callbacks", "%zu callbacks for %zu split edges", spy->splits, nE);
    if (which == 0 && !own) {
      std::multiset<std::pair<size_t, size_t>> x;
      for (Edge e : M().edges()) x.insert(Spy::key(e));
      CHECK(spy->edges.size() == x.size(), "mirror", "data kept up to date through callbacks differs from the mesh after %s", name);
      if (wasCompressedBefore) CHECK(spy->edges == x, "mirror", "data kept up to date through callbacks differs from the mesh after %s", name);
    }
    CHECK(M().isCompressed(), "subdivide-compress", "%s leaves the mesh uncompressed", name);
    CHECK(b.P.size() == nV + nE + (which ? nF : 0), "subdivide-count", "%s makes %zu vertices of %zu vertices, %zu edges and %zu faces", name, b.P.size(), nV, nE, nF);
    // the new vertices, found by their neighbors
    std::vector<std::set<size_t>> bn(b.P.size());
    for (auto& F : b.F) for (size_t k = 0; k < F.size(); k++) { bn[F[k]].insert(F[(k + 1) % F.size()]); bn[F[(k + 1) % F.size()]].insert(F[k]); }
    std::map<std::pair<size_t, size_t>, size_t> ev;
    std::vector<size_t> centers;
    for (size_t v = nV; v < b.P.size(); v++) {
      std::vector<size_t> o;
      for (size_t u : bn[v]) if (u < nV) o.push_back(u);
      if (o.empty() && which) { centers.push_back(v); continue; }
      CHECK(o.size() == 2 && ef.count({o[0], o[1]}) && !ev.count({o[0], o[1]}), "subdivide-faces", "%s makes a vertex which does not belong to an edge", name);
      ev[{o[0], o[1]}] = v;
    }
    CHECK(ev.size() == nE && centers.size() == (which ? nF : 0), "subdivide-faces", "%s does not make a vertex for every edge and face", name);
    std::multiset<std::vector<size_t>> got, exp;
    for (auto& F : b.F) got.insert(canon(F));
    std::vector<size_t> fc(nF, NONE);
    if (which)
      for (size_t i = 0; i < nF; i++) { // its center is joined to all of its edge vertices
        std::set<size_t> want2;
        size_t d = a.F[i].size();
        for (size_t k = 0; k < d; k++) want2.insert(ev[std::minmax(a.F[i][k], a.F[i][(k + 1) % d])]);
        for (size_t x : centers) if (bn[x] == want2 && std::find(fc.begin(), fc.end(), x) == fc.end() && fc[i] == NONE) {
          // two faces with the same edges (a pillow) are told apart by position
          if (norm(b.P[x] - c[i]) < 1e-9 * (1 + norm(c[i]))) fc[i] = x;
        }
        CHECK(fc[i] != NONE, "subdivide-position", "%s makes no vertex at the center of a face that is joined to its edges", name);
      }
    for (size_t i = 0; i < nF; i++) {
      auto& F = a.F[i];
      size_t d = F.size();
      std::vector<size_t> in;
      for (size_t k = 0; k < d; k++) {
        size_t m = ev[std::minmax(F[k], F[(k + 1) % d])], p = ev[std::minmax(F[k], F[(k + d - 1) % d])];
        in.push_back(m);
        if (which) exp.insert(canon({F[k], m, fc[i], p}));
        else exp.insert(canon({F[k], m, p}));
      }
      if (!which) exp.insert(canon(in));
    }
    CHECK(got == exp, "subdivide-faces", "%s makes other faces than it should", name);
    double sc = 0;
    for (auto& p : a.P) sc = std::max(sc, norm(p));
    for (size_t v = 0; v < nV; v++) CHECK(norm(b.P[v] - want[v]) < 1e-9 * (1 + sc), "subdivide-position", "%s moves a vertex (%s) to a place which is off by %g", name, vb[v].empty() ? "interior" : "boundary", norm(b.P[v] - want[v]));
    for (auto& e : ev) CHECK(norm(b.P[e.second] - we[e.first]) < 1e-9 * (1 + sc), "subdivide-position", "%s puts the vertex of an edge (%s) to a place which is off by %g", name, ef[e.first].size() == 2 ? "interior" : "boundary", norm(b.P[e.second] - we[e.first]));
    heldFresh(name);
    if (which == 1) linearSubdivide(*f.mesh, *f.geom);
    else if (which == 2) catmullClarkSubdivide(*f.mesh, *f.geom);
    else loopSubdivide(*f.mesh, *f.geom);
    compareWith(f, 1, name);
    manager();
  }
  bool wasCompressedBefore = false;

  // ---- simplification
  struct Quad { double a[10]; };
  void simplify(const Op& op) {
    Rng r(arg(op, 0));
    double m = meanLength(), tol = r.chance(.3) ? .05 : m * m * std::pow(10., r.real(-4, -.3));
    VertexData<Eigen::Matrix4d> Q(M(), Eigen::Matrix4d(Eigen::Matrix4d::Zero()));
    for (Face f : M().faces()) {
      std::vector<Vector3> p;
      for (Vertex v : f.adjacentVertices()) p.push_back(pos(v));
      Vector3 n = cross(p[1] - p[0], p[2] - p[0]);
      if (!(norm(n) > 1e-12 * m * m)) return;
      n = n / norm(n);
      Eigen::Vector4d w;
      w << n.x, n.y, n.z, -dot(n, p[0]);
      for (Vertex v : f.adjacentVertices()) Q[v] += w * w.transpose();
    }
    auto cost = [](const Eigen::Matrix4d& q, Vector3 x) { Eigen::Vector4d w; w << x.x, x.y, x.z, 1; return w.dot(q * w); };
    Eigen::Matrix4d cur;
    Vector3 pa{0, 0, 0}, pb{0, 0, 0};
    double sc = 0;
    for (Vertex v : M().vertices()) sc = std::max(sc, norm(pos(v)));
    double eps = 1e-9 * (1 + sc * sc) * 10;
    Limits lim;
    lim.mayCollapse = true;
    lim.onCollapse = [&](Edge e, double) { cur = Q[e.firstVertex()] + Q[e.secondVertex()]; pa = pos(e.firstVertex()); pb = pos(e.secondVertex()); };
    lim.onCollapsed = [&](Vertex v) {
      Q[v] = cur;
      double c = cost(cur, pos(v));
      CHECK(c <= tol + 1e-6 + eps, "simplify-cost", "a collapse of cost %g (tolerance %g) is done", c, tol);
      for (Vector3 x : {pa, pb, .5 * (pa + pb)}) CHECK(c <= cost(cur, x) + 1e-7 * (1 + sc * sc), "simplify-optimal", "the new vertex costs %g, but %g is possible", c, cost(cur, x));
    };
    Snap before = snapshotChecked(M());
    Fresh f = fresh();
    if (!run(op, "quadricErrorSimplify", lim, [&] { quadricErrorSimplify(M(), G(), tol, *mm); })) return;
    CHECK(M().isCompressed(), "simplify-compress", "the mesh is left uncompressed");
    Snap after = snapshotChecked(M());
    CHECK(after.euler() == before.euler() && after.nBL == before.nBL, "topology", "simplification changes the topology");
    CHECK(after.nV + spy->collapses == before.nV, "simplify-count", "numbers of vertices do not fit to %zu collapses", spy->collapses);
    if (!fixedV && !fixedS && !fixedC && !fixedF && r.chance(.5)) quadricErrorSimplify(*f.mesh, *f.geom, tol);
    else quadricErrorSimplify(*f.mesh, *f.geom, tol, *f.mm);
    compareWith(f, 1, "quadricErrorSimplify");
    spy->compare("quadricErrorSimplify");
    G().refreshQuantities();
    ctx.count("collapses", spy->collapses);
  }

  // ---- cutting
  void cut(const Op& op) {
    Rng r(arg(op, 0));
    if (!simplicial()) return;
    EdgeData<char> cut(M(), 0);
    // a random tree on interior vertices, possibly with one vertex on the boundary
    std::vector<Vertex> all;
    for (Vertex v : M().vertices()) all.push_back(v);
    Vertex root = r.pick(all);
    std::set<size_t> in{root.getIndex()};
    std::vector<Vertex> tree{root};
    size_t n = 1 + (size_t)r.below(8), bd = root.isBoundary() ? 1 : 0, made = 0;
    for (size_t k = 0; k < 6 * n && made < n; k++) {
      Vertex v = r.chance(.6) ? tree.back() : r.pick(tree);
      std::vector<Halfedge> hs;
      for (Halfedge q : v.outgoingHalfedges()) hs.push_back(q);
      Halfedge q = r.pick(hs);
      Vertex u = q.tipVertex();
      if (in.count(u.getIndex()) || q.edge().isBoundary()) continue;
      if (u.isBoundary() && bd) continue;
      bd += u.isBoundary();
      in.insert(u.getIndex());
      tree.push_back(u);
      cut[q.edge()] = 1;
      made++;
    }
    if (!made) return;
    Snap before = snapshotChecked(M());
    std::unique_ptr<ManifoldSurfaceMesh> m2;
    HalfedgeData<Halfedge> parent;
    try {
      std::tie(m2, parent) = cutAlongEdges(M(), cut);
    } catch (const std::runtime_error& e) {
      // (documented as not implemented: opening an edge between two boundary loops)
      CHECK(std::string(e.what()).find("not implemented") != std::string::npos, "cut-refused", "cutting along a tree: %s", e.what());
      CHECK(snapshotChecked(M()) == before, "input-changed", "a refused cut changes the input mesh");
      ctx.count("cut-refused");
      return;
    }
    any = true;
    ctx.count("cutAlongEdges");
    CHECK(snapshotChecked(M()) == before, "input-changed", "cutting changes the input mesh");
    Snap S = snapshotChecked(*m2);
    CHECK(S.nF == before.nF && S.nInt == before.nInt && S.nE == before.nE + made, "cut-count", "cutting %zu edges gives %zu edges of %zu", made, S.nE, before.nE);
    size_t expV = 0;
    for (Vertex v : all) {
      size_t k = 0;
      for (Edge e : v.adjacentEdges()) k += cut[e] ? 1 : 0;
      expV += v.isBoundary() ? k + 1 : std::max<size_t>(1, k);
    }
    CHECK(S.nV == expV, "cut-count", "cutting gives %zu vertices, it should be %zu", S.nV, expV);
    CHECK(S.nBL == before.nBL + (bd ? 0 : 1), "cut-boundary", "cutting along a tree %s the boundary gives %zu boundary loops of %zu", bd ? "touching" : "away from", S.nBL, before.nBL);
    std::set<size_t> used;
    for (Halfedge q : m2->halfedges()) {
      Halfedge p = parent[q];
      if (!q.isInterior()) {
        if (p != Halfedge()) CHECK(p.getMesh() == &M() && !p.isDead() && !p.isInterior(), "cut-parent", "an exterior halfedge has an interior parent");
        continue;
      }
      CHECK(p != Halfedge() && p.getMesh() == &M() && !p.isDead() && p.isInterior(), "cut-parent", "an interior halfedge has no interior parent");
      CHECK(used.insert(p.getIndex()).second, "cut-parent", "two halfedges have the same parent");
      CHECK(parent[q.next()] == p.next(), "cut-parent", "parents do not follow the face");
      if (cut[p.edge()]) CHECK(!q.twin().isInterior() && q.edge().isBoundary(), "cut-open", "a cut edge is not open");
      else if (p.twin().isInterior()) CHECK(q.twin().isInterior() && parent[q.twin()] == p.twin(), "cut-closed", "an edge which is not cut came apart");
      else CHECK(!q.twin().isInterior(), "cut-closed", "a boundary edge got a neighbor");
    }
  }

  void constrain(const Op& op) {
    Rng r(arg(op, 0));
    if (poly) return;
    double p = r.real(.05, .5);
    switch (r.below(4)) {
    case 0: {
      VertexData<bool> d(M(), true);
      bool bdOnly = r.chance(.4);
      for (Vertex v : M().vertices()) d[v] = bdOnly ? !v.isBoundary() : !r.chance(p);
      mm->setRepositionableVertices(d);
      fixedV = true;
      break;
    }
    case 1: { EdgeData<bool> d(M(), true); for (Edge e : M().edges()) d[e] = !r.chance(p); mm->setSplittableEdges(d); fixedS = true; break; }
    case 2: { EdgeData<bool> d(M(), true); for (Edge e : M().edges()) d[e] = !r.chance(p); mm->setCollapsibleEdges(d); fixedC = true; break; }
    default: { EdgeData<bool> d(M(), true); for (Edge e : M().edges()) d[e] = !r.chance(p); mm->setFlippableEdges(d); fixedF = true; }
    }
    ctx.count("constrain");
  }
  void step(const Op& op) {
    ctx.steps++;
    ctx.ev((u64)op.kind);
    ctx.state(hcomb((u64)op.kind, hcomb(M().nVertices(), M().nFaces())));
    switch (op.kind) {
    case R_edit:
      if (poly || !triangular()) return;
      { double lo = 0; (void)lo; }
      W.edit(arg(op, 0), arg(op, 1), arg(op, 2), ctx);
      return;
    case R_meshOp: {
      if (!poly) return;
      std::vector<double> w(MO_COUNT, 1.0);
      w[MO_switchSides] = 0;
      Op q = op;
      Rng r(arg(op, 0));
      q.kind = randomMeshOp(r, w).kind;
      if (M().nFaces() > 80) return;
      Snap S = snapshotChecked(M());
      applyMeshOp(M(), q, ctx, false, &S);
      for (Vertex v : M().vertices()) if (norm(pos(v)) == 0) G().inputVertexPositions[v] = Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
      if (hasTinyFace(snapshotChecked(M()))) throw Discard{"tiny face"};
      G().refreshQuantities();
      return;
    }
    case R_require:
      if (!poly) W.requireSome(arg(op, 0), ctx);
      return;
    case R_unrequire: W.unrequireSome(arg(op, 0)); return;
    case R_purge:
      if (!leaky && !poly) W.checkHeld("leaked-quantity", "remeshing operations");
      else G().purgeQuantities();
      ctx.count("purge");
      return;
    case R_constrain: constrain(op); return;
    case R_unconstrain:
      mm->clearRepositionableVertices(); mm->clearSplittableEdges(); mm->clearCollapsibleEdges(); mm->clearFlippableEdges();
      fixedV = fixedS = fixedC = fixedF = false;
      return;
    case R_newManager: manager(); return;
    }
    if (meanLength() < 1e-6) { ctx.count("left-domain.shrunk-to-a-point"); throw End(); } // simplified away
    wasCompressedBefore = M().isCompressed();
    if (!poly && (op.kind == R_linear || op.kind == R_catmull)) // most quantities are for triangle meshes only
      for (size_t i = 0; i < qCount(); i++)
        for (; W.userReq[i] > 0; W.userReq[i]--) qUnrequire(i, G());
    switch (op.kind) {
    case R_laplacian: if (!poly && triangular()) smooth(op, true); break;
    case R_circum: if (!poly && triangular()) smooth(op, false); break;
    case R_delaunay: if (!poly && triangular()) delaunay(op); break;
    case R_adjust: if (!poly && triangular()) adjust(op); break;
    case R_remesh: if (!poly && triangular()) remeshOp(op); break;
    case R_loop: if (!poly && triangular()) subdivide(op, 0); break;
    case R_linear: subdivide(op, 1); if (!poly) throw End(); break;
    case R_catmull: subdivide(op, 2); if (!poly) throw End(); break;
    case R_simplify: if (!poly && triangular()) simplify(op); break;
    case R_cut: cut(op); break;
    }
  }
  bool triangular() {
    for (Face f : M().faces()) if (f.degree() != 3) return false;
    return true;
  }
};

static Register reg([] {
  Scenario s;
  s.name = "remeshing";
  s.property = "C11";
  s.opNames = rNames;
  s.realComponents = "remeshing, subdivision, quadric error simplification, cutting, MutationManager, meshes, geometries (real code)";
  s.stubComponents = "mutation policies (simulated: observe, judge and interrupt)";
  s.rule = "a run edits a mesh, holds and drops quantities, sets and clears constraints, and runs the algorithms on it in any order under a policy which judges every single mutation; results are "
           "compared with models and with the same operation in a fresh world";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["poly"] = r.chance(.2) ? 1 : 0;
    h.cfg["kind"] = (i64)r.below((u64)nManifoldKinds);
    h.cfg["shape"] = (i64)r.below(AS_COUNT);
    h.cfg["size"] = r.range(1, tier ? 4 : 3);
    std::vector<double> w(R_COUNT, 1.0);
    w[R_edit] = 4; w[R_meshOp] = h.cfg["poly"] ? 5 : 0; w[R_constrain] = 1.2; w[R_unconstrain] = .4; w[R_newManager] = .3; w[R_linear] = w[R_catmull] = .5;
    size_t n = (size_t)r.range(4, tier ? 24 : 14), pre = (size_t)r.below(10);
    for (size_t i = 0; i < n + pre; i++) {
      Op o;
      o.kind = i < pre ? (h.cfg["poly"] ? (int)R_meshOp : (int)R_edit) : (int)r.weighted(w);
      for (int k = 0; k < 3; k++) o.a.push_back(r.next());
      if (fm && o.kind >= R_laplacian && o.kind < R_linear && r.chance(.3)) { o.fault = 1; o.fa = r.next() >> 20; }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Run run(h, ctx);
    try {
      for (auto& op : h.ops) run.step(op);
    } catch (const End&) {
    }
    if (!run.leaky && !run.poly && run.triangular()) run.W.checkHeld("leaked-quantity", "remeshing operations");
    ctx.nontrivial = run.any;
  };
  return s;
}());
} // namespace
