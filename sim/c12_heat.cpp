// C12: heat methods. Persistent solvers on a mesh with a history of edits, next to fresh solvers on equivalent worlds
// (compressed, scaled and rotated, known by its edge lengths only) and direct dense implementations of the definitions.
#include "algworld.h"
#include "geometrycentral/surface/heat_method_distance.h"
#include "geometrycentral/surface/polygon_mesh_heat_solver.h"
#include "geometrycentral/surface/signed_heat_method.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/vector_heat_method.h"
#include <Eigen/Dense>
using namespace sim;

namespace {
enum OpH { H_edit, H_require, H_unrequire, H_purge, H_drop, H_distance, H_robust, H_extend, H_transport, H_logmap, H_diffuse, H_signed, H_unsignedCurve, H_setT, H_poly, H_polySigned, H_COUNT };
const std::vector<std::string> hNames = {"edit", "require", "unrequire", "purge", "dropSolvers", "distance", "robustDistance", "extendScalar", "transport", "logMap", "diffuse", "signedDistance", "unsignedCurve", "setDiffusionTime", "polygonSolver", "polygonSigned"};
typedef std::complex<double> cd;
typedef Eigen::MatrixXd MX;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXd VX;
typedef Eigen::VectorXcd VC;
typedef std::vector<double> DV;

struct Pt { // a surface point named in the common order
  int type; // 0 vertex, 1 edge, 2 face
  size_t i;
  double t;
  Vector3 b;
};
SurfacePoint at(const View& w, const Pt& p) {
  if (p.type == 0) return SurfacePoint(w.V[p.i]);
  if (p.type == 1) return SurfacePoint(w.E[p.i], p.t);
  return SurfacePoint(w.F[p.i], p.b);
}
struct CurveSpec {
  std::vector<Pt> nodes;
  bool isSigned = true;
};
std::vector<Curve> at(const View& w, const std::vector<CurveSpec>& cs) {
  std::vector<Curve> r;
  for (auto& c : cs) {
    Curve k;
    k.isSigned = c.isSigned;
    for (auto& p : c.nodes) k.nodes.push_back(at(w, p));
    r.push_back(k);
  }
  return r;
}

struct Solvers {
  std::unique_ptr<HeatMethodDistanceSolver> hmd, robust;
  std::unique_ptr<VectorHeatMethodSolver> vhm;
  std::unique_ptr<SignedHeatSolver> shm;
  std::unique_ptr<PolygonMeshHeatSolver> poly;
  double tC = 1, shmT = 1;
  HeatMethodDistanceSolver& H(View& w) { if (!hmd) hmd.reset(new HeatMethodDistanceSolver(*w.geom, tC)); return *hmd; }
  HeatMethodDistanceSolver& R(View& w) { if (!robust) robust.reset(new HeatMethodDistanceSolver(*w.geom, tC, true)); return *robust; }
  VectorHeatMethodSolver& V(View& w) { if (!vhm) vhm.reset(new VectorHeatMethodSolver(*w.geom, tC)); return *vhm; }
  SignedHeatSolver& S(View& w) { if (!shm) shm.reset(new SignedHeatSolver(*w.geom, shmT)); return *shm; }
  PolygonMeshHeatSolver& P(View& w) { if (!poly) poly.reset(new PolygonMeshHeatSolver(*w.vpg, tC)); return *poly; }
};

DV flat(const VertexData<double>& d, const View& w) { return w.dense(d); }
DV flat(const VertexData<Vector2>& d, const View& w) {
  DV r;
  for (Vertex v : w.V) { r.push_back(d[v].x); r.push_back(d[v].y); }
  return r;
}
double maxAbs(const DV& a) {
  double m = 0;
  for (double x : a) m = std::max(m, std::fabs(x));
  return m;
}
bool finite(const DV& a) {
  for (double x : a) if (!std::isfinite(x)) return false;
  return true;
}
double diffMax(const DV& a, const DV& b) {
  double m = 0;
  for (size_t i = 0; i < a.size(); i++) m = std::max(m, std::fabs(a[i] - b[i]));
  return m;
}

// The definitions, written down densely on a compressed copy
// Eigen's rcond() is meaningless where a pivot is exactly zero
template <class LU> bool regular(const LU& lu, double tol) {
  auto d = lu.matrixLU().diagonal().cwiseAbs();
  return d.minCoeff() > tol * d.maxCoeff() && lu.rcond() > tol;
}

struct Ref {
  View w;
  size_t n, nE, nF;
  std::vector<Vector3> P;
  std::vector<std::array<size_t, 3>> T; // vertices of faces
  std::vector<std::array<size_t, 3>> TE; // edges of faces: TE[f][k] from corner k to k+1
  std::vector<std::pair<size_t, size_t>> EV;
  std::vector<Vector3> N;
  MX L;
  VX M;
  double mean = 0, minCot = 1e100, diam = 0;
  Ref(View v) : w(std::move(v)) {
    n = w.V.size(); nE = w.E.size(); nF = w.F.size();
    for (Vertex x : w.V) P.push_back(w.vpg->inputVertexPositions[x]);
    for (Face f : w.F) {
      std::array<size_t, 3> t, e;
      int k = 0;
      for (Halfedge h : f.adjacentHalfedges()) { t[k] = h.vertex().getIndex(); e[k++] = h.edge().getIndex(); }
      T.push_back(t); TE.push_back(e);
      Vector3 c = cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]]);
      N.push_back(c / norm(c));
    }
    for (Edge e : w.E) {
      EV.push_back({e.halfedge().vertex().getIndex(), e.halfedge().twin().vertex().getIndex()});
      mean += norm(P[EV.back().first] - P[EV.back().second]);
    }
    mean /= (double)nE;
    L = MX::Zero((long)n, (long)n);
    M = VX::Zero((long)n);
    std::vector<double> ec(nE, 0.);
    for (size_t f = 0; f < nF; f++) {
      double A = .5 * norm(cross(P[T[f][1]] - P[T[f][0]], P[T[f][2]] - P[T[f][0]]));
      for (int k = 0; k < 3; k++) {
        long a = (long)T[f][(size_t)k], b = (long)T[f][(size_t)(k + 1) % 3];
        double c = hc(f, k);
        L(a, a) += c; L(b, b) += c; L(a, b) -= c; L(b, a) -= c;
        M(a) += A / 3;
        ec[TE[f][(size_t)k]] += c;
      }
    }
    for (double c : ec) minCot = std::min(minCot, c);
    for (auto& p : P) diam = std::max(diam, norm(p - P[0]));
  }
  // half the cotan of the angle opposite of side k of face f
  double hc(size_t f, int k) const {
    Vector3 o = P[T[f][(size_t)(k + 2) % 3]], a = P[T[f][(size_t)k]] - o, b = P[T[f][(size_t)(k + 1) % 3]] - o;
    return .5 * dot(a, b) / norm(cross(a, b));
  }
  double angle(size_t f, int k) const {
    Vector3 o = P[T[f][(size_t)k]], a = P[T[f][(size_t)(k + 1) % 3]] - o, b = P[T[f][(size_t)(k + 2) % 3]] - o;
    return std::atan2(norm(cross(a, b)), dot(a, b));
  }
  // a point as weights on vertices, and as a point in space
  std::vector<std::pair<size_t, double>> weights(const Pt& p) const {
    if (p.type == 0) return {{p.i, 1.}};
    if (p.type == 1) return {{EV[p.i].first, 1 - p.t}, {EV[p.i].second, p.t}};
    return {{T[p.i][0], p.b.x}, {T[p.i][1], p.b.y}, {T[p.i][2], p.b.z}};
  }
  Vector3 place(const Pt& p) const {
    Vector3 r{0, 0, 0};
    for (auto& x : weights(p)) r += x.second * P[x.first];
    return r;
  }
  bool inFace(const Pt& p, size_t f) const {
    if (p.type == 2) return p.i == f;
    if (p.type == 1) return TE[f][0] == p.i || TE[f][1] == p.i || TE[f][2] == p.i;
    return T[f][0] == p.i || T[f][1] == p.i || T[f][2] == p.i;
  }
  bool onEdge(const Pt& p, size_t e) const {
    if (p.type == 2) return false;
    if (p.type == 1) return p.i == e;
    return EV[e].first == p.i || EV[e].second == p.i;
  }
  size_t commonEdge(const Pt& a, const Pt& b) const {
    for (size_t e = 0; e < nE; e++) if (onEdge(a, e) && onEdge(b, e)) return e;
    return NONE;
  }
  size_t commonFace(const Pt& a, const Pt& b) const {
    for (size_t f = 0; f < nF; f++) if (inFace(a, f) && inFace(b, f)) return f;
    return NONE;
  }
  double time(double tC) const { return tC * mean * mean; }
  VX heat(const VX& r, double tC) const {
    MX A = time(tC) * L;
    A.diagonal() += M;
    return A.ldlt().solve(r);
  }
  VX divergence(const std::vector<Vector3>& X) const {
    VX d = VX::Zero((long)n);
    for (size_t f = 0; f < nF; f++)
      for (int k = 0; k < 3; k++) {
        size_t a = T[f][(size_t)k], b = T[f][(size_t)(k + 1) % 3];
        double v = hc(f, k) * dot(P[b] - P[a], X[f]);
        d((long)a) += v;
        d((long)b) -= v;
      }
    return d;
  }
  VX gauge(const VX& d) const { // the solution with zero mean
    MX A = L + MX::Constant((long)n, (long)n, 1. / (double)n);
    return A.ldlt().solve(d);
  }
  // false: rounding decides
  bool distance(const std::vector<Pt>& src, double tC, DV& out) const {
    VX r = VX::Zero((long)n);
    for (auto& p : src) for (auto& x : weights(p)) r((long)x.first) += x.second;
    VX u = heat(r, tC);
    std::vector<Vector3> X(nF);
    double umax = u.cwiseAbs().maxCoeff();
    for (size_t f = 0; f < nF; f++) {
      Vector3 g{0, 0, 0};
      double s = 0;
      for (int k = 0; k < 3; k++) {
        Vector3 o = P[T[f][(size_t)(k + 2) % 3]] - P[T[f][(size_t)(k + 1) % 3]];
        g += cross(N[f], o) * u((long)T[f][(size_t)k]);
        s = std::max(s, norm(o));
      }
      if (norm(g) < 1e-8 * umax * s) return false;
      X[f] = g / norm(g);
    }
    VX d = gauge(divergence(X));
    double shift = 0, W = 0;
    for (auto& p : src) {
      Vector3 q = place(p);
      for (auto& x : weights(p)) { shift += x.second * (d((long)x.first) - norm(q - P[x.first])); W += x.second; }
    }
    shift /= W;
    out.clear();
    for (size_t i = 0; i < n; i++) out.push_back(d((long)i) - shift);
    return true;
  }
  // --- vector heat
  MC conn() { // M + t L of the connection is assembled from the geometry, which other properties verify
    w.geom->requireVertexConnectionLaplacian();
    MC r = MC(w.geom->vertexConnectionLaplacian);
    w.geom->unrequireVertexConnectionLaplacian();
    return r;
  }
  VC vheat(const VC& r, double tC) {
    MC A = time(tC) * conn();
    A.diagonal() += M.cast<cd>();
    return A.partialPivLu().solve(r);
  }
};

// ---- the run -----------------------------------------------------------------------------------------------------
struct Run {
  const History& h;
  Ctx& ctx;
  AlgWorld W;
  View self;
  Solvers S;
  bool dirty = true;    // the views must be rebuilt
  bool leaky = false;   // an injected failure may leave quantities required
  bool any = false;
  std::unique_ptr<Ref> R;
  double tC = 1, shmT = 1;
  Run(const History& hh, Ctx& c) : h(hh), ctx(c) {
    W.build(h);
    static const double ts[4] = {1, 1, .5, 3};
    tC = ts[h.get("t") % 4];
  }
  void refresh() {
    if (!dirty) return;
    S = Solvers();
    S.tC = tC; S.shmT = shmT;
    self = W.self();
    R.reset(new Ref(W.compressed()));
    dirty = false;
    u64 st = hcomb(hcomb((u64)W.shape, self.V.size()), self.F.size() * 3 + (R->minCot > 0 ? 1 : 0));
    st = hcomb(st, W.mesh->isCompressed());
    ctx.state(st);
    ctx.ev(st);
  }
  Pt point(Rng& r, int maxType = 2) {
    Pt p;
    p.type = r.chance(.4) ? 0 : (int)r.below((u64)maxType + 1);
    p.t = r.chance(.1) ? (r.chance(.5) ? 0. : 1.) : r.real(.05, .95);
    double a = r.real(.05, 1), b = r.real(.05, 1), c = r.real(.05, 1);
    p.b = Vector3{a, b, c} / (a + b + c);
    p.i = (size_t)r.below(p.type == 0 ? self.V.size() : p.type == 1 ? self.E.size() : self.F.size());
    return p;
  }
  std::vector<Pt> points(Rng& r, int maxType = 2) {
    std::vector<Pt> v;
    size_t k = 1 + (size_t)r.below(r.chance(.5) ? 1 : 4);
    for (size_t i = 0; i < k; i++) v.push_back(point(r, maxType));
    return v;
  }
  // A query f(view, solvers) -> numbers; `power`: how the result scales with the geometry. Runs on every world.
  bool skipScaled = false;
  template <class F> DV everywhere(const Op& op, const char* name, F f, int power, bool intrinsic, double tol = 1e-6) {
    DV a;
    bool threw = false;
    std::string why;
    if (op.fault) {
      ctx.fault("allocation-failure-armed");
      seam::allocArm((i64)(op.fa % 4000));
      bool failed = false;
      try {
        a = f(self, S);
      } catch (const std::bad_alloc&) {
        failed = true;
      } catch (const std::exception&) { // an allocation failure inside of the sparse solvers is reported in their own way
        failed = true;
      }
      if (seam::allocDisarm()) { ctx.fault("allocation-failure"); leaky = leaky || failed; }
    }
    try {
      a = f(self, S);
    } catch (const std::exception& e) { threw = true; why = e.what(); }
    CHECK(!threw, "query-throws", "%s on a valid %s: %s", name, "mesh", why.c_str());
    CHECK(finite(a), "finite", "%s gives non-finite values", name);
    Rng r(hcomb(arg(op, 0), 77));
    for (int k = 0; k < 3; k++) {
      if (k == 2 && !intrinsic) continue;
      if (k == 1 && skipScaled) continue;
      if (!r.chance(k == 0 ? .5 : .3)) continue;
      View w = k == 0 ? W.compressed() : k == 1 ? W.transformed(arg(op, 1)) : W.lengthsOnly();
      if (w.V.empty()) w.index();
      Solvers T;
      T.tC = tC; T.shmT = shmT;
      DV b;
      try {
        b = f(w, T);
      } catch (const std::exception& e) { threw = true; why = e.what(); }
      CHECK(!threw, "query-throws", "%s on world %d: %s", name, k, why.c_str());
      double sc = std::pow(w.scale, power);
      for (auto& x : b) x /= sc;
      double m = maxAbs(a), d = diffMax(a, b);
      static const char* wn[3] = {"a compressed copy", "a scaled and rotated copy", "the same edge lengths"};
      if (ctx.verbose && getenv("SIM_DUMP") && a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) fprintf(stderr, "  %zu: self %.10g world %d: %.10g\n", i, a[i], k, b[i]);
      CHECK(d <= tol * (m + (power == 1 ? R->diam : 0)), "worlds-differ", "%s differs on %s by %g (size %g)", name, wn[k], d, m);
      ctx.count("world-compared");
    }
    any = true;
    ctx.count(name);
    return a;
  }
  void same(const DV& a, const DV& b, double tol, double scale, const char* clause, const char* name) {
    double d = diffMax(a, b);
    if (ctx.verbose) {
      fprintf(stderr, "%s %s: diff %g scale %g\n", name, clause, d, scale);
      if (getenv("SIM_DUMP")) for (size_t i = 0; i < a.size(); i++) fprintf(stderr, "  %zu: %.10g %.10g\n", i, a[i], b[i]);
    }
    CHECK(d <= tol * scale, clause, "%s is off by %g (size %g) from its definition", name, d, scale);
    ctx.count("judged");
  }

  void distance(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<Pt> src = points(r);
    bool verts = true;
    for (auto& p : src) verts = verts && p.type == 0;
    int how = (int)r.below(3);
    DV a = everywhere(op, "distance", [&](View& w, Solvers& s) {
      std::vector<SurfacePoint> sp;
      std::vector<Vertex> sv;
      for (auto& p : src) { sp.push_back(at(w, p)); if (p.type == 0) sv.push_back(w.V[p.i]); }
      if (verts && src.size() == 1 && how == 0 && tC == 1) return flat(heatMethodDistance(*w.geom, sv[0]), w);
      if (verts && src.size() == 1 && how == 1) return flat(s.H(w).computeDistance(sv[0]), w);
      if (verts && how == 2) return flat(s.H(w).computeDistance(sv), w);
      if (src.size() == 1 && how == 1) return flat(s.H(w).computeDistance(sp[0]), w);
      return flat(s.H(w).computeDistance(sp), w);
    }, 1, true, 1e-5);
    DV b;
    if (R->distance(src, tC, b)) same(a, b, 2e-5, R->diam + maxAbs(b), "distance", "heat method distance");
    else ctx.count("ill-conditioned");
  }
  void robust(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<Pt> src = points(r, 0);
    auto q = [&](View& w, Solvers& s) {
      std::vector<Vertex> sv;
      for (auto& p : src) sv.push_back(w.V[p.i]);
      return flat(s.R(w).computeDistance(sv), w);
    };
    // the same in the intrinsic Delaunay triangulation, when that is unique
    View c = W.compressed();
    SignpostIntrinsicTriangulation tri(*c.mesh, *c.geom);
    tri.flipToDelaunay();
    tri.requireEdgeCotanWeights();
    bool generic = true;
    for (Edge e : tri.intrinsicMesh->edges())
      if (!e.isBoundary() && tri.edgeCotanWeights[e] < 1e-3) generic = false;
    if (!generic) { // ties: which of the equal triangulations it uses may differ between the worlds
      seam::AllocQuiet quiet;
      q(self, S);
      ctx.count("delaunay-tie");
      return;
    }
    DV a = everywhere(op, "robustDistance", q, 1, true, 1e-4);
    HeatMethodDistanceSolver plain(tri, tC);
    std::vector<Vertex> sv;
    for (auto& p : src) sv.push_back(tri.intrinsicMesh->vertex(p.i));
    VertexData<double> d = plain.computeDistance(sv);
    DV b;
    for (size_t i = 0; i < self.V.size(); i++) b.push_back(d[tri.intrinsicMesh->vertex(i)]);
    DV chk;
    if (!R->distance(src, tC, chk)) { ctx.count("ill-conditioned"); return; }
    same(a, b, 1e-4, R->diam + maxAbs(b), "robust-distance", "distance by the robust Laplacian");
  }
  void extend(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<Pt> src = points(r);
    DV val;
    bool constant = r.chance(.25), verts = true;
    for (auto& p : src) { val.push_back(constant && !val.empty() ? val[0] : r.real(-2, 3)); verts = verts && p.type == 0; }
    bool useVerts = verts && r.chance(.5);
    DV a = everywhere(op, "extendScalar", [&](View& w, Solvers& s) {
      std::vector<std::tuple<SurfacePoint, double>> sp;
      std::vector<std::tuple<Vertex, double>> sv;
      for (size_t i = 0; i < src.size(); i++) {
        sp.emplace_back(at(w, src[i]), val[i]);
        if (useVerts) sv.emplace_back(w.V[src[i].i], val[i]);
      }
      return useVerts ? flat(s.V(w).extendScalar(sv), w) : flat(s.V(w).extendScalar(sp), w);
    }, 0, true, 1e-5);
    VX d = VX::Zero((long)R->n), o = d;
    for (size_t i = 0; i < src.size(); i++)
      for (auto& x : R->weights(src[i])) { d((long)x.first) += val[i] * x.second; o((long)x.first) += x.second; }
    VX sd = R->heat(d, tC), so = R->heat(o, tC);
    double mx = so.cwiseAbs().maxCoeff();
    DV b;
    bool ok = true;
    for (size_t i = 0; i < R->n; i++) { b.push_back(sd((long)i) / so((long)i)); if (std::fabs(so((long)i)) < 1e-8 * mx) ok = false; }
    if (!ok) { ctx.count("ill-conditioned"); return; }
    same(a, b, 1e-5, 3 + maxAbs(b), "extend-scalar", "scalar extension");
    double lo = *std::min_element(val.begin(), val.end()), hi = *std::max_element(val.begin(), val.end());
    if (R->minCot > -1e-12)
      for (double x : a) CHECK(x >= lo - 1e-5 && x <= hi + 1e-5, "extend-bounds", "scalar extension gives %g, outside of the range %g to %g of its sources", x, lo, hi);
    if (constant) for (double x : a) CHECK(std::fabs(x - val[0]) < 1e-5, "extend-constant", "extension of the constant %g gives %g", val[0], x);
  }
  // vectors at the sources as vectors in space/vertex bases
  void transport(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<Pt> src = points(r);
    std::vector<Vector2> vec;
    bool verts = true;
    for (auto& p : src) { vec.push_back(r.real(.3, 2) * Vector2::fromAngle(r.real(0, 6.28))); verts = verts && p.type == 0; }
    int how = (int)r.below(2);
    DV a = everywhere(op, "transport", [&](View& w, Solvers& s) {
      std::vector<std::tuple<SurfacePoint, Vector2>> sp;
      std::vector<std::tuple<Vertex, Vector2>> sv;
      for (size_t i = 0; i < src.size(); i++) {
        sp.emplace_back(at(w, src[i]), vec[i]);
        if (verts) sv.emplace_back(w.V[src[i].i], vec[i]);
      }
      if (verts && how && src.size() == 1) return flat(s.V(w).transportTangentVector(w.V[src[0].i], vec[0]), w);
      if (verts && how) return flat(s.V(w).transportTangentVectors(sv), w);
      return flat(s.V(w).transportTangentVectors(sp), w);
    }, 0, true, 1e-4);
    // definition
    IntrinsicGeometryInterface& g = *R->w.geom;
    g.requireHalfedgeVectorsInVertex();
    VC rhs = VC::Zero((long)R->n);
    VX m = VX::Zero((long)R->n), o = m;
    for (size_t i = 0; i < src.size(); i++) {
      Vector2 u = vec[i] / norm(vec[i]);
      const Pt& p = src[i];
      for (auto& x : R->weights(p)) { m((long)x.first) += norm(vec[i]) * x.second; o((long)x.first) += x.second; }
      if (p.type == 0) rhs((long)p.i) += cd(u.x, u.y);
      if (p.type == 1) {
        Halfedge he = R->w.E[p.i].halfedge();
        double ang = std::atan2(u.y, u.x); // from the direction of the edge
        rhs((long)he.vertex().getIndex()) += (1 - p.t) * std::polar(1., ang + g.halfedgeVectorsInVertex[he].arg());
        rhs((long)he.twin().vertex().getIndex()) += p.t * std::polar(1., ang + M_PI + g.halfedgeVectorsInVertex[he.twin()].arg());
      }
      if (p.type == 2) {
        // angle of each side of the face, with the first one along the x-axis
        double dir = 0;
        int k = 0;
        for (Halfedge he : R->w.F[p.i].adjacentHalfedges()) {
          rhs((long)he.vertex().getIndex()) += p.b[(size_t)k] * std::polar(1., std::atan2(u.y, u.x) - dir + g.halfedgeVectorsInVertex[he].arg());
          dir += M_PI - R->angle(p.i, (k + 1) % 3);
          k++;
        }
      }
    }
    g.unrequireHalfedgeVectorsInVertex();
    VC x = R->vheat(rhs, tC);
    double mx = x.cwiseAbs().maxCoeff();
    VX mag = VX::Constant((long)R->n, norm(vec[0]));
    if (src.size() > 1) {
      VX sm = R->heat(m, tC), so = R->heat(o, tC);
      if (so.cwiseAbs().minCoeff() < 1e-8 * so.cwiseAbs().maxCoeff()) { ctx.count("ill-conditioned"); return; }
      mag = sm.cwiseQuotient(so);
    }
    DV b, aj;
    for (size_t i = 0; i < R->n; i++) {
      cd z = x((long)i);
      if (std::abs(z) < 1e-7 * mx) { ctx.count("vector-vanishes"); continue; }
      z *= mag((long)i) / std::abs(z);
      b.push_back(z.real()); b.push_back(z.imag());
      aj.push_back(a[2 * i]); aj.push_back(a[2 * i + 1]);
    }
    if (!b.empty()) same(aj, b, 1e-4, maxAbs(b), "transport", "vector heat transport");
  }
  DV logVertex(size_t v, int strat, double tc, bool& ok) {
    View& w = R->w;
    IntrinsicGeometryInterface& g = *w.geom;
    g.requireHalfedgeVectorsInVertex();
    g.requireEdgeCotanWeights();
    auto HV = [&](Halfedge he) { return (cd)g.halfedgeVectorsInVertex[he]; };
    long n = (long)R->n;
    VC e = VC::Zero(n);
    e((long)v) = 1;
    VC hor = R->vheat(e, tc);
    double hm = hor.cwiseAbs().maxCoeff();
    for (long i = 0; i < n; i++) { if (std::abs(hor(i)) < 1e-6 * hm) ok = false; hor(i) /= std::abs(hor(i)); }
    DV out;
    if (strat == 0) {
      VC rhs = VC::Zero(n);
      // integral of the outward unit radial field over the corners around v, tested with the hat functions' transports:
      // the closed forms of the paper, per triangle
      for (size_t f = 0; f < R->nF; f++)
        for (int k = 0; k < 3; k++) {
          if (R->T[f][(size_t)k] != v) continue;
          Halfedge he = w.F[f].halfedge();
          for (int q = 0; q < k; q++) he = he.next();
          Halfedge pr = he.next().next();
          double A = .5 * norm(cross(R->P[R->T[f][1]] - R->P[R->T[f][0]], R->P[R->T[f][2]] - R->P[R->T[f][0]]));
          Vector3 pi = R->P[v], pj = R->P[he.next().vertex().getIndex()], pk = R->P[pr.vertex().getIndex()];
          double th = R->angle(f, k), la = norm(pj - pi), lb = norm(pk - pi), lo = norm(pk - pj);
          double hi = 2 * A / lo, hj = 2 * A / lb, hk = 2 * A / la;
          double ga = R->angle(f, (k + 1) % 3), al = M_PI / 2 - ga;
          rhs((long)he.next().vertex().getIndex()) += cd(-th * sin(th), th * cos(th) - sin(th)) / (2 * hj) * HV(he.twin()) / std::abs(HV(he.twin()));
          rhs((long)pr.vertex().getIndex()) += cd(-th * sin(th), -(th * cos(th) - sin(th))) / (2 * hk) * HV(pr) / std::abs(HV(pr));
          rhs((long)v) += cd(-(th * cos(al) + cos(al - th) * sin(th)) / (2 * hi), -(cos(al) - cos(al - 2 * th) + 2 * th * sin(al)) / (4 * hi)) * HV(he) / std::abs(HV(he));
        }
      VC rad = R->vheat(rhs, tc);
      double rm = rad.cwiseAbs().maxCoeff();
      for (long i = 0; i < n; i++) { if (std::abs(rad(i)) < 1e-6 * rm && i != (long)v) ok = false; rad(i) /= std::abs(rad(i)); }
      rad((long)v) = 0;
      VX d = VX::Zero(n);
      for (Halfedge he : w.mesh->halfedges()) {
        size_t a = he.vertex().getIndex(), b = he.twin().vertex().getIndex();
        cd rot = -HV(he) / HV(he.twin());
        cd avg = .5 * (rad((long)a) + rot / std::abs(rot) * rad((long)b));
        d((long)a) -= g.edgeCotanWeights[he.edge()] * (std::conj(avg) * HV(he)).real();
      }
      VX x = R->gauge(d);
      for (long i = 0; i < n; i++) {
        cd z = rad(i) / hor(i) * (x(i) - x((long)v));
        out.push_back(z.real()); out.push_back(z.imag());
      }
    } else {
      MX A = MX::Zero(3 * n, 3 * n);
      double t = R->time(tc);
      for (long i = 0; i < n; i++) for (int p = 0; p < 3; p++) A(3 * i + p, 3 * i + p) += R->M(i);
      for (Halfedge he : w.mesh->halfedges()) {
        long a = (long)he.vertex().getIndex(), b = (long)he.twin().vertex().getIndex();
        double c = g.edgeCotanWeights[he.edge()];
        MX tr = MX::Identity(3, 3);
        cd rot = 1, tl;
        if (strat == 1) { rot = -HV(he) / HV(he.twin()); rot /= std::abs(rot); tl = -HV(he); }
        else tl = -HV(he) / hor(a);
        tr << rot.real(), -rot.imag(), tl.real(), rot.imag(), rot.real(), tl.imag(), 0, 0, 1;
        for (int p = 0; p < 3; p++) A(3 * a + p, 3 * a + p) += t * c;
        A.block(3 * a, 3 * b, 3, 3) -= t * c * tr;
      }
      VX rhs = VX::Zero(3 * n);
      rhs(3 * (long)v + 2) = 1;
      auto lu = A.partialPivLu();
      if (!regular(lu, 1e-9)) ok = false;
      VX s = lu.solve(rhs);
      double zm = 0;
      for (long i = 0; i < n; i++) zm = std::max(zm, std::fabs(s(3 * i + 2)));
      for (long i = 0; i < n; i++) {
        if (std::fabs(s(3 * i + 2)) < 1e-7 * zm) ok = false;
        cd z = cd(s(3 * i), s(3 * i + 1)) / s(3 * i + 2);
        if (strat == 1) z /= hor(i);
        out.push_back(z.real()); out.push_back(z.imag());
      }
    }
    g.unrequireHalfedgeVectorsInVertex();
    g.unrequireEdgeCotanWeights();
    return out;
  }
  void logmap(const Op& op) {
    Rng r(arg(op, 0));
    Pt p = point(r);
    int strat = (int)r.below(3);
    LogMapStrategy st = strat == 0 ? LogMapStrategy::VectorHeat : strat == 1 ? LogMapStrategy::AffineLocal : LogMapStrategy::AffineAdaptive;
    bool direct = r.chance(.5);
    // judge only where the definition is well conditioned
    std::vector<std::tuple<size_t, double, cd>> parts; // vertex, weight, rotation to the tangent space of the point
    IntrinsicGeometryInterface& g = *R->w.geom;
    g.requireHalfedgeVectorsInVertex();
    if (p.type == 0) parts.push_back(std::make_tuple(p.i, 1., cd(1)));
    if (p.type == 1) {
      Halfedge he = R->w.E[p.i].halfedge();
      parts.push_back(std::make_tuple(he.vertex().getIndex(), 1 - p.t, std::polar(1., -g.halfedgeVectorsInVertex[he].arg())));
      parts.push_back(std::make_tuple(he.twin().vertex().getIndex(), p.t, std::polar(1., M_PI - g.halfedgeVectorsInVertex[he.twin()].arg())));
    }
    if (p.type == 2) {
      double dir = 0;
      int k = 0;
      for (Halfedge he : R->w.F[p.i].adjacentHalfedges()) {
        parts.push_back(std::make_tuple(he.vertex().getIndex(), p.b[(size_t)k], std::polar(1., dir - g.halfedgeVectorsInVertex[he].arg())));
        dir += M_PI - R->angle(p.i, (k + 1) % 3);
        k++;
      }
    }
    g.unrequireHalfedgeVectorsInVertex();
    bool ok = true;
    DV b(2 * R->n, 0.);
    for (auto& x : parts) {
      DV l = logVertex(std::get<0>(x), strat, tC, ok);
      for (size_t i = 0; i < R->n; i++) {
        cd z = std::get<1>(x) * std::get<2>(x) * cd(l[2 * i], l[2 * i + 1]);
        b[2 * i] += z.real(); b[2 * i + 1] += z.imag();
      }
    }
    if (!ok) { ctx.count("ill-conditioned"); return; }
    DV a = everywhere(op, "logMap", [&](View& w, Solvers& s) {
      if (p.type == 0 && direct) return strat == 0 ? flat(s.V(w).computeLogMap(w.V[p.i]), w) : flat(s.V(w).computeLogMap(w.V[p.i], st), w);
      return flat(s.V(w).computeLogMap(at(w, p), st), w);
    }, 1, true, 1e-3);
    static const char* nm[3] = {"VectorHeat log map", "AffineLocal log map", "AffineAdaptive log map"};
    same(a, b, 1e-3, R->diam + maxAbs(b), "log-map", nm[strat]);
  }
  void diffuse(const Op& op) {
    Rng r(arg(op, 0));
    int which = (int)r.below(3);
    VC f((long)self.V.size());
    for (long i = 0; i < f.size(); i++) f(i) = r.chance(.3) ? 0. : cd(r.real(-1, 1), r.real(-1, 1));
    if (which == 2) f.array() -= f.mean();
    DV a = everywhere(op, which == 0 ? "scalarDiffuse" : which == 1 ? "vectorDiffuse" : "poissonSolve", [&](View& w, Solvers& s) {
      VertexData<double> x(*w.mesh);
      VertexData<cd> z(*w.mesh);
      double m = which < 2 ? w.scale * w.scale : 1; // diffusion divides by the mass
      for (size_t i = 0; i < w.V.size(); i++) { x[w.V[i]] = f((long)i).real() * m; z[w.V[i]] = f((long)i) * m; }
      if (which == 0) return flat(s.V(w).scalarDiffuse(x), w);
      DV o;
      if (which == 1) {
        VertexData<cd> q = s.V(w).vectorDiffuse(z);
        for (Vertex v : w.V) { o.push_back(q[v].real()); o.push_back(q[v].imag()); }
        return o;
      }
      o = flat(s.V(w).poissonSolve(x), w);
      double mean = 0; // up to a constant
      for (double y : o) mean += y / (double)o.size();
      for (double& y : o) y -= mean;
      return o;
    }, 0, true, 1e-5);
    DV b;
    if (which == 0) { VX x = R->heat(f.real(), tC); b.assign(x.data(), x.data() + x.size()); }
    if (which == 1) { VC x = R->vheat(f, tC); for (long i = 0; i < x.size(); i++) { b.push_back(x(i).real()); b.push_back(x(i).imag()); } }
    if (which == 2) { VX x = R->gauge(f.real()); b.assign(x.data(), x.data() + x.size()); }
    same(a, b, 1e-5, maxAbs(b) + 1e-300, "diffuse", which == 0 ? "scalarDiffuse" : which == 1 ? "vectorDiffuse" : "poissonSolve");
  }

  // ---- signed distance
  CurveSpec randomCurve(Rng& r) {
    CurveSpec c;
    int kind = (int)r.below(4);
    if (kind == 3 && W.shape != AS_prism && !W.flat) kind = 2;
    auto vIdx = [&](Vertex v) { return (size_t)v.getIndex(); };
    View& w = R->w;
    if (kind == 0) { // along edges
      Vertex v = w.V[r.below(w.V.size())];
      std::set<size_t> seen{vIdx(v)};
      c.nodes.push_back({0, vIdx(v), 0, {}});
      size_t len = 1 + (size_t)r.below(5);
      for (size_t k = 0; k < len; k++) {
        std::vector<Vertex> nb;
        for (Vertex u : v.adjacentVertices()) if (!seen.count(vIdx(u))) nb.push_back(u);
        if (nb.empty()) break;
        v = nb[r.below(nb.size())];
        seen.insert(vIdx(v));
        c.nodes.push_back({0, vIdx(v), 0, {}});
      }
    } else if (kind == 1) { // the ring around a vertex, closed
      for (int tries = 0; tries < 10 && c.nodes.empty(); tries++) {
        Vertex v = w.V[r.below(w.V.size())];
        if (v.isBoundary()) continue;
        std::set<size_t> seen;
        for (Halfedge he : v.outgoingHalfedges()) { c.nodes.push_back({0, vIdx(he.tipVertex()), 0, {}}); seen.insert(vIdx(he.tipVertex())); }
        if (seen.size() != c.nodes.size()) { c.nodes.clear(); continue; }
        c.nodes.push_back(c.nodes[0]);
        if (r.chance(.5)) std::reverse(c.nodes.begin(), c.nodes.end());
      }
    } else { // through faces, with pieces along edges
      size_t f = r.below(w.F.size());
      Pt p = {2, f, 0, {}};
      double x = r.real(.2, 1), y = r.real(.2, 1), z = r.real(.2, 1);
      p.b = Vector3{x, y, z} / (x + y + z);
      if (r.chance(.3)) p = {1, R->TE[f][r.below(3)], r.real(.1, .9), {}};
      c.nodes.push_back(p);
      std::set<size_t> used{f}, usedE;
      if (p.type == 1) usedE.insert(p.i);
      size_t len = 1 + (size_t)r.below(4);
      for (size_t k = 0; k < len; k++) {
        size_t e = NONE;
        for (int tries = 0; tries < 6; tries++) { size_t q = R->TE[f][r.below(3)]; if (!usedE.count(q)) { e = q; break; } }
        if (e == NONE) break;
        usedE.insert(e);
        Pt q = {1, e, r.real(.1, .9), {}};
        c.nodes.push_back(q);
        if (r.chance(.3)) { // on along this edge, to another point or to its end
          double t2 = q.t < .5 ? r.real(q.t + .1, .95) : r.real(.05, q.t - .1);
          if (r.chance(.5)) c.nodes.push_back({1, e, t2, {}});
          else c.nodes.push_back({0, t2 > q.t ? R->EV[e].second : R->EV[e].first, 0, {}});
          break;
        }
        size_t nf = NONE;
        for (size_t g = 0; g < R->nF; g++)
          if (!used.count(g) && (R->TE[g][0] == e || R->TE[g][1] == e || R->TE[g][2] == e)) nf = g;
        if (nf == NONE) break;
        f = nf;
        used.insert(f);
        if (k + 1 == len) {
          Pt q2 = {2, f, 0, {}};
          double a = r.real(.2, 1), b = r.real(.2, 1), d = r.real(.2, 1);
          q2.b = Vector3{a, b, d} / (a + b + d);
          c.nodes.push_back(q2);
        }
      }
    }
    if (c.nodes.size() < 2) c.nodes.clear();
    return c;
  }
  bool sameNode(const Pt& a, const Pt& b) const { return a.type == b.type && a.i == b.i && (a.type != 1 || a.t == b.t) && (a.type != 2 || norm(a.b - b.b) == 0); }
  // the definition of signed distance; false where it is ill-conditioned
  bool refSigned(const std::vector<CurveSpec>& cs, const std::vector<Pt>& pts, const SignedHeatOptions& o, DV& out) {
    long E = (long)R->nE, n = (long)R->n;
    IntrinsicGeometryInterface& g = *R->w.geom;
    g.requireCrouzeixRaviartConnectionLaplacian();
    g.requireCrouzeixRaviartMassMatrix();
    double t = shmT * .25 * R->mean * R->mean;
    MC A = t * MC(g.crouzeixRaviartConnectionLaplacian) + MC(MX(g.crouzeixRaviartMassMatrix).cast<cd>());
    g.unrequireCrouzeixRaviartConnectionLaplacian();
    g.unrequireCrouzeixRaviartMassMatrix();
    auto eh = [&](size_t e) { Vector3 d = R->P[R->EV[e].second] - R->P[R->EV[e].first]; return d / norm(d); };
    auto co = [&](size_t e, size_t f, Vector3 v) { return cd(dot(v, eh(e)), dot(v, cross(R->N[f], eh(e)))); };
    VC X0 = VC::Zero(E);
    for (auto& c : cs)
      for (size_t k = 0; k + 1 < c.nodes.size(); k++) {
        Vector3 a = R->place(c.nodes[k]), b = R->place(c.nodes[k + 1]);
        size_t e = R->commonEdge(c.nodes[k], c.nodes[k + 1]);
        if (e != NONE) { X0((long)e) += cd(0, dot(b - a, eh(e))); continue; }
        size_t f = R->commonFace(c.nodes[k], c.nodes[k + 1]);
        for (size_t q : R->TE[f]) X0((long)q) += co(q, f, cross(R->N[f], b - a));
      }
    for (auto& p : pts) {
      double sum = 0;
      for (size_t f = 0; f < R->nF; f++) for (int k = 0; k < 3; k++) if (R->T[f][(size_t)k] == p.i) sum += R->angle(f, k);
      for (size_t f = 0; f < R->nF; f++)
        for (int k = 0; k < 3; k++) {
          if (R->T[f][(size_t)k] != p.i) continue;
          Vector3 u = R->P[R->T[f][(size_t)(k + 1) % 3]] - R->P[p.i];
          u = u / norm(u);
          double th = R->angle(f, k);
          Vector3 v = (std::sin(th) * u + (1 - std::cos(th)) * cross(R->N[f], u)) / sum;
          for (size_t q : R->TE[f]) X0((long)q) += co(q, f, v);
        }
    }
    VC X;
    if (!o.preserveSourceNormals) X = A.partialPivLu().solve(X0);
    else {
      std::vector<VX> rows;
      for (auto& c : cs)
        for (size_t k = 0; k + 1 < c.nodes.size(); k++) {
          VX row = VX::Zero(2 * E);
          size_t e = R->commonEdge(c.nodes[k], c.nodes[k + 1]);
          if (e != NONE) row((long)e) = 1;
          else {
            size_t f = R->commonFace(c.nodes[k], c.nodes[k + 1]);
            Vector3 a = R->place(c.nodes[k]), b = R->place(c.nodes[k + 1]), m = .5 * (a + b);
            double A2 = norm(cross(R->P[R->T[f][1]] - R->P[R->T[f][0]], R->P[R->T[f][2]] - R->P[R->T[f][0]]));
            for (int q = 0; q < 3; q++) {
              size_t ed = R->TE[f][(size_t)q];
              double opp = norm(cross(R->P[R->T[f][(size_t)q]] - m, R->P[R->T[f][(size_t)(q + 1) % 3]] - m)) / A2;
              double wgt = 1 - 2 * opp;
              row((long)ed) += wgt * dot(b - a, eh(ed));
              row(E + (long)ed) += wgt * dot(b - a, cross(R->N[f], eh(ed)));
            }
          }
          rows.push_back(row);
        }
      long m = (long)rows.size();
      MX K = MX::Zero(2 * E + m, 2 * E + m);
      K.block(0, 0, E, E) = A.real(); K.block(E, E, E, E) = A.real();
      K.block(0, E, E, E) = -A.imag(); K.block(E, 0, E, E) = A.imag();
      for (long i = 0; i < m; i++) { K.row(2 * E + i).head(2 * E) = rows[(size_t)i]; K.col(2 * E + i).head(2 * E) = rows[(size_t)i]; }
      VX rhs = VX::Zero(2 * E + m);
      rhs.head(E) = X0.real(); rhs.segment(E, E) = X0.imag();
      auto lu = K.partialPivLu();
      if (ctx.verbose) fprintf(stderr, "rcond %g\n", lu.rcond());
      if (!regular(lu, 1e-12)) return false;
      VX s = lu.solve(rhs);
      X = s.head(E).cast<cd>() + cd(0, 1) * s.segment(E, E).cast<cd>();
    }
    double xm = X.cwiseAbs().maxCoeff();
    if (ctx.verbose) fprintf(stderr, "X %g X0 %g\n", xm, X0.cwiseAbs().maxCoeff());
    if (!(xm > 1e-8 * X0.cwiseAbs().maxCoeff())) return false;
    std::vector<Vector3> Y(R->nF);
    for (size_t f = 0; f < R->nF; f++) {
      Vector3 v{0, 0, 0};
      for (size_t q : R->TE[f]) v += X((long)q).real() * eh(q) + X((long)q).imag() * cross(R->N[f], eh(q));
      if (ctx.verbose) fprintf(stderr, "face %zu: %g\n", f, norm(v));
      if (norm(v) < 1e-7 * xm) return false;
      Y[f] = v / norm(v);
    }
    VX div = R->divergence(Y);
    auto row = [&](const Pt& p) { VX x = VX::Zero(n); for (auto& q : R->weights(p)) x((long)q.first) += q.second; return x; };
    std::vector<VX> C;
    auto tie = [&](const std::vector<Pt>& nodes) {
      size_t last = sameNode(nodes[0], nodes.back()) && nodes.size() > 1 ? nodes.size() - 1 : nodes.size();
      for (size_t i = 1; i < last; i++) C.push_back(row(nodes[0]) - row(nodes[i]));
    };
    if (o.levelSetConstraint == LevelSetConstraint::ZeroSet) {
      std::vector<Pt> all;
      for (auto& c : cs) all.insert(all.end(), c.nodes.begin(), c.nodes.end());
      all.insert(all.end(), pts.begin(), pts.end());
      std::vector<Pt> u; // every node once
      for (auto& p : all) {
        bool have = false;
        for (auto& q : u) have = have || sameNode(p, q);
        if (!have) u.push_back(p);
      }
      tie(u);
    } else if (o.levelSetConstraint == LevelSetConstraint::Multiple)
      for (auto& c : cs) tie(c.nodes);
    VX phi;
    long m = (long)C.size();
    MX G = R->L + MX::Constant(n, n, 1. / (double)n);
    if (m == 0 || o.softLevelSetWeight >= 0) {
      for (auto& c : C) G += o.softLevelSetWeight * c * c.transpose();
      phi = G.ldlt().solve(div);
    } else {
      MX K = MX::Zero(n + m, n + m);
      K.block(0, 0, n, n) = G;
      for (long i = 0; i < m; i++) { K.row(n + i).head(n) = C[(size_t)i]; K.col(n + i).head(n) = C[(size_t)i]; }
      VX rhs = VX::Zero(n + m);
      rhs.head(n) = div;
      auto lu = K.partialPivLu();
      if (ctx.verbose) fprintf(stderr, "constraint rcond %g\n", lu.rcond());
      if (!regular(lu, 1e-10)) return false;
      phi = lu.solve(rhs).head(n);
    }
    // positive on the left of the curves
    double shift = 0, len = 0;
    phi = -phi;
    for (auto& c : cs)
      for (size_t k = 0; k + 1 < c.nodes.size(); k++) {
        double l = norm(R->place(c.nodes[k + 1]) - R->place(c.nodes[k]));
        shift += .5 * l * (row(c.nodes[k]).dot(phi) + row(c.nodes[k + 1]).dot(phi));
        len += l;
      }
    phi.array() -= cs.empty() ? phi.minCoeff() : shift / len;
    out.assign(phi.data(), phi.data() + n);
    return true;
  }
  void signedDistance(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<CurveSpec> cs;
    std::vector<Pt> pts;
    size_t nc = r.chance(.15) ? 0 : 1 + (size_t)r.below(2);
    for (size_t i = 0; i < nc; i++) {
      CurveSpec c = randomCurve(r);
      if (!c.nodes.empty()) cs.push_back(c);
    }
    if (cs.empty() || r.chance(.15)) {
      size_t k = 1 + (size_t)r.below(2);
      for (size_t i = 0; i < k; i++) pts.push_back({0, r.below(self.V.size()), 0, {}});
    }
    // nodes are distinct, except for the ends of a closed curve
    std::vector<Pt> all;
    for (auto& c : cs)
      for (size_t i = 0; i < c.nodes.size(); i++)
        if (!(i + 1 == c.nodes.size() && sameNode(c.nodes[i], c.nodes[0]))) all.push_back(c.nodes[i]);
    all.insert(all.end(), pts.begin(), pts.end());
    for (size_t i = 0; i < all.size(); i++)
      for (size_t j = 0; j < i; j++)
        if (sameNode(all[i], all[j])) return;
    bool closed = false, onlyVerts = true;
    for (auto& c : cs) closed = closed || sameNode(c.nodes[0], c.nodes.back());
    for (auto& p : all) onlyVerts = onlyVerts && p.type == 0;
    SignedHeatOptions o;
    o.levelSetConstraint = (LevelSetConstraint)(int)r.below(3);
    if (cs.empty() && o.levelSetConstraint == LevelSetConstraint::Multiple) o.levelSetConstraint = LevelSetConstraint::ZeroSet;
    if (r.chance(.2) && o.levelSetConstraint != LevelSetConstraint::None) o.softLevelSetWeight = r.real(.5, 20);
    if (r.chance(.25) && !cs.empty()) o.preserveSourceNormals = true;
    // several curves tied together node by node must not repeat the ends of a closed one
    if (closed && cs.size() + pts.size() > 1 && o.levelSetConstraint == LevelSetConstraint::ZeroSet && (!onlyVerts || o.softLevelSetWeight >= 0)) return;
    DV b;
    if (ctx.verbose) { fprintf(stderr, "signed: constraint %d soft %g preserve %d closed %d\n", (int)o.levelSetConstraint, o.softLevelSetWeight, (int)o.preserveSourceNormals, (int)closed); for (auto& c : cs) { for (auto& p : c.nodes) fprintf(stderr, " (%d %zu %g)", p.type, p.i, p.t); fprintf(stderr, "\n"); } }
    if (!refSigned(cs, pts, o, b)) { ctx.count("ill-conditioned"); return; }
    auto q = [&](View& w, Solvers& s) {
      std::vector<SurfacePoint> sp;
      for (auto& p : pts) sp.push_back(at(w, p));
      if (cs.empty()) return flat(s.S(w).computeDistance(sp, o), w);
      if (pts.empty()) return flat(s.S(w).computeDistance(at(w, cs), o), w);
      return flat(s.S(w).computeDistance(at(w, cs), sp, o), w);
    };
    if (ctx.verbose && getenv("SIM_DUMP")) for (size_t i = 0; i < b.size(); i++) fprintf(stderr, "  %zu: definition %.10g\n", i, b[i]);
    skipScaled = !cs.empty() && !pts.empty(); // curves are weighted by their length, points are not
    DV a = everywhere(op, "signedDistance", q, 1, true, 1e-4);
    skipScaled = false;
    same(a, b, 1e-4, R->diam + maxAbs(b), "signed-distance", "signed heat distance");
    auto value = [&](const DV& f, const Pt& p) { double s = 0; for (auto& x : R->weights(p)) s += x.second * f[x.first]; return s; };
    if (o.levelSetConstraint == LevelSetConstraint::ZeroSet && o.softLevelSetWeight < 0)
      for (auto& p : all) { // points only: shifted so that the least value is zero
        double z = cs.empty() ? value(a, all[0]) : 0.;
        CHECK(std::fabs(value(a, p) - z) < 1e-6 * (R->diam + maxAbs(a)), "zero-set", "the distance is %g at a source which is kept as zero set", value(a, p));
      }
    if (r.chance(.3) && !cs.empty() && pts.empty() && o.softLevelSetWeight < 0) { // (a soft constraint compares with the first node) the other orientation: the opposite sign
      for (auto& c : cs) std::reverse(c.nodes.begin(), c.nodes.end());
      DV c = q(self, S);
      for (auto& x : c) x = -x;
      same(c, a, 1e-5, R->diam + maxAbs(a), "reversed", "signed distance of the reversed curves");
    }
  }
  void unsignedCurve(const Op& op) {
    Rng r(arg(op, 0));
    CurveSpec c;
    c.isSigned = false;
    View& w = R->w;
    Vertex v = w.V[r.below(w.V.size())];
    if (v.isBoundary()) return;
    std::set<size_t> seen{v.getIndex()};
    c.nodes.push_back({0, v.getIndex(), 0, {}});
    size_t len = 1 + (size_t)r.below(4);
    for (size_t k = 0; k < len; k++) {
      std::vector<Vertex> nb;
      for (Vertex u : v.adjacentVertices()) if (!seen.count(u.getIndex()) && !u.isBoundary()) nb.push_back(u);
      if (nb.empty()) break;
      v = nb[r.below(nb.size())];
      seen.insert(v.getIndex());
      c.nodes.push_back({0, v.getIndex(), 0, {}});
    }
    if (c.nodes.size() < 2) return;
    SignedHeatOptions o;
    o.levelSetConstraint = r.chance(.5) ? LevelSetConstraint::ZeroSet : LevelSetConstraint::None;
    std::vector<CurveSpec> cs{c};
    auto q = [&](View& w2, Solvers& s) { return flat(s.S(w2).computeDistance(at(w2, cs), o), w2); };
    DV a = everywhere(op, "unsignedCurve", q, 1, true, 1e-3);
    std::reverse(cs[0].nodes.begin(), cs[0].nodes.end());
    DV b = q(self, S);
    same(b, a, 1e-3, R->diam + maxAbs(a), "reversed", "unsigned distance of the reversed curve");
  }

  // ---- polygon solver on the triangle mesh
  void poly(const Op& op) {
    Rng r(arg(op, 0));
    int which = (int)r.below(3);
    std::vector<Pt> src = points(r, 0);
    std::set<size_t> seen;
    std::vector<Pt> u;
    for (auto& p : src) { p.type = 0; p.i %= self.V.size(); if (seen.insert(p.i).second) u.push_back(p); }
    src = u;
    if (which == 2 && W.mesh->nVertices() > 70) return;
    DV val;
    std::vector<Vector2> vec;
    for (size_t i = 0; i < src.size(); i++) { val.push_back(r.real(-2, 3)); vec.push_back(r.real(.3, 2) * Vector2::fromAngle(r.real(0, 6.28))); }
    bool sameNorm = r.chance(.3);
    if (sameNorm) for (auto& x : vec) x = x / norm(x);
    EmbeddedGeometryInterface& g = *R->w.vpg;
    g.requirePolygonLaplacian();
    g.requirePolygonVertexLumpedMassMatrix();
    MX L = MX(g.polygonLaplacian), A = MX(g.polygonVertexLumpedMassMatrix);
    g.unrequirePolygonLaplacian();
    g.unrequirePolygonVertexLumpedMassMatrix();
    A += R->time(tC) * L;
    long n = (long)R->n;
    DV b;
    bool ok = true;
    if (which == 0) {
      g.requirePolygonGradientMatrix();
      g.requirePolygonDivergenceMatrix();
      VX e = VX::Zero(n);
      for (auto& p : src) e((long)p.i) += 1;
      VX x = A.partialPivLu().solve(e);
      VX y = g.polygonGradientMatrix * x;
      for (long f = 0; f < (long)R->nF; f++) {
        double m = y.segment(3 * f, 3).norm();
        if (m * R->mean < 1e-8 * x.cwiseAbs().maxCoeff()) ok = false;
        y.segment(3 * f, 3) /= m;
      }
      VX d = -(g.polygonDivergenceMatrix * y);
      g.unrequirePolygonGradientMatrix();
      g.unrequirePolygonDivergenceMatrix();
      MX G = L + MX::Constant(n, n, 1. / (double)n);
      VX s = G.partialPivLu().solve(d);
      s.array() -= s.minCoeff();
      b.assign(s.data(), s.data() + n);
    } else {
      VX sv = VX::Zero(n), so = sv;
      VC z = VC::Zero(n);
      for (size_t i = 0; i < src.size(); i++) {
        sv((long)src[i].i) = which == 1 ? val[i] : norm(vec[i]);
        so((long)src[i].i) = 1;
        z((long)src[i].i) += cd(vec[i].x, vec[i].y);
      }
      auto lu = A.partialPivLu();
      VX p = lu.solve(sv), q = lu.solve(so);
      if (q.cwiseAbs().minCoeff() < 1e-8 * q.cwiseAbs().maxCoeff()) ok = false;
      if (which == 1) for (long i = 0; i < n; i++) b.push_back(p(i) / q(i));
      else {
        g.requirePolygonVertexConnectionLaplacian();
        MC Z = A.cast<cd>() - (R->time(tC) * L).cast<cd>() + R->time(tC) * MC(g.polygonVertexConnectionLaplacian);
        g.unrequirePolygonVertexConnectionLaplacian();
        VC x = Z.partialPivLu().solve(z);
        bool equal = true;
        for (auto& y : vec) equal = equal && std::fabs(norm(y) - norm(vec[0])) < 1e-9;
        for (long i = 0; i < n; i++) {
          if (std::abs(x(i)) < 1e-7 * x.cwiseAbs().maxCoeff()) ok = false;
          cd y = x(i) / std::abs(x(i)) * (equal ? norm(vec[0]) : p(i) / q(i));
          b.push_back(y.real()); b.push_back(y.imag());
        }
      }
    }
    if (!ok) { ctx.count("ill-conditioned"); return; }
    static const char* nm[3] = {"polygonDistance", "polygonExtend", "polygonTransport"};
    DV a = everywhere(op, nm[which], [&](View& w, Solvers& s) {
      std::vector<Vertex> sv;
      std::vector<std::tuple<Vertex, double>> ss;
      std::vector<std::tuple<Vertex, Vector2>> st;
      for (size_t i = 0; i < src.size(); i++) { Vertex v = w.V[src[i].i]; sv.push_back(v); ss.emplace_back(v, val[i]); st.emplace_back(v, vec[i]); }
      if (which == 0) return sv.size() == 1 ? flat(s.P(w).computeDistance(sv[0]), w) : flat(s.P(w).computeDistance(sv), w);
      if (which == 1) return flat(s.P(w).extendScalars(ss), w);
      return sv.size() == 1 ? flat(s.P(w).transportTangentVector(sv[0], vec[0]), w) : flat(s.P(w).transportTangentVectors(st), w);
    }, which == 0 ? 1 : 0, false, 1e-4);
    same(a, b, 1e-4, (which == 0 ? R->diam : 0) + maxAbs(b), "polygon-solver", nm[which]);
  }
  void polySigned(const Op& op) {
    Rng r(arg(op, 0));
    CurveSpec c;
    for (int k = 0; k < 20 && (c.nodes.empty() || c.nodes[0].type != 0 || [&] { for (auto& p : c.nodes) if (p.type) return true; return false; }()); k++) c = randomCurve(r);
    for (auto& p : c.nodes) if (p.type) return;
    if (c.nodes.size() < 2) return;
    LevelSetConstraint lc = (LevelSetConstraint)(int)r.below(3);
    bool closed = sameNode(c.nodes[0], c.nodes.back());
    auto q = [&](View& w, Solvers& s) {
      std::vector<std::vector<Vertex>> cv(1);
      for (auto& p : c.nodes) cv[0].push_back(w.V[p.i]);
      return flat(s.P(w).computeSignedDistance(cv, lc), w);
    };
    DV a = everywhere(op, "polygonSignedDistance", q, 1, false, 1e-3);
    if (lc == LevelSetConstraint::ZeroSet)
      for (auto& p : c.nodes) CHECK(std::fabs(a[p.i]) < 1e-9 * (R->diam + maxAbs(a)), "zero-set", "the distance is %g on the curve which is kept as zero set", a[p.i]);
    if (lc == LevelSetConstraint::Multiple)
      for (auto& p : c.nodes) CHECK(std::fabs(a[p.i] - a[c.nodes[0].i]) < 1e-6 * (R->diam + maxAbs(a)), "level-set", "the distance differs by %g along a curve which is kept as level set", a[p.i] - a[c.nodes[0].i]);
    std::reverse(c.nodes.begin(), c.nodes.end());
    DV b = q(self, S);
    for (auto& x : b) x = -x;
    same(b, a, 1e-4, R->diam + maxAbs(a), "reversed", "polygon signed distance of the reversed curve");
  }

  void step(const Op& op) {
    ctx.steps++;
    ctx.ev((u64)op.kind);
    switch (op.kind) {
    case H_edit:
      S = Solvers(); // solvers are for one mesh
      if (W.edit(arg(op, 0), arg(op, 1), arg(op, 2), ctx)) dirty = true;
      else { S.tC = tC; S.shmT = shmT; }
      return;
    case H_require: W.requireSome(arg(op, 0), ctx); return;
    case H_unrequire: W.unrequireSome(arg(op, 0)); return;
    case H_purge:
      if (!leaky) W.checkHeld("leaked-quantity", "heat method queries");
      else W.geom->purgeQuantities();
      ctx.count("purge");
      return;
    case H_drop: refresh(); S = Solvers(); S.tC = tC; S.shmT = shmT; return;
    }
    refresh();
    size_t nv = self.V.size(), nf = self.F.size();
    std::vector<Vector3> before;
    for (Vertex v : self.V) before.push_back(W.geom->inputVertexPositions[v]);
    switch (op.kind) {
    case H_distance: distance(op); break;
    case H_robust: robust(op); break;
    case H_extend: extend(op); break;
    case H_transport: transport(op); break;
    case H_logmap: logmap(op); break;
    case H_diffuse: diffuse(op); break;
    case H_signed: signedDistance(op); break;
    case H_unsignedCurve: unsignedCurve(op); break;
    case H_setT: {
      static const double ts[4] = {1, .6, 2, 4};
      shmT = ts[arg(op, 0) % 4];
      S.S(self).setDiffusionTimeCoefficient(shmT);
      S.shmT = shmT;
      break;
    }
    case H_poly: poly(op); break;
    case H_polySigned: polySigned(op); break;
    }
    CHECK(nv == W.mesh->nVertices() && nf == W.mesh->nFaces(), "input-changed", "a query changed the mesh");
    for (size_t i = 0; i < nv; i++)
      CHECK(norm(before[i] - W.geom->inputVertexPositions[self.V[i]]) == 0, "input-changed", "a query moved a vertex");
  }
};

static Register reg([] {
  Scenario s;
  s.name = "heat-methods";
  s.property = "C12";
  s.opNames = hNames;
  s.realComponents = "HeatMethodDistanceSolver, VectorHeatMethodSolver, SignedHeatSolver, PolygonMeshHeatSolver, the robust Laplacian, geometries, meshes, solvers (real code)";
  s.stubComponents = "allocator (counts and fails on schedule)";
  s.rule = "a run edits a mesh (leaving deleted elements), keeps solvers between queries, purges and requires quantities, fails allocations, and compares every result with fresh solvers "
           "on equivalent worlds and with dense implementations of the definitions";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["shape"] = (i64)r.below(AS_COUNT);
    h.cfg["size"] = r.range(1, tier ? 4 : 3);
    h.cfg["t"] = r.range(0, 3);
    std::vector<double> w(H_COUNT, 1.0);
    w[H_edit] = 5; w[H_distance] = 2; w[H_signed] = 3; w[H_logmap] = 1.5; w[H_transport] = 1.5; w[H_drop] = .3; w[H_setT] = .5; w[H_polySigned] = .7; w[H_robust] = .7;
    size_t n = (size_t)r.range(8, tier ? 40 : 20), pre = (size_t)r.below(12);
    for (size_t i = 0; i < n + pre; i++) {
      Op o;
      o.kind = i < pre ? (int)H_edit : (int)r.weighted(w);
      for (int k = 0; k < 3; k++) o.a.push_back(r.next());
      if (fm && o.kind >= H_distance && r.chance(.3)) { o.fault = 1; o.fa = r.next() >> 20; }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Run run(h, ctx);
    for (auto& op : h.ops) run.step(op);
    run.refresh();
    run.S = Solvers();
    if (!run.leaky) run.W.checkHeld("leaked-quantity", "heat method queries");
    ctx.nontrivial = run.any;
  };
  return s;
}());
} // namespace
