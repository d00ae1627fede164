// C15: flat parameterizations (BFF, uniformization) and direction fields, their indices and stripe patterns, on meshes
// with a history of edits, against dense linear algebra written from the definitions.
#include "algworld.h"
#include "geometrycentral/surface/boundary_first_flattening.h"
#include "geometrycentral/surface/direction_fields.h"
#include "geometrycentral/surface/parameterize.h"
#include "geometrycentral/surface/stripe_patterns.h"
#include "geometrycentral/surface/uniformize.h"
#include <Eigen/Dense>
#include <complex>
using namespace sim;

namespace {
enum OpF { F_edit, F_require, F_unrequire, F_purge, F_drop, F_bff, F_bffScale, F_bffAngles, F_uniformize, F_disk, F_smoothV, F_smoothF, F_alignV, F_alignF, F_curvV, F_curvF, F_indexF, F_indexV, F_stripes, F_COUNT };
const std::vector<std::string> fNames = {"edit", "require", "unrequire", "purge", "dropSolver", "flatten", "flattenFromScaleFactors", "flattenFromExteriorAngles", "uniformizeDisk", "parameterizeDisk", "smoothestVertexField", "smoothestFaceField", "boundaryAlignedVertexField", "boundaryAlignedFaceField", "curvatureAlignedVertexField", "curvatureAlignedFaceField", "faceIndices", "vertexIndices", "stripes"};
typedef std::complex<double> C;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXcd VC;
C cx(Vector2 v) { return C(v.x, v.y); }
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
C cpow(C z, int n) { C r = 1; for (int i = 0; i < n; i++) r *= z; return r; }

struct Run {
  const History& h;
  Ctx& ctx;
  AlgWorld W;
  View self;
  bool dirty = true, any = false, flatWorld = false;
  std::unique_ptr<BFF> bff;
  // of the current mesh, in dense numbers
  size_t n = 0, nB = 0, comps = 0, loops = 0;
  double diam = 0, mean = 0;
  std::vector<char> bd;
  bool disk = false, closed = false;
  std::vector<double> len;               // by edge
  std::vector<std::array<size_t, 2>> ev; // edge tail, tip (of e.halfedge())
  MX L;                                  // cotan Laplacian, from positions
  VX K;                                  // curvature (2pi or pi minus angle sum)

  Run(const History& h_, Ctx& c) : h(h_), ctx(c) { W.build(h); flatWorld = W.flat; }

  void refresh() {
    if (!dirty) return;
    bff.reset();
    W.geom->refreshQuantities();
    self = W.self();
    auto& M = *W.mesh;
    n = M.nVertices();
    VertexData<size_t> id(M, 0);
    for (size_t i = 0; i < n; i++) id[self.V[i]] = i;
    bd.assign(n, 0);
    nB = 0;
    for (size_t i = 0; i < n; i++) if (self.V[i].isBoundary()) { bd[i] = 1; nB++; }
    loops = M.nBoundaryLoops();
    comps = (size_t)M.nConnectedComponents();
    long chi = (long)n - (long)M.nEdges() + (long)M.nFaces();
    disk = comps == 1 && loops == 1 && chi == 1;
    closed = !M.hasBoundary();
    len.clear();
    ev.clear();
    mean = 0;
    for (Edge e : self.E) {
      ev.push_back({id[e.halfedge().tailVertex()], id[e.halfedge().tipVertex()]});
      len.push_back(norm(pos(e.firstVertex()) - pos(e.secondVertex())));
      mean += len.back();
    }
    mean /= (double)len.size();
    diam = 0;
    for (auto& v : self.V) for (auto& w : self.V) diam = std::max(diam, norm(pos(v) - pos(w)));
    L = MX::Zero((long)n, (long)n);
    K = VX::Zero((long)n);
    for (size_t i = 0; i < n; i++) K((long)i) = bd[i] ? M_PI : 2 * M_PI;
    for (Face f : self.F) {
      std::vector<size_t> v;
      for (Vertex x : f.adjacentVertices()) v.push_back(id[x]);
      for (size_t k = 0; k < 3; k++) {
        long i = (long)v[k], j = (long)v[(k + 1) % 3], l = (long)v[(k + 2) % 3];
        Vector3 a = pos(self.V[(size_t)i]) - pos(self.V[(size_t)l]), b = pos(self.V[(size_t)j]) - pos(self.V[(size_t)l]);
        double w = .5 * dot(a, b) / norm(cross(a, b));
        L(i, i) += w; L(j, j) += w; L(i, j) -= w; L(j, i) -= w;
        K(l) -= std::atan2(norm(cross(a, b)), dot(a, b));
      }
    }
    dirty = false;
  }
  Vector3 pos(Vertex v) const { return W.geom->inputVertexPositions[v]; }
  std::vector<size_t> idx(const View& w, Face f) const {
    std::vector<size_t> r;
    for (Vertex v : f.adjacentVertices()) r.push_back((size_t)(std::find(w.V.begin(), w.V.end(), v) - w.V.begin()));
    return r;
  }

  // the query on one of the equivalent worlds, interrupted by a failing allocation before
  template <class F> void onWorld(const Op& op, Rng& r, bool extrinsic, F f) {
    size_t k = r.weighted({3, 1, 1, extrinsic ? 0. : 1.});
    View tmp;
    if (k == 1) tmp = W.compressed();
    if (k == 2) tmp = W.transformed(r.next());
    if (k == 3) tmp = W.lengthsOnly();
    View& w = k == 0 ? self : tmp;
    ctx.count(k == 0 ? "world-self" : k == 1 ? "world-compressed" : k == 2 ? "world-transformed" : "world-lengths");
    f(w);
    (void)op;
  }
  template <class F> auto interrupted(const Op& op, F f) -> decltype(f()) {
    if (op.fault) {
      ctx.fault("allocation-failure-armed");
      seam::allocArm((i64)((op.fa >> 5) % (1 << (3 + op.fa % 10)))); // early and late ones alike
      try { f(); } catch (const std::exception&) {}
      if (seam::allocDisarm()) ctx.fault("allocation-failure");
    }
    return f();
  }

  // the field a is b up to a rotation (and scale where asked) of the plane; returns the largest distance
  static double rigid(const std::vector<C>& a, const std::vector<C>& b, bool scale = false) {
    C ca = 0, cb = 0;
    for (size_t i = 0; i < a.size(); i++) { ca += a[i]; cb += b[i]; }
    ca /= (double)a.size(); cb /= (double)a.size();
    C s = 0;
    double q = 0, d = 0;
    for (size_t i = 0; i < a.size(); i++) { s += std::conj(a[i] - ca) * (b[i] - cb); q += std::norm(a[i] - ca); }
    if (std::abs(s) > 0) s /= scale ? q : std::abs(s);
    for (size_t i = 0; i < a.size(); i++) d = std::max(d, std::abs(s * (a[i] - ca) - (b[i] - cb)));
    return d;
  }

  // ---- boundary first flattening -----------------------------------------------------------------------------------
  bool bffReference(const VX& u, const VX& k, std::vector<C>& out) {
    // boundary in the order of the loop (the surface on the right)
    std::vector<size_t> b;
    for (BoundaryLoop l : W.mesh->boundaryLoops())
      for (Halfedge he : l.adjacentHalfedges()) b.push_back((size_t)(std::find(self.V.begin(), self.V.end(), he.tailVertex()) - self.V.begin()));
    size_t m = b.size();
    if (m != nB) return false;
    VX l((long)m), lt((long)m);
    MX T(2, (long)m);
    double phi = 0;
    for (size_t i = 0; i < m; i++) {
      size_t j = (i + 1) % m;
      l((long)i) = norm(pos(self.V[b[i]]) - pos(self.V[b[j]]));
      lt((long)i) = l((long)i) * std::exp((u((long)b[i]) + u((long)b[j])) / 2);
      T(0, (long)i) = std::cos(phi);
      T(1, (long)i) = std::sin(phi);
      phi += k((long)b[j]);
    }
    MX S = T * l.asDiagonal() * T.transpose();
    if (S.determinant() < 1e-6 * S.norm() * S.norm()) return false;
    VX x = lt - l.asDiagonal() * (T.transpose() * S.inverse() * (T * lt));
    out.assign(n, 0);
    double px = 0, py = 0;
    std::vector<size_t> in;
    for (size_t i = 0; i < m; i++) {
      out[b[i]] = C(-px, py);
      px += x((long)i) * T(0, (long)i);
      py += x((long)i) * T(1, (long)i);
    }
    for (size_t i = 0; i < n; i++) if (!bd[i]) in.push_back(i);
    if (!in.empty()) {
      MX A((long)in.size(), (long)in.size());
      MX R = MX::Zero((long)in.size(), 2);
      for (size_t i = 0; i < in.size(); i++) {
        for (size_t j = 0; j < in.size(); j++) A((long)i, (long)j) = L((long)in[i], (long)in[j]);
        for (size_t j = 0; j < n; j++) if (bd[j]) { R((long)i, 0) -= L((long)in[i], (long)j) * out[j].real(); R((long)i, 1) -= L((long)in[i], (long)j) * out[j].imag(); }
      }
      MX X = A.ldlt().solve(R);
      for (size_t i = 0; i < in.size(); i++) out[in[i]] = C(X((long)i, 0), X((long)i, 1));
    }
    return true;
  }
  VX solveInterior(const VX& rhs) { // L_ii x = rhs
    std::vector<long> in;
    for (size_t i = 0; i < n; i++) if (!bd[i]) in.push_back((long)i);
    VX x = VX::Zero((long)n);
    if (in.empty()) return x;
    MX A((long)in.size(), (long)in.size());
    VX b((long)in.size());
    for (size_t i = 0; i < in.size(); i++) {
      b((long)i) = rhs(in[i]);
      for (size_t j = 0; j < in.size(); j++) A((long)i, (long)j) = L(in[i], in[j]);
    }
    VX y = A.ldlt().solve(b);
    for (size_t i = 0; i < in.size(); i++) x(in[i]) = y((long)i);
    return x;
  }
  void doBFF(const Op& op) {
    Rng r(arg(op, 0));
    if (!disk) {
      if (comps != 1) return;
      bool refused = false;
      try { BFF x(*W.mesh, *W.geom); } catch (const std::exception&) { refused = true; }
      CHECK(refused, "bff-domain", "BFF accepted a surface which is not a disk");
      ctx.count("bff-refused");
      return;
    }
    VX u = VX::Zero((long)n), k = VX::Zero((long)n);
    VertexData<double> in(*W.mesh, 0.);
    double amp = r.chance(.3) ? 0 : r.real(0, .7);
    if (op.kind == F_bffAngles) {
      double s = 0;
      for (size_t i = 0; i < n; i++) if (bd[i]) { k((long)i) = 2 * M_PI / (double)nB * (1 + amp * r.real(-1, 1)); s += k((long)i); }
      k *= 2 * M_PI / s;
      for (size_t i = 0; i < n; i++) in[self.V[i]] = bd[i] ? k((long)i) : r.real(-1, 1);
      // L u = k - Omega
      VX rhs = -K;
      for (size_t i = 0; i < n; i++) if (bd[i]) rhs((long)i) += k((long)i);
      MX A = L;
      A.array() += 1. / (double)n;
      u = A.ldlt().solve(rhs);
      double m = 0;
      for (size_t i = 0; i < n; i++) if (bd[i]) m += u((long)i) / (double)nB;
      u.array() -= m;
    } else {
      if (op.kind == F_bffScale)
        for (size_t i = 0; i < n; i++) { u((long)i) = amp * r.real(-1, 1); in[self.V[i]] = u((long)i); }
      VX ub = u;
      for (size_t i = 0; i < n; i++) if (!bd[i]) ub((long)i) = 0;
      VX full = ub + solveInterior(-K - L * ub); // L_ii u_i = -K_i - L_ib u_b
      u = full;
      VX Lu = L * full;
      for (size_t i = 0; i < n; i++) if (bd[i]) k((long)i) = K((long)i) + Lu((long)i);
    }
    std::vector<C> want;
    double us = 0;
    for (size_t i = 0; i < n; i++) us = std::max(us, std::fabs(u((long)i)));
    if (!bffReference(u, k, want) || us > 6) { ctx.count("ill-conditioned"); return; }
    auto judge = [&](const View& w, const VertexData<Vector2>& got, const char* how) {
      std::vector<C> a;
      double ext = 0;
      for (size_t i = 0; i < n; i++) { a.push_back(cx(got[w.V[i]]) / w.scale); ext = std::max(ext, std::abs(want[i] - want[0])); }
      for (auto& z : a) CHECK(std::isfinite(z.real()) && std::isfinite(z.imag()), "bff-finite", "%s (%s): not a number", fNames[(size_t)op.kind].c_str(), how);
      double d = rigid(a, want);
      CHECK(d <= 1e-6 * ext, "bff", "%s (%s): positions differ from the definition by %g, extent %g", fNames[(size_t)op.kind].c_str(), how, d, ext);
      if (flatWorld && op.kind == F_bff) {
        for (size_t e = 0; e < len.size(); e++)
          CHECK(std::fabs(std::abs(a[ev[e][0]] - a[ev[e][1]]) - len[e]) <= 1e-6 * diam, "bff-flat", "edge %zu of a flat disk has length %g, and %g after flattening", e, len[e], std::abs(a[ev[e][0]] - a[ev[e][1]]));
      }
    };
    auto ask = [&](BFF& b, const VertexData<double>& x) { return op.kind == F_bff ? b.flatten() : op.kind == F_bffScale ? b.flattenFromScaleFactors(x) : b.flattenFromExteriorAngles(x); };
    if (r.chance(.6)) {
      auto x = interrupted(op, [&] { if (!bff) bff.reset(new BFF(*W.mesh, *W.geom)); return ask(*bff, in); });
      judge(self, x, "the solver");
    } else {
      onWorld(op, r, false, [&](View& w) {
        VertexData<double> x(*w.mesh, 0.);
        for (size_t i = 0; i < n; i++) x[w.V[i]] = in[self.V[i]];
        auto y = op.kind == F_bff ? parameterizeBFF(*w.mesh, *w.geom) : op.kind == F_bffScale ? parameterizeBFFfromScaleFactors(*w.mesh, *w.geom, x) : parameterizeBFFfromExteriorAngles(*w.mesh, *w.geom, x);
        judge(w, y, "one call");
      });
    }
    any = true;
    ctx.count(fNames[(size_t)op.kind]);
  }

  // ---- uniformization ----------------------------------------------------------------------------------------------
  void doUniformize(const Op& op) {
    if (comps != 1 || loops == 0) return;
    Rng r(arg(op, 0));
    double tot = 0;
    for (size_t i = 0; i < n; i++) if (!bd[i]) tot += std::fabs(K((long)i));
    bool param = op.kind == F_disk, flips = param || r.chance(.7);
    // the mesh is flipped: work on copies
    bool comp = r.chance(.5);
    View w;
    if (comp) w = W.compressed();
    else { // a copy with the same numbers, deleted elements included
      w.ownMesh = W.mesh->copy();
      w.mesh = w.ownMesh.get();
      VertexData<Vector3> p(*w.mesh);
      w.index();
      for (size_t i = 0; i < n; i++) p[w.V[i]] = pos(self.V[i]);
      w.vpg = new VertexPositionGeometry(*w.mesh, p);
      w.ownGeom.reset(w.vpg);
      w.geom = w.vpg;
    }
    if (param) {
      if (!disk) return;
      VertexData<Vector2> got;
      try { got = parameterizeDisk(*w.mesh, *w.geom); }
      catch (const std::exception& e) { CHECK(!w.mesh->isCompressed(), "disk", "parameterizeDisk failed on a disk: %s", e.what()); ctx.count("disk-refused"); return; }
      for (size_t e = 0; e < len.size(); e++) {
        Edge ed = w.E[e];
        CHECK(ed.halfedge().tailVertex() == w.V[ev[e][0]] && ed.halfedge().tipVertex() == w.V[ev[e][1]], "disk-input", "parameterizeDisk changed its input mesh");
      }
      View t = W.compressed();
      EdgeData<double> u = uniformizeDisk(*t.mesh, *t.geom, true);
      if (!uniformOk(t, u, tot)) return;
      double ext = 0;
      for (size_t i = 0; i < n; i++) ext = std::max(ext, norm(got[w.V[i]] - got[w.V[0]]));
      for (Edge e : t.mesh->edges()) {
        size_t i = (size_t)(std::find(t.V.begin(), t.V.end(), e.firstVertex()) - t.V.begin()), j = (size_t)(std::find(t.V.begin(), t.V.end(), e.secondVertex()) - t.V.begin());
        double d = norm(got[w.V[i]] - got[w.V[j]]);
        CHECK(std::fabs(d - u[e]) <= 1e-5 * ext, "disk-layout", "vertices %zu, %zu at distance %g, their edge was given the length %g", i, j, d, u[e]);
      }
      for (Face f : t.mesh->faces()) {
        std::vector<Vector2> p;
        for (Vertex v : f.adjacentVertices()) p.push_back(got[w.V[(size_t)(std::find(t.V.begin(), t.V.end(), v) - t.V.begin())]]);
        double a = cross(p[1] - p[0], p[2] - p[0]);
        CHECK(a >= -1e-9 * ext * ext, "disk-orientation", "a triangle is turned over");
      }
      edgeWeights();
      bool delaunay = true; // the conformal class kept is that of the given triangulation: it is the surface's own only when that is Delaunay
      for (size_t e = 0; e < len.size(); e++) if (!self.E[e].isBoundary()) delaunay &= Ledge[e] < -1e-9;
      if (flatWorld && delaunay)
        for (size_t e = 0; e < len.size(); e++) {
          double d = norm(got[w.V[ev[e][0]]] - got[w.V[ev[e][1]]]);
          CHECK(std::fabs(d - len[e]) <= 1e-5 * diam, "disk-flat", "edge %zu of a flat disk has length %g, and %g after parameterization", e, len[e], d);
        }
      any = true;
      ctx.count("parameterizeDisk");
      return;
    }
    EdgeData<double> u = uniformizeDisk(*w.mesh, *w.geom, flips);
    if (!uniformOk(w, u, tot)) return;
    if (!flips) { // conformally equivalent: the length cross ratios stay
      for (size_t e = 0; e < len.size(); e++) {
        Edge ed = w.E[e];
        if (ed.isBoundary()) continue;
        Halfedge a = ed.halfedge(), b = a.twin();
        auto cr = [&](std::function<double(Edge)> l) { return l(a.next().edge()) * l(b.next().edge()) / (l(a.next().next().edge()) * l(b.next().next().edge())); };
        double x = cr([&](Edge y) { return u[y]; }), z = cr([&](Edge y) { return norm(w.vpg->inputVertexPositions[y.firstVertex()] - w.vpg->inputVertexPositions[y.secondVertex()]); });
        CHECK(std::fabs(x - z) <= 1e-6 * z, "uniform-conformal", "length cross ratio of edge %zu was %g and is %g", e, z, x);
      }
    }
    any = true;
    ctx.count(flips ? "uniformize-flips" : "uniformize");
  }
  bool uniformOk(const View& w, const EdgeData<double>& u, double tot) {
    if (tot > 2.5) { ctx.count("strongly-curved"); return false; }
    for (Edge e : w.mesh->edges()) if (!(std::isfinite(u[e]) && u[e] > 0)) { ctx.count("diverged"); return false; }
    VertexData<double> s(*w.mesh, 0.);
    for (Face f : w.mesh->faces()) {
      double l[3];
      int k = 0;
      Vertex v[3];
      for (Halfedge he : f.adjacentHalfedges()) { l[k] = u[he.edge()]; v[k] = he.tailVertex(); k++; }
      for (k = 0; k < 3; k++) {
        double a = l[k], b = l[(k + 2) % 3], c = l[(k + 1) % 3];
        double co = (a * a + b * b - c * c) / (2 * a * b);
        CHECK(co > -1 - 1e-9 && co < 1 + 1e-9, "uniform-triangle", "uniformized lengths %g %g %g are not those of a triangle", a, b, c);
        s[v[k]] += std::acos(std::max(-1., std::min(1., co)));
      }
    }
    for (size_t i = 0; i < n; i++)
      if (!bd[i]) CHECK(std::fabs(s[w.V[i]] - 2 * M_PI) < 1e-5, "uniform-flat", "angles around vertex %zu sum to %.9g after uniformization (curvature was %g)", i, s[w.V[i]], K((long)i));
    for (size_t e = 0; e < len.size(); e++)
      if (w.E[e].isBoundary()) CHECK(std::fabs(u[w.E[e]] - len[e]) <= 1e-9 * len[e], "uniform-boundary", "boundary edge %zu had length %g and has %g", e, len[e], u[w.E[e]]);
    return true;
  }

  // ---- direction fields --------------------------------------------------------------------------------------------
  MC energyV(View& w, int nSym) {
    MC A = MC::Zero((long)n, (long)n);
    auto& g = *w.geom;
    g.requireTransportVectorsAlongHalfedge();
    for (size_t e = 0; e < w.E.size(); e++) {
      long i = (long)ev[e][0], j = (long)ev[e][1];
      double wt = -Ledge[e];
      C t = cpow(cx(g.transportVectorsAlongHalfedge[w.E[e].halfedge()]), nSym); // takes vectors at i to j
      A(i, i) += wt; A(j, j) += wt;
      A(j, i) -= wt * t;
      A(i, j) -= wt * std::conj(t);
    }
    g.unrequireTransportVectorsAlongHalfedge();
    return A;
  }
  std::vector<double> Ledge; // minus the cotan weight of each edge
  void edgeWeights() {
    Ledge.assign(len.size(), 0);
    for (size_t e = 0; e < len.size(); e++)
      for (Halfedge he : self.E[e].adjacentInteriorHalfedges()) {
        Vector3 c = pos(he.next().tipVertex()), a = pos(he.tailVertex()) - c, b = pos(he.tipVertex()) - c;
        Ledge[e] -= .5 * dot(a, b) / norm(cross(a, b));
      }
  }
  MC energyF(View& w, int nSym, FaceData<size_t>& id) {
    size_t m = w.F.size();
    MC A = MC::Zero((long)m, (long)m);
    auto& g = *w.geom;
    id = FaceData<size_t>(*w.mesh, 0);
    for (size_t f = 0; f < m; f++) id[w.F[f]] = f;
    g.requireTransportVectorsAcrossHalfedge();
    for (Edge e : w.E) {
      if (e.isBoundary()) continue;
      Halfedge he = e.halfedge();
      long i = (long)id[he.face()], j = (long)id[he.twin().face()];
      C t = cpow(cx(g.transportVectorsAcrossHalfedge[he]), nSym);
      A(i, i) += 1; A(j, j) += 1;
      A(j, i) -= t;
      A(i, j) -= std::conj(t);
    }
    g.unrequireTransportVectorsAcrossHalfedge();
    return A;
  }
  // a (unit vectors) has the directions of x, up to a common rotation where asked
  void judgeField(const std::vector<C>& a, const VC& x, bool rotation, const char* what) {
    double mx = x.cwiseAbs().maxCoeff();
    C s = 1;
    if (rotation) { s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * std::conj(x((long)i)); if (std::abs(s) < 1e-9 * mx) violate("field", "%s: not the field of least energy", what); s /= std::abs(s); }
    for (size_t i = 0; i < a.size(); i++) {
      if (std::abs(x((long)i)) < 1e-4 * mx) continue;
      C want = s * x((long)i) / std::abs(x((long)i));
      CHECK(std::abs(a[i] - want) < 1e-3, "field", "%s: element %zu is (%g, %g), expected (%g, %g)", what, i, a[i].real(), a[i].imag(), want.real(), want.imag());
    }
  }
  void unitary(const std::vector<C>& a, const char* what) {
    for (size_t i = 0; i < a.size(); i++) CHECK(std::fabs(std::abs(a[i]) - 1) < 1e-6, "field-unit", "%s: element %zu has length %g", what, i, std::abs(a[i]));
  }
  int sym(Rng& r) { return (int)std::vector<int>{1, 2, 4, 3, 6}[r.weighted({3, 3, 3, 1, .5})]; }
  void doSmooth(const Op& op) {
    Rng r(arg(op, 0));
    int k = sym(r);
    if (comps != 1) return;
    edgeWeights();
    bool faces = op.kind == F_smoothF;
    onWorld(op, r, false, [&](View& w) {
      size_t m = faces ? w.F.size() : n;
      if (m < 3) return;
      seedLibraryRandomness(arg(op, 1));
      FaceData<size_t> id;
      MC A = faces ? energyF(w, k, id) : energyV(w, k);
      A.diagonal().array() += 1e-9;
      std::vector<C> a(m);
      if (faces) { auto f = interrupted(op, [&] { return computeSmoothestFaceDirectionField(*w.geom, k); }); for (size_t i = 0; i < m; i++) a[i] = cx(f[w.F[i]]); }
      else { auto f = interrupted(op, [&] { return computeSmoothestVertexDirectionField(*w.geom, k); }); for (size_t i = 0; i < m; i++) a[i] = cx(f[w.V[i]]); }
      MX M = MX::Zero((long)m, (long)m);
      if (faces) {
        for (size_t i = 0; i < m; i++) { auto v = idx(w, w.F[i]); M((long)i, (long)i) = .5 * w.scale * w.scale * norm(cross(pos(self.V[v[1]]) - pos(self.V[v[0]]), pos(self.V[v[2]]) - pos(self.V[v[0]]))); }
      } else {
        for (Face f : w.F) {
          auto v = idx(w, f);
          double ar = .5 * w.scale * w.scale * norm(cross(pos(self.V[v[1]]) - pos(self.V[v[0]]), pos(self.V[v[2]]) - pos(self.V[v[0]])));
          for (size_t p = 0; p < 3; p++) for (size_t q = 0; q < 3; q++) M((long)v[p], (long)v[q]) += ar / (p == q ? 6. : 12.);
        }
      }
      Eigen::GeneralizedSelfAdjointEigenSolver<MC> es(A, M.cast<C>());
      double l1 = es.eigenvalues()(0), l2 = es.eigenvalues()(1);
      if (!(l1 < .75 * l2) || l1 < -1e-9) { ctx.count("no-gap"); return; } // negative weights can make the energy indefinite
      VC x = es.eigenvectors().col(0);
      if (x.cwiseAbs().minCoeff() > 1e-6 * x.cwiseAbs().maxCoeff()) unitary(a, fNames[(size_t)op.kind].c_str());
      judgeField(a, x, true, fNames[(size_t)op.kind].c_str());
      any = true;
      ctx.count(fNames[(size_t)op.kind]);
    });
  }
  void doAlign(const Op& op) {
    Rng r(arg(op, 0));
    int k = sym(r);
    bool faces = op.kind == F_alignF;
    if (closed) {
      bool refused = false;
      try { if (faces) computeSmoothestBoundaryAlignedFaceDirectionField(*W.geom, k); else computeSmoothestBoundaryAlignedVertexDirectionField(*W.geom, k); } catch (const std::logic_error&) { refused = true; }
      CHECK(refused, "field-domain", "%s accepted a closed surface", fNames[(size_t)op.kind].c_str());
      return;
    }
    if (comps != 1) return;
    edgeWeights();
    onWorld(op, r, false, [&](View& w) {
      size_t m = faces ? w.F.size() : n;
      FaceData<size_t> id;
      MC A = faces ? energyF(w, k, id) : energyV(w, k);
      A.diagonal().array() += 1e-9;
      std::vector<C> a(m), b(m);
      std::vector<char> fix(m, 0);
      auto& g = *w.geom;
      if (faces) {
        g.requireHalfedgeVectorsInFace();
        for (size_t i = 0; i < m; i++) {
          C s = 0;
          for (Halfedge he : w.F[i].adjacentHalfedges()) if (he.edge().isBoundary()) { fix[i] = 1; s += C(0, -1) * cx(g.halfedgeVectorsInFace[he]); }
          if (fix[i]) {
            if (std::abs(s) < 1e-3 * mean * w.scale) return; // the edges' normals cancel
            b[i] = cpow(s / std::abs(s), k);
          }
        }
        g.unrequireHalfedgeVectorsInFace();
        auto f = interrupted(op, [&] { return computeSmoothestBoundaryAlignedFaceDirectionField(g, k); });
        for (size_t i = 0; i < m; i++) a[i] = cx(f[w.F[i]]);
      } else {
        g.requireHalfedgeVectorsInVertex();
        for (size_t i = 0; i < m; i++)
          if (bd[i]) {
            fix[i] = 1;
            Halfedge in, out; // the boundary's halfedges with the surface on their left
            for (Halfedge he : w.V[i].outgoingHalfedges()) { if (he.edge().isBoundary() && he.isInterior()) out = he; if (he.edge().isBoundary() && !he.isInterior()) in = he; }
            C t = cx(unit(g.halfedgeVectorsInVertex[out])) * 0. + cx(g.halfedgeVectorsInVertex[out]) - cx(g.halfedgeVectorsInVertex[in]);
            b[i] = cpow(C(0, -1) * t / std::abs(t), k);
          }
        g.unrequireHalfedgeVectorsInVertex();
        auto f = interrupted(op, [&] { return computeSmoothestBoundaryAlignedVertexDirectionField(g, k); });
        for (size_t i = 0; i < m; i++) a[i] = cx(f[w.V[i]]);
      }
      std::vector<long> in;
      for (size_t i = 0; i < m; i++) {
        if (!fix[i]) { in.push_back((long)i); continue; }
        CHECK(std::abs(a[i] - b[i]) < 1e-6, "field-boundary", "%s: element %zu of the boundary is (%g, %g), the normal is (%g, %g)", fNames[(size_t)op.kind].c_str(), i, a[i].real(), a[i].imag(), b[i].real(), b[i].imag());
      }
      any = true;
      ctx.count(fNames[(size_t)op.kind]);
      if (in.empty()) return;
      MC B((long)in.size(), (long)in.size());
      VC rhs = VC::Zero((long)in.size());
      for (size_t i = 0; i < in.size(); i++) {
        for (size_t j = 0; j < in.size(); j++) B((long)i, (long)j) = A(in[i], in[j]);
        for (size_t j = 0; j < m; j++) if (fix[j]) rhs((long)i) -= A(in[i], (long)j) * b[j];
      }
      VX sv = B.jacobiSvd().singularValues();
      if (sv(sv.size() - 1) < 1e-6 * sv(0)) { ctx.count("ill-conditioned"); return; }
      VC x = B.fullPivLu().solve(rhs);
      if (x.cwiseAbs().minCoeff() < 1e-7) { ctx.count("vanishing"); }
      std::vector<C> ai;
      for (long i : in) ai.push_back(a[(size_t)i]);
      if (x.cwiseAbs().maxCoeff() < 1e-4) return; // the boundary's directions cancel
      judgeField(ai, x, false, fNames[(size_t)op.kind].c_str());
    });
  }
  void doCurvature(const Op& op) {
    Rng r(arg(op, 0));
    bool faces = op.kind == F_curvF;
    if (comps != 1) return;
    if (r.chance(.1)) {
      bool refused = false;
      try { if (faces) computeCurvatureAlignedFaceDirectionField(*W.geom, 3); else computeCurvatureAlignedVertexDirectionField(*W.geom, 3); } catch (const std::logic_error&) { refused = true; }
      CHECK(refused, "field-domain", "a 3-direction field was aligned with curvature");
      return;
    }
    int k = r.chance(.5) ? 2 : 4;
    edgeWeights();
    onWorld(op, r, true, [&](View& w) {
      size_t m = faces ? w.F.size() : n;
      FaceData<size_t> id;
      MC A = faces ? energyF(w, k, id) : energyV(w, k);
      A.diagonal().array() += 1e-9;
      VC d((long)m);
      std::vector<C> a(m);
      auto& g = *w.vpg;
      MX M = MX::Zero((long)m, (long)m);
      if (faces) {
        g.requireFacePrincipalCurvatureDirections();
        for (size_t i = 0; i < m; i++) { d((long)i) = cpow(cx(g.facePrincipalCurvatureDirections[w.F[i]]), k / 2); auto v = idx(w, w.F[i]); M((long)i, (long)i) = .5 * norm(cross(pos(self.V[v[1]]) - pos(self.V[v[0]]), pos(self.V[v[2]]) - pos(self.V[v[0]]))); }
        g.unrequireFacePrincipalCurvatureDirections();
        if (flatWorld || !(d.cwiseAbs().maxCoeff() > 1e-9)) { ctx.count("flat"); return; } // nothing to align with
        auto f = interrupted(op, [&] { return computeCurvatureAlignedFaceDirectionField(g, k); });
        for (size_t i = 0; i < m; i++) a[i] = cx(f[w.F[i]]);
      } else {
        g.requireVertexPrincipalCurvatureDirections();
        for (size_t i = 0; i < m; i++) d((long)i) = cpow(cx(g.vertexPrincipalCurvatureDirections[w.V[i]]), k / 2);
        g.unrequireVertexPrincipalCurvatureDirections();
        if (flatWorld || !(d.cwiseAbs().maxCoeff() > 1e-9)) { ctx.count("flat"); return; } // nothing to align with
        auto f = interrupted(op, [&] { return computeCurvatureAlignedVertexDirectionField(g, k); });
        for (size_t i = 0; i < m; i++) a[i] = cx(f[w.V[i]]);
        for (Face f2 : w.F) {
          auto v = idx(w, f2);
          double ar = .5 * norm(cross(pos(self.V[v[1]]) - pos(self.V[v[0]]), pos(self.V[v[2]]) - pos(self.V[v[0]])));
          for (size_t p = 0; p < 3; p++) for (size_t q = 0; q < 3; q++) M((long)v[p], (long)v[q]) += ar / (p == q ? 6. : 12.);
        }
      }
      VX sv = A.jacobiSvd().singularValues();
      double dm = d.cwiseAbs().maxCoeff();
      if (sv((long)m - 1) < 1e-6 * sv(0) || !(dm > 1e-9) || flatWorld) { ctx.count("ill-conditioned"); return; }
      VC x = A.fullPivLu().solve(M.cast<C>() * (d / dm));
      judgeField(a, x, false, fNames[(size_t)op.kind].c_str());
      any = true;
      ctx.count(fNames[(size_t)op.kind]);
    });
  }
  // indices of any field: the turning of the field around the element, curvature included
  bool refFaceIndex(View& w, const VertexData<Vector2>& x, int k, FaceData<int>& out) {
    auto& g = *w.geom;
    g.requireTransportVectorsAlongHalfedge();
    out = FaceData<int>(*w.mesh, 0);
    bool ok = true;
    for (Face f : w.F) {
      double tot = 0;
      C hol = 1;
      for (Halfedge he : f.adjacentHalfedges()) {
        C t = cx(g.transportVectorsAlongHalfedge[he]);
        hol *= t;
        C z = cx(x[he.tipVertex()]) / (cpow(t, k) * cx(x[he.tailVertex()]));
        double d = std::arg(z);
        if (std::fabs(d) > M_PI - 1e-6) ok = false;
        tot += d;
      }
      // the curvature of the face: angles at the corners as rescaled in the tangent spaces, minus pi
      double kap = -M_PI;
      for (Corner c : f.adjacentCorners()) {
        double s = c.vertex().isBoundary() ? M_PI : 2 * M_PI, sum = 0, own = 0;
        for (Corner d : c.vertex().adjacentCorners()) { double an = angle(d, w); sum += an; if (d == c) own = an; }
        kap += own * s / sum;
      }
      CHECK(std::fabs(wrap(std::arg(hol) + kap)) < 1e-5 || std::fabs(wrap(std::arg(hol) - kap)) < 1e-5, "holonomy", "transport around a face turns vectors by %g, its curvature is %g", std::arg(hol), kap);
      tot += k * kap;
      double q = tot / (2 * M_PI);
      if (std::fabs(q - std::round(q)) > 1e-3) violate("index-integer", "turning of a field around a face is %g", q);
      out[f] = (int)std::lround(q);
    }
    g.unrequireTransportVectorsAlongHalfedge();
    return ok;
  }
  double angle(Corner c, View& w) {
    Halfedge he = c.halfedge();
    auto p = [&](Vertex v) { return pos(self.V[(size_t)(std::find(w.V.begin(), w.V.end(), v) - w.V.begin())]); };
    Vector3 a = p(he.tipVertex()) - p(he.tailVertex()), b = p(he.next().tipVertex()) - p(he.tailVertex());
    return std::atan2(norm(cross(a, b)), dot(a, b));
  }
  VertexData<Vector2> randomField(View& w, Rng& r, int k) {
    VertexData<Vector2> x(*w.mesh);
    if (r.chance(.4)) { x = computeSmoothestVertexDirectionField(*w.geom, k); }
    else for (Vertex v : w.V) x[v] = Vector2::fromAngle(r.real(0, 6.283));
    for (Vertex v : w.V) if (!(std::fabs(norm(x[v]) - 1) < 1e-6)) x[v] = Vector2{1, 0};
    return x;
  }
  void doIndexF(const Op& op) {
    Rng r(arg(op, 0));
    int k = sym(r);
    seedLibraryRandomness(arg(op, 1));
    onWorld(op, r, false, [&](View& w) {
      auto x = randomField(w, r, k);
      FaceData<int> want, got = interrupted(op, [&] { return computeFaceIndex(*w.geom, x, k); });
      if (!refFaceIndex(w, x, k, want)) return;
      long s = 0;
      for (size_t f = 0; f < w.F.size(); f++) {
        CHECK(got[w.F[f]] == want[w.F[f]], "face-index", "index of face %zu is %d, the %d-field turns %d times", f, got[w.F[f]], k, want[w.F[f]]);
        s += got[w.F[f]];
      }
      if (closed) CHECK(s == k * (long)W.mesh->eulerCharacteristic(), "poincare-hopf", "indices of a %d-field sum to %ld, Euler characteristic %d", k, s, (int)W.mesh->eulerCharacteristic());
      any = true;
      ctx.count("face-indices");
    });
  }
  void doIndexV(const Op& op) {
    Rng r(arg(op, 0));
    int k = sym(r);
    seedLibraryRandomness(arg(op, 1));
    onWorld(op, r, false, [&](View& w) {
      FaceData<Vector2> x(*w.mesh);
      if (r.chance(.4) && comps == 1 && w.F.size() > 2) x = computeSmoothestFaceDirectionField(*w.geom, k);
      else for (Face f : w.F) x[f] = Vector2::fromAngle(r.real(0, 6.283));
      for (Face f : w.F) if (!(std::fabs(norm(x[f]) - 1) < 1e-6)) x[f] = Vector2{1, 0};
      VertexData<int> got = interrupted(op, [&] { return computeVertexIndex(*w.geom, x, k); });
      auto& g = *w.geom;
      g.requireTransportVectorsAcrossHalfedge();
      long s = 0;
      bool ok = true;
      for (size_t i = 0; i < n; i++) {
        if (bd[i]) continue;
        double tot = k * K((long)i);
        C hol = 1;
        Halfedge he = w.V[i].halfedge(), h0 = he;
        do { // around the vertex, counter clockwise: leave the face over the halfedge that points at the vertex
          Halfedge in = he.next().next();
          C t = cx(g.transportVectorsAcrossHalfedge[in]);
          hol *= t;
          double d = std::arg(cx(x[in.twin().face()]) / (cpow(t, k) * cx(x[in.face()])));
          if (std::fabs(d) > M_PI - 1e-6) ok = false;
          tot += d;
          he = in.twin();
        } while (he != h0);
        double q = tot / (2 * M_PI);
        if (!ok) break;
        CHECK(std::fabs(q - std::round(q)) < 1e-3, "index-integer", "turning of a field around vertex %zu is %g", i, q);
        CHECK(got[w.V[i]] == (int)std::lround(q), "vertex-index", "index of vertex %zu is %d, the %d-field turns %ld times", i, got[w.V[i]], k, std::lround(q));
        s += got[w.V[i]];
      }
      g.unrequireTransportVectorsAcrossHalfedge();
      if (!ok) return;
      if (closed) CHECK(s == k * (long)W.mesh->eulerCharacteristic(), "poincare-hopf", "indices of a %d-field sum to %ld, Euler characteristic %d", k, s, (int)W.mesh->eulerCharacteristic());
      any = true;
      ctx.count("vertex-indices");
    });
  }

  // ---- stripe patterns ---------------------------------------------------------------------------------------------
  void doStripes(const Op& op) {
    Rng r(arg(op, 0));
    if (comps != 1) return;
    seedLibraryRandomness(arg(op, 1));
    onWorld(op, r, true, [&](View& w) {
      auto& g = *w.vpg;
      bool smooth = r.chance(.7);
      VertexData<Vector2> x(*w.mesh);
      if (smooth) x = computeSmoothestVertexDirectionField(g, 2);
      else for (Vertex v : w.V) x[v] = Vector2::fromAngle(r.real(0, 6.283));
      for (Vertex v : w.V) if (!(std::fabs(norm(x[v]) - 1) < 1e-6)) x[v] = Vector2{1, 0};
      VertexData<double> fr(*w.mesh);
      double f0 = r.real(.2, 3) / (mean * w.scale);
      for (Vertex v : w.V) fr[v] = r.chance(.5) ? f0 : f0 * r.real(.5, 1.5);
      CornerData<double> val;
      FaceData<int> zero, branch, want;
      std::tie(val, zero, branch) = interrupted(op, [&] { return computeStripePattern(g, fr, x); });
      if (!refFaceIndex(w, x, 2, want)) return;
      g.requireHalfedgeVectorsInVertex();
      g.requireTransportVectorsAlongHalfedge();
      std::vector<char> regular(w.F.size(), 0);
      bool allSheets = true; // the sheets of the line field fit together around every regular face
      FaceData<char> reg(*w.mesh, false);
      VertexData<double> ref(*w.mesh, 0.); // the value at a vertex, modulo 2 pi, up to its sign
      VertexData<char> haveRef(*w.mesh, false);
      EdgeData<double> inc(*w.mesh, 0.);
      EdgeData<char> haveInc(*w.mesh, false);
      for (size_t f = 0; f < w.F.size(); f++) {
        Face F = w.F[f];
        CHECK(branch[F] == want[F], "stripe-branch", "field index of face %zu is %d, the line field turns %d times", f, branch[F], want[F]);
        double t[3];
        Halfedge he = F.halfedge(), hs[3];
        for (int k = 0; k < 3; k++) { hs[k] = he; t[k] = val[he.corner()]; CHECK(std::isfinite(t[k]), "stripe-finite", "value of a corner of face %zu is not finite", f); he = he.next(); }
        for (int k = 0; k < 3; k++) { // one periodic function on the whole surface, up to the sign of the sheet
          Vertex v = hs[k].tailVertex();
          double c = std::cos(t[k]);
          if (!haveRef[v]) { ref[v] = c; haveRef[v] = true; }
          else CHECK(std::fabs(ref[v] - c) < 1e-6, "stripe-values", "corners of vertex %s have values with cosines %g and %g", "", ref[v], c);
        }
        if (branch[F] != 0) continue;
        // own 1-form on the sheet of the first corner
        C X[3];
        X[0] = std::polar(1., std::arg(cx(x[hs[0].tailVertex()])) / 2);
        bool near = false;
        C tr = X[0];
        for (int k = 1; k < 3; k++) {
          tr *= cx(g.transportVectorsAlongHalfedge[hs[k - 1]]);
          X[k] = std::polar(1., std::arg(cx(x[hs[k].tailVertex()])) / 2);
          double dt = (std::conj(tr) * X[k]).real();
          if (std::fabs(dt) < 1e-6) near = true;
          if (dt < 0) X[k] = -X[k];
        }
        if (near) { allSheets = false; continue; }
        double T[4] = {t[0], t[1], t[2], t[0] + 2 * M_PI * zero[F]};
        bool sheetsOk = true;
        for (int k = 0; k < 3; k++) {
          Halfedge h2 = hs[k];
          C tt = cx(g.transportVectorsAlongHalfedge[h2]);
          C Xi = X[k], Xj = X[(k + 1) % 3];
          if ((std::conj(tt * Xi) * Xj).real() < 1e-6) { sheetsOk = false; continue; } // the root nearest along the two other edges is not the nearest along this one
          double th = std::arg(cx(g.halfedgeVectorsInVertex[h2])), thj = th + std::arg(tt);
          double l = norm(g.inputVertexPositions[h2.tailVertex()] - g.inputVertexPositions[h2.tipVertex()]);
          double om = M_PI * l * (fr[h2.tailVertex()] * std::cos(std::arg(Xi) - th) + fr[h2.tipVertex()] * std::cos(std::arg(Xj) - thj));
          double d = T[k + 1] - T[k];
          CHECK(std::fabs(d - om) <= M_PI + 1e-5, "stripe-increment", "along halfedge %d of face %zu the value grows by %g, the frequency asks for %g", k, f, d, om);
          Edge e = h2.edge();
          if (!haveInc[e]) { inc[e] = std::fabs(d); haveInc[e] = true; }
          else CHECK(std::fabs(inc[e] - std::fabs(d)) < 1e-5 || std::fabs(std::fabs(d - om) - M_PI) < 1e-4, "stripe-edge", "the two sides of an edge see the value grow by %g and %g", inc[e], std::fabs(d));
        }
        allSheets = allSheets && sheetsOk;
        if (sheetsOk && zero[F] == 0) { regular[f] = 1; reg[F] = true; }
      }
      g.unrequireHalfedgeVectorsInVertex();
      g.unrequireTransportVectorsAlongHalfedge();
      any = true;
      ctx.count("stripes");
      if (!allSheets) { ctx.count("stripes-too-coarse"); return; }
      // isolines
      bool connect = r.chance(.4);
      std::vector<Vector3> P;
      std::vector<std::array<size_t, 2>> S;
      std::tie(P, S) = extractPolylinesFromStripePattern(g, val, zero, branch, x, connect);
      for (auto& s : S) CHECK(s[0] < P.size() && s[1] < P.size() && s[0] != s[1], "stripe-lines", "a segment joins points %zu and %zu of %zu", s[0], s[1], P.size());
      // expected segments in every face without singularities: straight lines between equal values
      double eps = 1e-6 * diam * w.scale;
      size_t expected = 0;
      for (size_t f = 0; f < w.F.size(); f++) {
        Face F = w.F[f];
        if (zero[F] != 0 || branch[F] != 0) continue;
        Halfedge he = F.halfedge();
        double t[3];
        Vector3 p[3];
        for (int k = 0; k < 3; k++) { t[k] = val[he.corner()]; p[k] = g.inputVertexPositions[he.tailVertex()]; he = he.next(); }
        double lo = std::min({t[0], t[1], t[2]}), hi = std::max({t[0], t[1], t[2]});
        bool tie = false;
        for (int k = 0; k < 3; k++) if (std::fabs(wrap(t[k])) < 1e-6) tie = true;
        if (tie) { expected = (size_t)-1; break; }
        for (double z = 2 * M_PI * std::ceil(lo / (2 * M_PI)); z < hi; z += 2 * M_PI) {
          std::vector<Vector3> q;
          for (int k = 0; k < 3; k++) {
            double a = t[k], b = t[(k + 1) % 3];
            if ((a < z) != (b < z)) q.push_back(p[k] + (z - a) / (b - a) * (p[(k + 1) % 3] - p[k]));
          }
          if (q.size() != 2) violate("stripe-lines", "impossible");
          bool found = false;
          for (auto& s : S) {
            Vector3 a = P[s[0]], b = P[s[1]];
            if ((norm(a - q[0]) < eps && norm(b - q[1]) < eps) || (norm(a - q[1]) < eps && norm(b - q[0]) < eps)) found = true;
          }
          CHECK(found, "stripe-lines", "the isoline of value %g in face %zu is missing", z / (2 * M_PI), f);
          expected++;
        }
      }
      if (expected != (size_t)-1) {
        if (!connect) CHECK(S.size() == expected, "stripe-lines", "%zu segments, expected %zu", S.size(), expected);
        else CHECK(S.size() >= expected, "stripe-lines", "%zu segments, expected at least %zu", S.size(), expected);
      }
      std::vector<int> deg(P.size(), 0);
      for (auto& s : S) { deg[s[0]]++; deg[s[1]]++; }
      for (size_t i = 0; i < P.size(); i++) CHECK(deg[i] <= 2, "stripe-lines", "point %zu belongs to %d segments", i, deg[i]);
      ctx.count(connect ? "isolines-connected" : "isolines");
    });
  }

  void step(const Op& op) {
    ctx.steps++;
    if (ctx.verbose) fprintf(stderr, "== %s\n", fNames[(size_t)op.kind].c_str());
    if (op.kind == F_edit) { if (W.edit(arg(op, 0), arg(op, 1), arg(op, 2), ctx)) { dirty = true; bff.reset(); } return; }
    refresh();
    switch (op.kind) {
    case F_require: W.requireSome(arg(op, 0), ctx); break;
    case F_unrequire: W.unrequireSome(arg(op, 0)); break;
    case F_purge: W.geom->purgeQuantities(); break;
    case F_drop: bff.reset(); break;
    case F_bff: case F_bffScale: case F_bffAngles: doBFF(op); break;
    case F_uniformize: case F_disk: doUniformize(op); break;
    case F_smoothV: case F_smoothF: doSmooth(op); break;
    case F_alignV: case F_alignF: doAlign(op); break;
    case F_curvV: case F_curvF: doCurvature(op); break;
    case F_indexF: doIndexF(op); break;
    case F_indexV: doIndexV(op); break;
    case F_stripes: doStripes(op); break;
    }
    ctx.ev((u64)op.kind);
    ctx.evd(mean);
    ctx.state(hcomb(hcomb((u64)op.kind, n), hcomb(nB, loops * 7 + comps)));
  }
};

Register reg([] {
  Scenario s;
  s.name = "fields";
  s.property = "C15";
  s.opNames = fNames;
  s.realComponents = "boundary_first_flattening, uniformize, parameterize, direction_fields, stripe_patterns, simple_idt, numerical solvers, geometry interfaces, meshes";
  s.stubComponents = "allocator failures and randomness come from the simulator";
  s.rule = "flattenings, uniformizations, direction fields, indices and stripes equal their definitions, solved densely";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["shape"] = (i64)r.weighted({2, 2, 2, 1, 3, 1, 1});
    h.cfg["size"] = r.range(1, tier ? 3 : 2);
    std::vector<double> w(F_COUNT, 1.0);
    w[F_edit] = 3; w[F_drop] = .4;
    size_t n = (size_t)r.range(5, tier ? 24 : 14), pre = (size_t)r.below(10);
    for (size_t i = 0; i < n + pre; i++) {
      Op o;
      o.kind = i < pre ? (int)F_edit : (int)r.weighted(w);
      for (int k = 0; k < 3; k++) o.a.push_back(r.next());
      if (fm && o.kind >= F_bff && r.chance(.3)) { o.fault = 1; o.fa = r.next() >> 20; }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Run run(h, ctx);
    for (auto& op : h.ops) run.step(op);
    ctx.nontrivial = run.any;
  };
  return s;
}());
} // namespace
