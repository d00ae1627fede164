// C13: exact geodesics (MMP), local geodesic balls, graph distances, fast marching and level sets, on meshes with a
// history of edits and on nonmanifold meshes, against an independent exact polyhedral distance computed by unfolding.
#include "algworld.h"
#include "geometrycentral/surface/exact_geodesics.h"
#include "geometrycentral/surface/exact_polyhedral_geodesics.h"
#include "geometrycentral/surface/fast_marching_method.h"
#include "geometrycentral/surface/marching_triangles.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "geometrycentral/surface/surface_centers.h"
#include "geometrycentral/surface/trace_geodesic.h"
using namespace sim;

namespace {
enum OpG { G_edit, G_require, G_unrequire, G_purge, G_drop, G_propagate, G_query, G_ball, G_graph, G_path, G_fmm, G_fmmSigned, G_iso, G_center, G_COUNT };
const std::vector<std::string> gNames = {"edit", "require", "unrequire", "purge", "dropSolver", "propagate", "query", "geodesicBall", "graphBall", "edgePath", "fastMarching", "signedFastMarching", "isoLines", "center"};
typedef std::vector<double> DV;
const double INF = std::numeric_limits<double>::infinity();

// ---- an independent exact polyhedral distance: triangles glued by their edge ids ------------------------------------
struct PT { // a point by its coordinates in every triangle it lies in
  std::vector<std::pair<int, std::array<double, 3>>> reps;
};
struct Poly {
  int nV = 0;
  std::vector<std::array<int, 3>> fv, fe; // fe[f][k] from corner k to k+1
  std::vector<double> len;                // by edge
  std::vector<std::vector<std::pair<int, int>>> ef;
  std::vector<std::vector<std::pair<int, int>>> vf; // (face, corner)
  std::vector<DV> D;                                // all pairs over vertices
  u64 windows = 0;
  bool overflow = false;

  double L(int f, int k) const { return len[(size_t)fe[(size_t)f][(size_t)k]]; }
  PT vertex(int v) const {
    PT p;
    for (auto& x : vf[(size_t)v]) {
      std::array<double, 3> b{0, 0, 0};
      b[(size_t)x.second] = 1;
      p.reps.push_back({x.first, b});
    }
    return p;
  }
  // t from the endpoint `tail`
  PT edge(int e, int tail, double t) const {
    PT p;
    for (auto& x : ef[(size_t)e]) {
      std::array<double, 3> b{0, 0, 0};
      size_t i = (size_t)x.second, j = (i + 1) % 3;
      bool fwd = fv[(size_t)x.first][i] == tail;
      b[i] = fwd ? 1 - t : t;
      b[j] = fwd ? t : 1 - t;
      p.reps.push_back({x.first, b});
    }
    return p;
  }
  static PT face(int f, Vector3 b) { return PT{{{f, {b[0], b[1], b[2]}}}}; }
  std::array<Vector2, 3> layout(int f) const {
    double a = L(f, 0), b = L(f, 1), c = L(f, 2);
    double x = (a * a + c * c - b * b) / (2 * a);
    return {Vector2{0, 0}, Vector2{a, 0}, Vector2{x, std::sqrt(std::max(0., c * c - x * x))}};
  }
  double inFace(const PT& a, const PT& b) const {
    double r = INF;
    for (auto& x : a.reps)
      for (auto& y : b.reps)
        if (x.first == y.first) {
          auto P = layout(x.first);
          Vector2 d{0, 0};
          for (size_t k = 0; k < 3; k++) d += (x.second[k] - y.second[k]) * P[k];
          r = std::min(r, norm(d));
        }
    return r;
  }
  // lengths of the straight lines from `r` that unfold to each target; INF where there is none (shorter than bound)
  struct Win { int e, f; Vector2 a, b, p, q; int va, vb; };
  DV visible(const PT& r, const std::vector<PT>& targets, double bound) {
    DV out(targets.size(), INF);
    std::vector<std::vector<std::pair<int, std::array<double, 3>>>> at(fv.size());
    for (size_t i = 0; i < targets.size(); i++)
      for (auto& x : targets[i].reps) at[(size_t)x.first].push_back({(int)i, x.second});
    std::vector<Win> st;
    for (auto& x : r.reps) {
      auto P = layout(x.first);
      Vector2 o{0, 0};
      for (size_t k = 0; k < 3; k++) o += x.second[k] * P[k];
      for (auto& v : P) v -= o;
      for (auto& t : at[(size_t)x.first]) {
        Vector2 y{0, 0};
        for (size_t k = 0; k < 3; k++) y += t.second[k] * P[k];
        out[(size_t)t.first] = std::min(out[(size_t)t.first], norm(y));
      }
      for (size_t k = 0; k < 3; k++) {
        if (x.second[(k + 2) % 3] < 1e-12) continue; // on this side
        size_t j = (k + 1) % 3;
        st.push_back({fe[(size_t)x.first][k], x.first, P[k], P[j], P[k], P[j], fv[(size_t)x.first][k], fv[(size_t)x.first][j]});
      }
    }
    u64 cnt = 0;
    while (!st.empty()) {
      Win w = st.back();
      st.pop_back();
      if (++cnt > 60000) { overflow = true; break; }
      // the part of the edge inside of the cone (p, q), cross(a, b) > 0
      Vector2 d = w.b - w.a;
      auto hit = [&](Vector2 dir) {
        double den = cross(dir, d);
        double t = std::fabs(den) < 1e-300 ? 0 : cross(dir, w.a) / -den;
        t = std::min(1., std::max(0., t));
        return w.a + t * d;
      };
      Vector2 x = hit(w.p), y = hit(w.q), e = y - x;
      double t = norm2(e) > 0 ? std::min(1., std::max(0., -dot(x, e) / norm2(e))) : 0;
      if (norm(x + t * e) > bound) continue;
      for (auto& nf : ef[(size_t)w.e]) {
        if (nf.first == w.f) continue;
        size_t f = (size_t)nf.first, k = (size_t)nf.second;
        bool fwd = fv[f][k] == w.va; // corner k is a
        size_t ka = fwd ? k : (k + 1) % 3, kb = fwd ? (k + 1) % 3 : k, kc = (k + 2) % 3;
        double l = len[(size_t)w.e];
        int ea = fwd ? fe[f][(k + 2) % 3] : fe[f][(k + 1) % 3], eb = fwd ? fe[f][(k + 1) % 3] : fe[f][(k + 2) % 3];
        double la = len[(size_t)ea], lb = len[(size_t)eb];
        Vector2 u = d / norm(d), n{u.y, -u.x}; // away from the origin
        double cx = (l * l + la * la - lb * lb) / (2 * l), cy = std::sqrt(std::max(0., la * la - cx * cx));
        Vector2 c = w.a + cx * u + cy * n;
        for (auto& tg : at[f]) {
          Vector2 y2 = tg.second[ka] * w.a + tg.second[kb] * w.b + tg.second[kc] * c;
          double tol = 1e-11 * norm(y2);
          if (cross(w.p, y2) >= -tol * norm(w.p) && cross(y2, w.q) >= -tol * norm(w.q))
            out[(size_t)tg.first] = std::min(out[(size_t)tg.first], norm(y2));
        }
        int vc = fv[f][kc];
        if (cross(w.p, c) > 0) st.push_back({ea, (int)f, w.a, c, w.p, cross(w.q, c) < 0 ? c : w.q, w.va, vc});
        if (cross(c, w.q) > 0) st.push_back({eb, (int)f, c, w.b, cross(c, w.p) < 0 ? c : w.p, w.q, vc, w.vb});
      }
    }
    windows += cnt;
    return out;
  }
  std::vector<PT> verts() const {
    std::vector<PT> r;
    for (int v = 0; v < nV; v++) r.push_back(vertex(v));
    return r;
  }
  DV graph(const DV& start) const { // shortest along edges
    DV d = start;
    std::vector<char> fin((size_t)nV, 0);
    for (;;) {
      int b = -1;
      for (int v = 0; v < nV; v++)
        if (!fin[(size_t)v] && d[(size_t)v] < INF && (b < 0 || d[(size_t)v] < d[(size_t)b])) b = v;
      if (b < 0) return d;
      fin[(size_t)b] = 1;
      for (auto& x : vf[(size_t)b])
        for (size_t k : {(size_t)x.second, (size_t)(x.second + 2) % 3}) {
          int e = fe[(size_t)x.first][k];
          int o = fv[(size_t)x.first][k] == b ? fv[(size_t)x.first][(k + 1) % 3] : fv[(size_t)x.first][k];
          d[(size_t)o] = std::min(d[(size_t)o], d[(size_t)b] + len[(size_t)e]);
        }
    }
  }
  static double farthest(const DV& d) {
    double m = 0;
    for (double x : d) if (x < INF) m = std::max(m, x);
    return m;
  }
  void allPairs() {
    std::vector<PT> T = verts();
    D.clear();
    for (int v = 0; v < nV; v++) {
      DV s((size_t)nV, INF);
      s[(size_t)v] = 0;
      D.push_back(visible(T[(size_t)v], T, farthest(graph(s)) * 1.0001));
    }
    for (size_t k = 0; k < (size_t)nV; k++)
      for (size_t i = 0; i < (size_t)nV; i++)
        for (size_t j = 0; j < (size_t)nV; j++) D[i][j] = std::min(D[i][j], D[i][k] + D[k][j]);
  }
  // distances from a point to the targets, and to the vertices
  DV from(const PT& p, const std::vector<PT>& targets, DV* toV = nullptr) {
    std::vector<PT> T = verts();
    size_t n = T.size();
    for (auto& t : targets) T.push_back(t);
    DV s(n, INF);
    double mx = 0;
    for (double l : len) mx = std::max(mx, l);
    for (size_t v = 0; v < n; v++) s[v] = inFace(p, T[v]);
    DV d = visible(p, T, (farthest(graph(s)) + mx) * 1.0001);
    DV dv(n, INF);
    for (size_t u = 0; u < n; u++)
      for (size_t v = 0; v < n; v++) dv[v] = std::min(dv[v], d[u] + D[u][v]);
    DV r;
    for (size_t i = 0; i < targets.size(); i++) {
      // last leg: straight lines seen from the target
      DV b = visible(targets[i], T, mx + Poly::farthest(dv));
      double best = d[n + i];
      for (size_t v = 0; v < n; v++) best = std::min(best, dv[v] + b[v]);
      r.push_back(best);
    }
    if (toV) *toV = dv;
    return r;
  }
};

struct G13 { // the mesh a run works on
  SurfaceMesh* mesh = nullptr;
  IntrinsicGeometryInterface* geom = nullptr;
  std::vector<Vertex> V;
  std::vector<Edge> E;
  std::vector<Face> F;
  double scale = 1;
  void index() {
    V.clear(); E.clear(); F.clear();
    for (Vertex v : mesh->vertices()) V.push_back(v);
    for (Edge e : mesh->edges()) E.push_back(e);
    for (Face f : mesh->faces()) F.push_back(f);
  }
};
struct Pt { int type; size_t i; double t; Vector3 b; };
SurfacePoint at(const G13& w, const Pt& p) {
  if (p.type == 0) return SurfacePoint(w.V[p.i]);
  if (p.type == 1) return SurfacePoint(w.E[p.i], p.t);
  return SurfacePoint(w.F[p.i], p.b);
}

struct Run {
  const History& h;
  Ctx& ctx;
  int world;
  AlgWorld W;                                // worlds 0
  std::unique_ptr<SurfaceMesh> gm;           // other worlds
  std::unique_ptr<VertexPositionGeometry> gv;
  std::unique_ptr<EdgeLengthGeometry> gl;
  G13 self;
  View view;                                 // of another realization of world 0, when in use
  G13 other;
  bool useOther = false;
  std::unique_ptr<GeodesicAlgorithmExact> mmp;
  Poly ref;
  bool dirty = true, leaky = false, manifold = true, any = false;
  double mean = 1, minLen = 1, diam = 1, minAng = 60;
  // state of the last propagation
  std::vector<Pt> sources, stops;
  double radius = 0;
  bool propagated = false;

  Run(const History& hh, Ctx& c) : h(hh), ctx(c) {
    world = (int)h.get("world");
    if (world == 0) { W.build(h); return; }
    Soup s;
    Rng r(h.seed ^ 0x77);
    if (world == 3 || world == 4) {
      s = makeManifoldSoup((int)h.get("shape"), (int)h.get("size"), h.seed, true);
      triangulateSoup(s);
    } else {
      s = makeGeneralSoup((int)h.get("shape"), (int)h.get("size"), h.seed);
      triangulateSoup(s);
    }
    compactSoup(s);
    for (auto& p : s.polys) {
      std::set<size_t> u(p.begin(), p.end());
      if (u.size() != 3) throw Discard{"degenerate triangle"};
    }
    if (s.polys.empty() || s.polys.size() > 90 || s.pos.size() > 60) throw Discard{"size"};
    try {
      if (world == 3 || world == 4) gm.reset(new ManifoldSurfaceMesh(s.polys));
      else gm.reset(new SurfaceMesh(s.polys));
    } catch (const std::runtime_error&) { throw Discard{"refused"}; }
    if (world == 2 || world == 4) {
      VertexData<Vector3> P(*gm);
      for (Vertex v : gm->vertices()) P[v] = s.pos[v.getIndex()] + .15 * Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
      gv.reset(new VertexPositionGeometry(*gm, P));
    } else {
      EdgeData<double> l(*gm);
      double hi = r.real(1.05, 1.8);
      for (Edge e : gm->edges()) l[e] = r.real(1, hi);
      gl.reset(new EdgeLengthGeometry(*gm, l));
    }
  }
  void refresh() {
    if (!dirty) return;
    mmp.reset();
    propagated = false;
    useOther = false;
    if (world == 0) { self.mesh = W.mesh.get(); self.geom = W.geom.get(); }
    else { self.mesh = gm.get(); self.geom = gv ? (IntrinsicGeometryInterface*)gv.get() : gl.get(); }
    self.index();
    ref = Poly();
    VertexData<int> vi(*self.mesh);
    EdgeData<int> ei(*self.mesh);
    int i = 0;
    for (Vertex v : self.V) vi[v] = i++;
    ref.nV = i;
    i = 0;
    for (Edge e : self.E) {
      ei[e] = i++;
      if (world == 0) ref.len.push_back(norm(W.geom->inputVertexPositions[e.firstVertex()] - W.geom->inputVertexPositions[e.secondVertex()]));
      else if (gv) ref.len.push_back(norm(gv->inputVertexPositions[e.firstVertex()] - gv->inputVertexPositions[e.secondVertex()]));
      else ref.len.push_back(gl->inputEdgeLengths[e]);
    }
    ref.ef.resize(ref.len.size());
    ref.vf.resize((size_t)ref.nV);
    minAng = 180;
    for (Face f : self.F) {
      std::array<int, 3> a, b;
      size_t k = 0;
      for (Halfedge he : f.adjacentHalfedges()) { a[k] = vi[he.tailVertex()]; b[k++] = ei[he.edge()]; }
      int fi = (int)ref.fv.size();
      ref.fv.push_back(a);
      ref.fe.push_back(b);
      for (int c = 0; c < 3; c++) {
        ref.ef[(size_t)b[(size_t)c]].push_back({fi, c});
        ref.vf[(size_t)a[(size_t)c]].push_back({fi, c});
      }
      for (int c = 0; c < 3; c++) {
        double x = ref.L(fi, c), y = ref.L(fi, (c + 1) % 3), z = ref.L(fi, (c + 2) % 3);
        if (x >= y + z) minAng = 0;
        minAng = std::min(minAng, 180 / M_PI * std::acos(std::max(-1., std::min(1., (x * x + z * z - y * y) / (2 * x * z)))));
      }
    }
    mean = 0; minLen = INF;
    for (double l : ref.len) { mean += l; minLen = std::min(minLen, l); }
    mean /= (double)ref.len.size();
    manifold = world == 0 || world >= 3;
    if (world != 0 && minAng < 3) throw Discard{"sliver"};
    ref.allPairs();
    diam = 0;
    for (auto& d : ref.D) diam = std::max(diam, Poly::farthest(d));
    dirty = false;
    u64 st = hcomb(hcomb((u64)world, self.V.size()), self.F.size());
    st = hcomb(st, self.mesh->isCompressed());
    ctx.state(st);
    ctx.ev(st);
    ctx.evd(diam);
    if (ref.overflow) throw Discard{"too many windows"};
  }
  double tol() const { return 2e-5 * diam + 1e-5 * mean; }
  PT pt(const Pt& p) const {
    if (p.type == 0) return ref.vertex((int)p.i);
    if (p.type == 1) {
      Vertex v = self.E[p.i].halfedge().tailVertex();
      int tail = (int)(std::find(self.V.begin(), self.V.end(), v) - self.V.begin());
      return ref.edge((int)p.i, tail, p.t);
    }
    return Poly::face((int)p.i, p.b);
  }
  // a point of a realization
  PT pt(const G13& w, const SurfacePoint& p) const {
    Pt q;
    q.type = p.type == SurfacePointType::Vertex ? 0 : p.type == SurfacePointType::Edge ? 1 : 2;
    q.t = p.tEdge;
    q.b = p.faceCoords;
    if (q.type == 0) q.i = (size_t)(std::find(w.V.begin(), w.V.end(), p.vertex) - w.V.begin());
    if (q.type == 1) q.i = (size_t)(std::find(w.E.begin(), w.E.end(), p.edge) - w.E.begin());
    if (q.type == 2) q.i = (size_t)(std::find(w.F.begin(), w.F.end(), p.face) - w.F.begin());
    CHECK(q.i < (q.type == 0 ? w.V.size() : q.type == 1 ? w.E.size() : w.F.size()), "point-dead", "a returned surface point is not on a live element of the mesh");
    return pt(q);
  }
  Pt point(Rng& r, int maxType = 2) {
    Pt p;
    p.type = r.chance(.35) ? 0 : (int)r.below((u64)maxType + 1);
    p.t = r.real(.05, .95);
    double a = r.real(.05, 1), b = r.real(.05, 1), c = r.real(.05, 1);
    p.b = Vector3{a, b, c} / (a + b + c);
    p.i = (size_t)r.below(p.type == 0 ? self.V.size() : p.type == 1 ? self.E.size() : self.F.size());
    return p;
  }
  std::vector<Pt> points(Rng& r, size_t most, int maxType = 2) {
    std::vector<Pt> v;
    size_t k = 1 + (size_t)r.below(r.chance(.5) ? 1 : most);
    for (size_t i = 0; i < k; i++) v.push_back(point(r, maxType));
    return v;
  }
  std::string name(const Pt& p) {
    char b[80];
    snprintf(b, sizeof b, p.type == 0 ? "vertex %zu" : p.type == 1 ? "edge %zu at %.3g" : "face %zu", p.i, p.t);
    return b;
  }
  G13& cur() { return useOther ? other : self; }

  // ---- MMP ----
  void propagate(const Op& op) {
    Rng r(arg(op, 0));
    if (!mmp || r.chance(.15)) {
      mmp.reset();
      useOther = false;
      if (world == 0 && r.chance(.4)) { // another realization of the same surface
        int k = (int)r.below(3);
        view = k == 0 ? W.compressed() : k == 1 ? W.transformed(arg(op, 1)) : W.lengthsOnly();
        view.index();
        other = G13();
        other.mesh = view.mesh; other.geom = view.geom; other.scale = view.scale;
        other.index();
        useOther = true;
      }
      mmp.reset(new GeodesicAlgorithmExact(*cur().mesh, *cur().geom));
    }
    G13& w = cur();
    sources = points(r, 4);
    stops.clear();
    if (r.chance(.35)) stops = points(r, 3);
    radius = r.chance(.3) ? r.real(.1, 1.1) * diam : 0;
    std::vector<SurfacePoint> sp, tp;
    std::vector<Vertex> sv, tv;
    bool allV = true;
    for (auto& p : sources) { sp.push_back(at(w, p)); allV = allV && p.type == 0; }
    for (auto& p : stops) { tp.push_back(at(w, p)); allV = allV && p.type == 0; }
    double R = radius > 0 ? radius * w.scale : GEODESIC_INF;
    int how = (int)r.below(3);
    if (ctx.verbose) {
      fprintf(stderr, "world %d other %d radius %g\n", world, useOther, radius);
      for (auto& p : sources) fprintf(stderr, "  source %s\n", name(p).c_str());
      for (auto& p : stops) fprintf(stderr, "  stop %s\n", name(p).c_str());
    }
    auto run = [&]() {
      if (allV && how == 0) {
        for (auto& p : sources) sv.push_back(w.V[p.i]);
        for (auto& p : stops) tv.push_back(w.V[p.i]);
        if (sv.size() == 1) mmp->propagate(sv[0], R, tv);
        else mmp->propagate(sv, R, tv);
      } else if (sp.size() == 1 && how == 1) mmp->propagate(sp[0], R, tp);
      else mmp->propagate(sp, R, tp);
    };
    if (op.fault) {
      ctx.fault("allocation-failure-armed");
      seam::allocArm((i64)(op.fa % 800));
      bool failed = false;
      try { run(); } catch (const std::bad_alloc&) { failed = true; }
      if (seam::allocDisarm()) { ctx.fault("allocation-failure"); leaky = leaky || failed; }
      sv.clear(); tv.clear();
    }
    run();
    propagated = true;
    query(op);
    ctx.count("propagate");
  }
  void query(const Op& op) {
    if (!propagated) return;
    Rng r(arg(op, 1));
    G13& w = cur();
    GeodesicAlgorithmExact& A = *mmp;
    double T = tol();
    std::vector<PT> S;
    for (auto& p : sources) S.push_back(pt(p));
    // distances to all vertices
    std::vector<DV> toV(S.size());
    std::vector<DV> SS;
    DV best(self.V.size(), INF);
    for (size_t i = 0; i < S.size(); i++) {
      ref.from(S[i], {}, &toV[i]);
      for (size_t v = 0; v < best.size(); v++) best[v] = std::min(best[v], toV[i][v]);
    }
    if (ref.overflow) throw Discard{"too many windows"};
    bool limited = !stops.empty();
    auto judge = [&](double got, double want, bool must, const char* what, const std::string& where) {
      if (ctx.verbose) fprintf(stderr, "  %s %s: %.9g want %.9g\n", what, where.c_str(), got / w.scale, want);
      if (want == INF) { CHECK(got > 1e90, "unreachable", "%s %s is %g, but it is not connected to the sources", what, where.c_str(), got); return; }
      if (got > 1e90) { CHECK(!must, "no-answer", "%s %s has no value, although it was asked for", what, where.c_str()); return; }
      CHECK(std::fabs(got / w.scale - want) <= T, "distance", "%s %s is %.9g instead of %.9g", what, where.c_str(), got / w.scale, want);
      ctx.count("judged");
    };
    auto mustKnow = [&](double want) { return !limited || (radius > 0 && want < radius - T); };
    VertexData<double> all = A.getDistanceFunction();
    if (ctx.verbose && getenv("SIM_DUMP")) {
      for (size_t f = 0; f < ref.fv.size(); f++) fprintf(stderr, "face %zu: %d %d %d edges %d %d %d\n", f, ref.fv[f][0], ref.fv[f][1], ref.fv[f][2], ref.fe[f][0], ref.fe[f][1], ref.fe[f][2]);
      for (size_t e = 0; e < w.E.size(); e++) {
        IntervalList il = A.getEdgeIntervals(w.E[e]);
        fprintf(stderr, "edge %zu (%zu-%zu) length %g:", e, (size_t)w.E[e].firstVertex().getIndex(), (size_t)w.E[e].secondVertex().getIndex(), ref.len[e]);
        for (auto p = il.first(); p; p = p->next()) fprintf(stderr, " [%.9g,%.9g] d %g x %g y %g min %g src %u", p->start(), p->stop(), p->d(), p->pseudo_x(), p->pseudo_y(), p->min(), p->source_index());
        fprintf(stderr, "\n");
      }
    }
    for (size_t v = 0; v < best.size(); v++) judge(all[w.V[v]], best[v], mustKnow(best[v]), "distance of", name(Pt{0, v, 0, {}}));
    size_t nq = 2 + (size_t)r.below(4);
    for (size_t k = 0; k < nq; k++) {
      bool isStop = k < stops.size();
      Pt q = isStop ? stops[k] : r.chance(.1) ? sources[(size_t)r.below(sources.size())] : point(r);
      PT Q = pt(q);
      DV ds = ref.from(Q, S);
      if (ref.overflow) throw Discard{"too many windows"};
      double want = *std::min_element(ds.begin(), ds.end());
      SurfacePoint sq = at(w, q);
      bool vq = q.type == 0 && r.chance(.5);
      double got = vq ? A.getDistance(sq.vertex) : A.getDistance(sq);
      judge(got, want, isStop || mustKnow(want), "distance of", name(q));
      if (got > 1e90 || want == INF) continue;
      auto cs = vq ? A.closestSource(sq.vertex) : A.closestSource(sq);
      CHECK(cs.first < sources.size(), "closest-source", "the closest source of %s is number %u of %zu", name(q).c_str(), cs.first, sources.size());
      CHECK(ds[cs.first] <= want + T, "closest-source", "the closest source of %s is given as number %u at distance %g, but there is one at %g", name(q).c_str(), cs.first, ds[cs.first], want);
      CHECK(cs.second == got, "closest-source", "closestSource and getDistance disagree");
      // path
      double pl = -1;
      std::vector<SurfacePoint> path = vq ? A.traceBack(sq.vertex, pl) : A.traceBack(sq, pl);
      CHECK(!path.empty(), "path", "no path from %s at distance %g", name(q).c_str(), want);
      CHECK(std::fabs(pl / w.scale - want) <= T, "path-length", "the path from %s has length %g instead of %g", name(q).c_str(), pl / w.scale, want);
      std::vector<PT> PP;
      for (auto& p : path) PP.push_back(pt(w, p));
      CHECK(path[0] == sq, "path", "the path does not start at the query point");
      double sum = 0;
      for (size_t i = 0; i + 1 < PP.size(); i++) {
        double d = ref.inFace(PP[i], PP[i + 1]);
        if (ctx.verbose) { std::stringstream q1, q2; q1 << path[i]; q2 << path[i + 1]; fprintf(stderr, "  path %s to %s: %g\n", q1.str().c_str(), q2.str().c_str(), d); }
        CHECK(d < INF, "path", "points %zu and %zu of the path from %s do not share a face", i, i + 1, name(q).c_str());
        sum += d;
      }
      CHECK(std::fabs(sum - want) <= 3 * T, "path-length", "the points of the path from %s are %g apart in total, instead of %g", name(q).c_str(), sum, want);
      bool ends = false;
      for (size_t i = 0; i < S.size(); i++) ends = ends || (ref.inFace(PP.back(), S[i]) < T && ds[i] < want + T);
      CHECK(ends, "path", "the path from %s does not end at a closest source", name(q).c_str());
      ctx.count("path");
      if (!manifold || want < .02 * mean) continue;
      // gradient: walking against it by h gets closer by h
      Vector2 g = vq ? A.getDistanceGradient(sq.vertex) : A.getDistanceGradient(sq);
      CHECK(std::fabs(norm(g) - 1) < 1e-6, "gradient", "the gradient at %s has length %g", name(q).c_str(), norm(g));
      TraceOptions opt;
      double seg0 = ref.inFace(PP[0], PP[1]), hs = .5 * std::min(seg0, want);
      if (hs > .01 * mean && !alongBoundary(PP[0], PP[1])) {
        TraceGeodesicResult tr = traceGeodesic(*w.geom, sq, -g * hs * w.scale, opt);
        DV dd = ref.from(pt(w, tr.endPoint), S);
        double m = *std::min_element(dd.begin(), dd.end());
        if (ctx.verbose) { std::stringstream q; q << g.x << " " << g.y << " end " << tr.endPoint; fprintf(stderr, "  %s\n", q.str().c_str()); }
        if (ctx.verbose) fprintf(stderr, "  gradient at %s: %g, then %g after %g\n", name(q).c_str(), want, m, hs);
        CHECK(std::fabs(m - (want - hs)) <= 2 * T, "gradient", "walking %g against the gradient at %s changes the distance from %g to %g", hs, name(q).c_str(), want, m);
        ctx.count("gradient");
      }
      // logarithm: points from the closest source to the query
      Vector2 lg = vq ? A.getLog(sq.vertex) : A.getLog(sq);
      CHECK(std::fabs(norm(lg) / w.scale - want) <= T, "log", "the logarithm of %s has length %g instead of %g", name(q).c_str(), norm(lg) / w.scale, want);
      double seg1 = ref.inFace(PP[PP.size() - 1], PP[PP.size() - 2]);
      hs = .5 * std::min(seg1, want);
      if (hs > .01 * mean && !alongBoundary(PP[PP.size() - 1], PP[PP.size() - 2])) {
        TraceGeodesicResult tr = traceGeodesic(*w.geom, path.back(), unit(lg) * hs * w.scale, opt);
        DV dd = ref.from(pt(w, tr.endPoint), {Q});
        if (ctx.verbose) fprintf(stderr, "  log at source, %g, then %g after %g\n", want, dd[0], hs);
        CHECK(std::fabs(dd[0] - (want - hs)) <= 2 * T, "log", "walking %g along the logarithm of %s leaves %g of %g", hs, name(q).c_str(), dd[0], want);
        ctx.count("log");
      }
    }
    any = true;
  }

  // tracing along a boundary edge may leave the mesh by rounding
  bool alongBoundary(const PT& a, const PT& b) const {
    for (auto& x : a.reps)
      for (auto& y : b.reps)
        for (size_t k = 0; k < 3; k++)
          if (x.first == y.first && std::fabs(x.second[k]) < 1e-9 && std::fabs(y.second[k]) < 1e-9 && ref.ef[(size_t)ref.fe[(size_t)x.first][(k + 1) % 3]].size() == 1) return true;
    return false;
  }
  // ---- balls and paths ----
  void ball(const Op& op) {
    if (!manifold) return;
    Rng r(arg(op, 0));
    size_t v = (size_t)r.below(self.V.size());
    double R = r.real(.1, .6) * diam, T = tol();
    std::unordered_map<Vertex, double> got = vertexGeodesicDistanceWithinRadius(*self.geom, self.V[v], R);
    for (size_t u = 0; u < self.V.size(); u++) {
      double d = ref.D[v][u];
      auto it = got.find(self.V[u]);
      if (std::fabs(d - R) < T) continue;
      CHECK((it != got.end()) == (d < R), "geodesic-ball", "vertex %zu at distance %g is %s the ball of radius %g", u, d, it != got.end() ? "in" : "not in", R);
      if (it != got.end()) CHECK(std::fabs(it->second - d) < T, "geodesic-ball", "distance of vertex %zu is %g instead of %g", u, it->second, d);
    }
    for (auto& x : got) CHECK(!x.first.isDead(), "geodesic-ball", "a dead vertex is in the ball");
    any = true;
    ctx.count("geodesic-ball");
  }
  DV graphFrom(size_t v) {
    DV s(self.V.size(), INF);
    s[v] = 0;
    return ref.graph(s);
  }
  void graphBall(const Op& op) {
    Rng r(arg(op, 0));
    size_t v = (size_t)r.below(self.V.size());
    DV d = graphFrom(v);
    double R = r.chance(.2) ? 2 * diam + 5 * mean : r.real(0, .8) * diam, T = 1e-9 * (diam + mean);
    std::unordered_map<Vertex, double> got = vertexDijkstraDistanceWithinRadius(*self.geom, self.V[v], R);
    size_t n = 0;
    for (size_t u = 0; u < self.V.size(); u++) {
      auto it = got.find(self.V[u]);
      n += it != got.end();
      if (std::fabs(d[u] - R) < T) continue;
      CHECK((it != got.end()) == (d[u] < R), "graph-ball", "vertex %zu at edge distance %g is %s the ball of radius %g", u, d[u], it != got.end() ? "in" : "not in", R);
      if (it != got.end()) CHECK(std::fabs(it->second - d[u]) < T, "graph-ball", "edge distance of vertex %zu is %g instead of %g", u, it->second, d[u]);
    }
    CHECK(n == got.size(), "graph-ball", "there are dead vertices in the ball");
    any = true;
    ctx.count("graph-ball");
  }
  void edgePath(const Op& op) {
    if (!manifold) return;
    Rng r(arg(op, 0));
    size_t a = (size_t)r.below(self.V.size()), b = (size_t)r.below(self.V.size());
    DV d = graphFrom(a);
    std::vector<Halfedge> p = shortestEdgePath(*self.geom, self.V[a], self.V[b]);
    if (a == b || d[b] == INF) { CHECK(p.empty(), "edge-path", "a path of %zu edges where there is none", p.size()); return; }
    CHECK(!p.empty(), "edge-path", "no path although the vertices are connected");
    Vertex v = self.V[a];
    double sum = 0;
    for (Halfedge he : p) {
      CHECK(he.tailVertex() == v, "edge-path", "the path is not connected");
      v = he.tipVertex();
      sum += ref.len[(size_t)(std::find(self.E.begin(), self.E.end(), he.edge()) - self.E.begin())];
    }
    CHECK(v == self.V[b], "edge-path", "the path does not end at the target");
    CHECK(std::fabs(sum - d[b]) < 1e-9 * (diam + mean), "edge-path", "the path has length %g, the shortest is %g", sum, d[b]);
    any = true;
    ctx.count("edge-path");
  }

  // ---- fast marching: the published algorithm, from the edge lengths ----
  struct Init { std::vector<std::vector<std::pair<Pt, double>>> c; };
  DV marchRef(const Init& in, double bias) {
    size_t n = self.V.size();
    DV t(n, INF);
    std::vector<char> src(n, 0), fin(n, 0);
    for (auto& c : in.c)
      for (auto& x : c)  {
        PT p = pt(x.first);
        // the vertices of the element the point lies on
        for (size_t k = 0; k < 3; k++) {
          size_t f = (size_t)p.reps[0].first;
          bool mine = x.first.type == 2 || (x.first.type == 0 ? (size_t)ref.fv[f][k] == x.first.i : false);
          if (x.first.type == 1) {
            size_t kk = 0;
            for (size_t q = 0; q < 3; q++) if ((size_t)ref.fe[f][q] == x.first.i) kk = q;
            mine = k == kk || k == (kk + 1) % 3;
          }
          if (!mine) continue;
          size_t v = (size_t)ref.fv[f][k];
          std::array<double, 3> b{0, 0, 0};
          b[k] = 1;
          double d = ref.inFace(PT{{p.reps[0]}}, PT{{{(int)f, b}}});
          t[v] = std::min(t[v], x.second + d);
          src[v] = 1;
        }
      }
    for (;;) {
      size_t b = NONE;
      for (size_t v = 0; v < n; v++) if (!fin[v] && t[v] < INF && (b == NONE || t[v] < t[b])) b = v;
      if (b == NONE) return t;
      fin[b] = 1;
      for (auto& x : ref.vf[b]) {
        size_t f = (size_t)x.first;
        for (size_t k = 1; k < 3; k++) { // the other vertices of the triangle
          size_t kc = ((size_t)x.second + k) % 3, ka = ((size_t)x.second + 3 - k) % 3;
          size_t c = (size_t)ref.fv[f][kc], a = (size_t)ref.fv[f][ka];
          if (fin[c] || src[c]) continue;
          auto side = [&](size_t i, size_t j) { return ref.L((int)f, (int)((i + 1) % 3 == j ? i : j)); };
          double lb = side((size_t)x.second, kc), la = side(ka, kc), lab = side((size_t)x.second, ka);
          double cand = t[b] + lb;
          if (fin[a] && a != b) {
            double dA = t[a], dB = t[b]; // dA <= dB
            double cth = (la * la + lb * lb - lab * lab) / (2 * la * lb), th = std::acos(cth) + bias;
            cth = std::cos(th);
            cand = std::min(cand, dA + la);
            if (th <= M_PI / 2) { // front as a line: unfold a virtual source at distances dA, dB
              double u = dB - dA, qa = lab * lab, qb = 2 * la * u * (lb * cth - la), qc = la * la * (u * u - lb * lb * (1 - cth * cth));
              double disc = qb * qb - 4 * qa * qc;
              if (disc >= 0) {
                double s = (-qb + std::sqrt(disc)) / (2 * qa), y = la * (s - u) / s;
                if (u < s && lb * cth < y && y < lb / cth) cand = dA + s;
              }
            } else {
              double alt = la * lb * std::sqrt(std::max(0., 1 - cth * cth)) / lab;
              cand = std::min(cand, std::max(dA, dB) + alt);
            }
          }
          t[c] = std::min(t[c], cand);
        }
      }
    }
  }
  bool marchRef2(const Init& in, DV& out) { // false: depends on rounding (right angles)
    out = marchRef(in, 1e-9);
    DV b = marchRef(in, -1e-9);
    for (size_t i = 0; i < out.size(); i++) if (out[i] != b[i]) return false;
    return true;
  }
  template <class F> void onSomeWorld(Rng& r, u64 salt, F f) {
    if (world == 0 && r.chance(.4)) {
      int k = (int)r.below(3);
      View v = k == 0 ? W.compressed() : k == 1 ? W.transformed(salt) : W.lengthsOnly();
      v.index();
      G13 g;
      g.mesh = v.mesh; g.geom = v.geom; g.scale = v.scale;
      g.index();
      f(g);
    } else f(self);
  }
  void fmm(const Op& op) {
    if (!manifold) return;
    Rng r(arg(op, 0));
    Init in;
    bool onlyV = r.chance(.3);
    size_t nc = 1 + (size_t)r.below(2);
    for (size_t i = 0; i < nc; i++) {
      in.c.emplace_back();
      for (auto& p : points(r, 4, onlyV ? 0 : 2)) in.c.back().push_back({p, r.chance(.6) ? 0 : r.real(0, .5) * diam});
      if (onlyV && nc == 1) break;
    }
    DV want;
    if (!marchRef2(in, want)) { ctx.count("ill-conditioned"); return; }
    onSomeWorld(r, arg(op, 1), [&](G13& w) {
      VertexData<double> got;
      if (onlyV && in.c.size() == 1) {
        std::vector<std::pair<Vertex, double>> x;
        for (auto& p : in.c[0]) x.push_back({w.V[p.first.i], p.second * w.scale});
        got = FMMDistance(*w.geom, x);
      } else {
        std::vector<std::vector<std::pair<SurfacePoint, double>>> x;
        for (auto& c : in.c) {
          x.emplace_back();
          for (auto& p : c) x.back().push_back({at(w, p.first), p.second * w.scale});
        }
        got = FMMDistance(*w.geom, x);
      }
      for (size_t v = 0; v < want.size(); v++) {
        double g = got[w.V[v]] / w.scale;
        if (ctx.verbose && getenv("SIM_DUMP")) fprintf(stderr, "  %zu: %.9g want %.9g\n", v, g, want[v]);
        if (want[v] == INF) { CHECK(std::isinf(g), "fmm-unreachable", "fast marching gives %g at a vertex not connected to the sources", g); continue; }
        CHECK(std::fabs(g - want[v]) <= 1e-8 * (diam + mean), "fmm", "fast marching distance of vertex %zu is %.9g instead of %.9g", v, g, want[v]);
      }
    });
    any = true;
    ctx.count("fast-marching");
  }
  // level set of a generic function, by hand: closed curves and curves between boundary points; smaller values on the left
  struct Level { DV u; double iso; std::vector<std::vector<Pt>> curves; std::vector<char> closed; };
  bool level(Rng& r, Level& o) {
    size_t n = self.V.size();
    o.u.assign(n, 0);
    size_t c = (size_t)r.below(n);
    int kind = (int)r.below(3);
    for (size_t v = 0; v < n; v++) o.u[v] = kind == 0 ? ref.D[c][v] : kind == 1 ? r.real(-1, 1) : std::sin(2 * ref.D[c][v] / mean);
    double lo = INF, hi = -INF;
    for (double x : o.u) { if (!(x < INF)) return false; lo = std::min(lo, x); hi = std::max(hi, x); }
    o.iso = lo + r.real(.15, .85) * (hi - lo);
    for (double x : o.u) if (std::fabs(x - o.iso) < 1e-6 * (hi - lo)) return false;
    return hi > lo;
  }
  bool levelCurves(Level& o) {
    // segments by face, from entry to exit edge with the small values on the left
    size_t nF = ref.fv.size();
    std::map<std::pair<size_t, size_t>, size_t> dummy;
    std::vector<std::pair<size_t, size_t>> seg;
    std::vector<size_t> out(ref.len.size(), NONE), in(ref.len.size(), NONE); // segment leaving / entering through an edge
    for (size_t f = 0; f < nF; f++) {
      size_t e[2], k2 = 0, kk[2];
      for (size_t k = 0; k < 3; k++) {
        double a = o.u[(size_t)ref.fv[f][k]], b = o.u[(size_t)ref.fv[f][(k + 1) % 3]];
        if ((a < o.iso) != (b < o.iso)) { if (k2 == 2) return false; kk[k2] = k; e[k2++] = (size_t)ref.fe[f][k]; }
      }
      if (k2 == 0) continue;
      // counterclockwise around the triangle: crossing from small to large at the entry... the small side lies left when
      // the curve starts on the side that goes large -> small
      double a0 = o.u[(size_t)ref.fv[f][kk[0]]];
      size_t s = seg.size();
      // side kk[0] from a to b: if a is small, then the corner at a is left of the line from the other crossing to here
      if (a0 < o.iso) seg.push_back({e[0], e[1]}); else seg.push_back({e[1], e[0]});
      if (out[seg[s].first] != NONE || in[seg[s].second] != NONE) return false;
      out[seg[s].first] = s;
      in[seg[s].second] = s;
    }
    std::vector<char> used(seg.size(), 0);
    auto node = [&](size_t e) {
      Vertex a = self.E[e].halfedge().tailVertex(), b = self.E[e].halfedge().tipVertex();
      double ua = o.u[(size_t)(std::find(self.V.begin(), self.V.end(), a) - self.V.begin())], ub = o.u[(size_t)(std::find(self.V.begin(), self.V.end(), b) - self.V.begin())];
      return Pt{1, e, (o.iso - ua) / (ub - ua), {}};
    };
    for (int pass = 0; pass < 2; pass++)
      for (size_t s = 0; s < seg.size(); s++) {
        if (used[s] || (pass == 0 && in[seg[s].first] != NONE)) continue;
        o.curves.emplace_back();
        size_t x = s;
        o.curves.back().push_back(node(seg[s].first));
        while (x != NONE && !used[x]) {
          used[x] = 1;
          o.curves.back().push_back(node(seg[x].second));
          x = out[seg[x].second];
        }
        o.closed.push_back(pass == 1);
      }
    return true;
  }
  void iso(const Op& op) {
    if (!manifold) return;
    Rng r(arg(op, 0));
    Level L;
    if (!level(r, L) || !levelCurves(L)) return;
    size_t nSeg = 0;
    std::multiset<std::vector<size_t>> want; // each curve as a rotation-normal list of edges, in order
    auto normal = [](std::vector<size_t> c, bool closed) {
      if (!closed) return c;
      c.pop_back();
      size_t m = 0;
      for (size_t i = 0; i < c.size(); i++) if (c[i] < c[m]) m = i;
      std::rotate(c.begin(), c.begin() + (long)m, c.end());
      c.push_back(NONE);
      return c;
    };
    for (size_t i = 0; i < L.curves.size(); i++) {
      std::vector<size_t> c;
      for (auto& p : L.curves[i]) c.push_back(p.i);
      nSeg += c.size() - 1;
      want.insert(normal(c, L.closed[i]));
    }
    onSomeWorld(r, arg(op, 1), [&](G13& w) {
      VertexData<double> u(*w.mesh);
      double vs = r.chance(.5) ? 1. : 8.; // values scale independently
      for (size_t v = 0; v < L.u.size(); v++) u[w.V[v]] = L.u[v] * vs;
      std::vector<std::vector<SurfacePoint>> got = marchingTriangles(*w.geom, u, L.iso * vs);
      std::multiset<std::vector<size_t>> have;
      for (auto& c : got) {
        std::vector<size_t> k;
        CHECK(c.size() >= 2, "iso-curve", "a level curve with %zu points", c.size());
        for (auto& p : c) {
          CHECK(p.type == SurfacePointType::Edge, "iso-point", "a point of a generic level curve is not on an edge");
          size_t e = (size_t)(std::find(w.E.begin(), w.E.end(), p.edge) - w.E.begin());
          CHECK(e < w.E.size(), "iso-point", "a point on a dead edge");
          double x = (1 - p.tEdge) * u[p.edge.firstVertex()] + p.tEdge * u[p.edge.secondVertex()];
          CHECK(std::fabs(x - L.iso * vs) < 1e-7 * vs, "iso-value", "the function is %g on the level curve of %g", x, L.iso * vs);
          k.push_back(e);
        }
        have.insert(normal(k, k.front() == k.back()));
      }
      if (ctx.verbose && want != have) {
        for (auto& c : want) { fprintf(stderr, "want:"); for (size_t e : c) fprintf(stderr, " %zd", (ssize_t)e); fprintf(stderr, "\n"); }
        for (auto& c : have) { fprintf(stderr, "have:"); for (size_t e : c) fprintf(stderr, " %zd", (ssize_t)e); fprintf(stderr, "\n"); }
      }
      CHECK(want == have, "iso-curves", "the level set consists of %zu oriented curves with %zu segments; %zu curves are reported, or they differ", want.size(), nSeg, have.size());
    });
    any = true;
    ctx.count("iso-lines");
  }
  // signed fast marching from curves that separate the surface
  void fmmSigned(const Op& op) {
    if (!manifold) return;
    Rng r(arg(op, 0));
    Init in;
    std::vector<int> side(self.V.size(), 0); // expected sign, 0: on the curve
    bool alongEdges = r.chance(.5), flip = r.chance(.3);
    if (!alongEdges) {
      Level L;
      if (!level(r, L) || !levelCurves(L)) return;
      for (auto& c : L.curves) {
        in.c.emplace_back();
        for (auto& p : c) in.c.back().push_back({p, 0.});
      }
      for (size_t v = 0; v < side.size(); v++) side[v] = L.u[v] < L.iso ? -1 : 1;
    } else {
      // boundary of a set of faces: vertices of the curve appear on it once
      size_t nF = ref.fv.size();
      std::vector<char> inside(nF, 0);
      size_t c = (size_t)r.below(self.V.size());
      double R = r.real(.2, .7) * diam;
      for (size_t f = 0; f < nF; f++) {
        double m = 0;
        for (int v : ref.fv[f]) m += ref.D[c][(size_t)v] / 3;
        if (!(m < INF)) return;
        inside[f] = m < R;
      }
      // halfedges with an inside face on the left and an outside face on the right
      std::map<size_t, size_t> nxt;
      std::map<size_t, int> indeg;
      for (size_t f = 0; f < nF; f++)
        for (size_t k = 0; k < 3; k++) {
          auto& ff = ref.ef[(size_t)ref.fe[f][k]];
          if (!inside[f] || ff.size() != 2) continue;
          size_t g = (size_t)(ff[0].first == (int)f ? ff[1].first : ff[0].first);
          if (inside[g]) continue;
          size_t a = (size_t)ref.fv[f][k], b = (size_t)ref.fv[f][(k + 1) % 3];
          if (nxt.count(a) || indeg.count(b)) return; // pinched
          nxt[a] = b;
          indeg[b]++;
        }
      if (nxt.empty()) return;
      for (size_t f = 0; f < nF; f++)
        for (int v : ref.fv[f]) side[(size_t)v] = inside[f] ? -1 : 1;
      for (auto& x : nxt) side[x.first] = side[x.second] = 0;
      std::set<size_t> left;
      for (auto& x : nxt) left.insert(x.first);
      while (!left.empty()) {
        size_t s = *left.begin();
        for (size_t x : left) if (!indeg.count(x)) s = x; // open curves start at the boundary
        in.c.emplace_back();
        in.c.back().push_back({Pt{0, s, 0, {}}, 0.});
        size_t x = s;
        while (left.count(x)) {
          left.erase(x);
          x = nxt[x];
          in.c.back().push_back({Pt{0, x, 0, {}}, 0.});
        }
      }
      // a chord of the curve, or a triangle with all vertices on it, leaves no vertex to carry the sign: still fine, but
      // an end of an open curve must be on the boundary
      for (auto& c2 : in.c)
        if (c2.front().first.i != c2.back().first.i)
          for (size_t e : {c2.front().first.i, c2.back().first.i})
            if (!self.V[e].isBoundary()) return;
    }
    if (flip) {
      for (auto& c : in.c) std::reverse(c.begin(), c.end());
      for (int& s : side) s = -s;
    }
    DV want;
    if (!marchRef2(in, want)) { ctx.count("ill-conditioned"); return; }
    onSomeWorld(r, arg(op, 1), [&](G13& w) {
      std::vector<std::vector<std::pair<SurfacePoint, double>>> x;
      for (auto& c : in.c) {
        x.emplace_back();
        for (auto& p : c) x.back().push_back({at(w, p.first), 0.});
      }
      if (ctx.verbose && getenv("SIM_DUMP")) {
        for (size_t f = 0; f < ref.fv.size(); f++) fprintf(stderr, "face %zu: %d %d %d\n", f, ref.fv[f][0], ref.fv[f][1], ref.fv[f][2]);
        for (auto& c : in.c) { fprintf(stderr, "curve:"); for (auto& p : c) fprintf(stderr, " %s %g,", name(p.first).c_str(), p.second); fprintf(stderr, "\n"); }
      }
      VertexData<double> got = FMMDistance(*w.geom, x, true);
      for (size_t v = 0; v < want.size(); v++) {
        double g = got[w.V[v]] / w.scale;
        if (ctx.verbose && getenv("SIM_DUMP")) fprintf(stderr, "  %zu: %.9g want %d * %.9g\n", v, g, side[v], want[v]);
        if (want[v] == INF) continue;
        CHECK(std::fabs(std::fabs(g) - want[v]) <= 1e-8 * (diam + mean), "fmm-signed", "signed fast marching distance of vertex %zu is %.9g; the unsigned one is %.9g", v, g, want[v]);
        if (side[v] != 0 && want[v] > 1e-9 * mean)
          CHECK((g > 0) == (side[v] > 0), "fmm-sign", "signed fast marching distance of vertex %zu is %g, but it lies on the %s side of the curve", v, g, side[v] > 0 ? "positive" : "negative");
      }
    });
    any = true;
    ctx.count("signed-fast-marching");
  }
  void center(const Op& op) {
    if (world != 0) return;
    Rng r(arg(op, 0));
    std::vector<Vertex> pts;
    for (auto& p : points(r, 5, 0)) pts.push_back(self.V[p.i]);
    seedLibraryRandomness(arg(op, 1));
    SurfacePoint c = findCenter(*W.mesh, *W.geom, pts, r.chance(.5) ? 2 : 1);
    PT P = pt(self, c);
    for (auto& x : P.reps) {
      double s = 0;
      for (double b : x.second) { CHECK(b > -1e-6 && b < 1 + 1e-6, "center", "a center outside of its face"); s += b; }
      CHECK(std::fabs(s - 1) < 1e-6, "center", "coordinates of a center sum to %g", s);
    }
    any = true;
    ctx.count("center");
  }
  void edit(const Op& op) {
    if (world == 0) { if (W.edit(arg(op, 0), arg(op, 1), arg(op, 2), ctx)) dirty = true; }
    else {
      Rng r(arg(op, 0));
      size_t n = self.E.empty() ? 0 : 1;
      if (!n) return;
      if (gl) {
        for (int k = 0; k < 3; k++) {
          Edge e = self.E[(size_t)r.below(self.E.size())];
          double old = gl->inputEdgeLengths[e];
          gl->inputEdgeLengths[e] = r.real(1, 1.8);
          (void)old;
        }
        gl->refreshQuantities();
      } else {
        Vertex v = self.V[(size_t)r.below(self.V.size())];
        gv->inputVertexPositions[v] += .1 * Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
        gv->refreshQuantities();
      }
      dirty = true;
      ctx.count("edit");
    }
    if (dirty) { mmp.reset(); propagated = false; useOther = false; }
  }
  void step(const Op& op) {
    ctx.steps++;
    if (ctx.verbose) fprintf(stderr, "== %s\n", gNames[(size_t)op.kind].c_str());
    if (op.kind == G_edit) { if (world != 0) refresh(); edit(op); return; }
    refresh();
    switch (op.kind) {
    case G_require: if (world == 0) W.requireSome(arg(op, 0), ctx); break;
    case G_unrequire: if (world == 0) W.unrequireSome(arg(op, 0)); break;
    case G_purge: if (world == 0) W.geom->purgeQuantities(); break;
    case G_drop: mmp.reset(); propagated = false; break;
    case G_propagate: propagate(op); break;
    case G_query: query(op); break;
    case G_ball: ball(op); break;
    case G_graph: graphBall(op); break;
    case G_path: edgePath(op); break;
    case G_fmm: fmm(op); break;
    case G_fmmSigned: fmmSigned(op); break;
    case G_iso: iso(op); break;
    case G_center: center(op); break;
    }
    if (op.kind != G_propagate && op.kind != G_query && world == 0 && !mmp && !leaky && op.kind >= G_ball) {
      W.checkHeld("leaked-quantity", gNames[(size_t)op.kind].c_str());
    }
  }
};

Register reg([] {
  Scenario s;
  s.name = "geodesics";
  s.property = "C13";
  s.opNames = gNames;
  s.realComponents = "exact_geodesics, exact_geodesic_helpers, exact_polyhedral_geodesics, mesh_graph_algorithms, fast_marching_method, marching_triangles, surface_centers, trace_geodesic, geometry interfaces, meshes";
  s.stubComponents = "allocator failures and randomness come from the simulator; the exact distance is the simulator's own unfolding";
  s.rule = "exact geodesic distances, paths, gradients and logarithms equal those found by unfolding; balls, fast marching and level sets equal their definitions; nothing stays required";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["world"] = (i64)r.weighted({6, 1.5, .8, 1.5, .8});
    h.cfg["shape"] = h.cfg["world"] == 0 ? (i64)r.below(AS_COUNT) : (i64)r.below((u64)(h.cfg["world"] >= 3 ? nManifoldKinds : nGeneralKinds));
    h.cfg["size"] = r.range(1, tier ? 3 : 2);
    std::vector<double> w(G_COUNT, 1.0);
    w[G_edit] = 3; w[G_propagate] = 4; w[G_query] = 1; w[G_fmmSigned] = 2; w[G_drop] = .4; w[G_center] = .15; w[G_graph] = .6; w[G_path] = .6;
    size_t n = (size_t)r.range(6, tier ? 30 : 16), pre = (size_t)r.below(12);
    for (size_t i = 0; i < n + pre; i++) {
      Op o;
      o.kind = i < pre ? (int)G_edit : (int)r.weighted(w);
      for (int k = 0; k < 3; k++) o.a.push_back(r.next());
      if (fm && o.kind == G_propagate && r.chance(.3)) { o.fault = 1; o.fa = r.next() >> 20; }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Run run(h, ctx);
    for (auto& op : h.ops) run.step(op);
    run.refresh();
    run.mmp.reset();
    if (!run.leaky && run.world == 0) run.W.checkHeld("leaked-quantity", "geodesic queries");
    ctx.nontrivial = run.any;
  };
  return s;
}());
} // namespace
