// C16: Poisson disk samples, geodesic Voronoi sites, attribute transfer between triangulations, intersections of surfaces
// and embeddings of convex metrics, on meshes with a history of edits.
#include "algworld.h"
#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/embed_convex.h"
#include "geometrycentral/surface/geodesic_centroidal_voronoi_tessellation.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/surface/poisson_disk_sampler.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/transfer_functions.h"
#include <Eigen/Dense>
using namespace sim;

namespace {
enum OpS { S_edit, S_require, S_unrequire, S_purge, S_drop, S_poisson, S_voronoi, S_transfer, S_intersect, S_self, S_embed, S_embedRefuse, S_COUNT };
const std::vector<std::string> sNames = {"edit", "require", "unrequire", "purge", "dropSampler", "poissonDisk", "voronoi", "transfer", "intersections", "selfIntersections", "embedConvex", "embedRefuse"};
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

struct Run {
  const History& h;
  Ctx& ctx;
  AlgWorld W;
  View self;
  bool dirty = true, any = false;
  std::unique_ptr<PoissonDiskSampler> sampler;
  double mean = 0, diam = 0;
  size_t n = 0, comps = 0;
  bool closed = false;

  Run(const History& h_, Ctx& c) : h(h_), ctx(c) { W.build(h); }
  Vector3 pos(Vertex v) const { return W.geom->inputVertexPositions[v]; }
  void refresh() {
    if (!dirty) return;
    self = W.self();
    n = self.V.size();
    mean = diam = 0;
    for (Edge e : self.E) mean += norm(pos(e.firstVertex()) - pos(e.secondVertex()));
    mean /= (double)self.E.size();
    for (auto& v : self.V) for (auto& w : self.V) diam = std::max(diam, norm(pos(v) - pos(w)));
    closed = !W.mesh->hasBoundary();
    comps = component(W.mesh.get()).second;
    dirty = false;
  }
  static std::pair<FaceData<size_t>, size_t> component(ManifoldSurfaceMesh* m) {
    FaceData<size_t> c(*m, (size_t)-1);
    size_t k = 0;
    for (Face f : m->faces()) {
      if (c[f] != (size_t)-1) continue;
      std::vector<Face> st{f};
      c[f] = k;
      while (!st.empty()) {
        Face g = st.back();
        st.pop_back();
        for (Halfedge he : g.adjacentHalfedges())
          if (he.twin().isInterior() && c[he.twin().face()] == (size_t)-1) { c[he.twin().face()] = k; st.push_back(he.twin().face()); }
      }
      k++;
    }
    return {c, k};
  }
  template <class F> auto interrupted(const Op& op, F f) -> decltype(f()) {
    if (op.fault) {
      ctx.fault("allocation-failure-armed");
      seam::allocArm((i64)((op.fa >> 5) % (1 << (3 + op.fa % 10))));
      try { f(); } catch (const std::exception&) {}
      if (seam::allocDisarm()) ctx.fault("allocation-failure");
    }
    return f();
  }
  // the position of a point, once it is known to be a point of this mesh
  Vector3 at(const View& w, const SurfacePoint& p, const char* what) {
    if (p.type == SurfacePointType::Vertex) {
      CHECK(std::find(w.V.begin(), w.V.end(), p.vertex) != w.V.end(), "point", "%s: a point at a vertex which is not on the mesh", what);
      return w.vpg->inputVertexPositions[p.vertex];
    }
    if (p.type == SurfacePointType::Edge) {
      CHECK(std::find(w.E.begin(), w.E.end(), p.edge) != w.E.end(), "point", "%s: a point in an edge which is not on the mesh", what);
      CHECK(p.tEdge >= -1e-6 && p.tEdge <= 1 + 1e-6, "point", "%s: edge coordinate %g", what, p.tEdge);
      return (1 - p.tEdge) * w.vpg->inputVertexPositions[p.edge.firstVertex()] + p.tEdge * w.vpg->inputVertexPositions[p.edge.secondVertex()];
    }
    CHECK(std::find(w.F.begin(), w.F.end(), p.face) != w.F.end(), "point", "%s: a point in a face which is not on the mesh", what);
    Vector3 r{0, 0, 0};
    double s = 0;
    int k = 0;
    for (Vertex v : p.face.adjacentVertices()) {
      double c = p.faceCoords[k++];
      CHECK(c >= -1e-6 && c <= 1 + 1e-6, "point", "%s: barycentric coordinate %g", what, c);
      s += c;
      r += c * w.vpg->inputVertexPositions[v];
    }
    CHECK(std::fabs(s - 1) < 1e-6, "point", "%s: barycentric coordinates sum to %g", what, s);
    return r;
  }
  SurfacePoint randomPoint(const View& w, Rng& r) const {
    size_t k = r.weighted({3, 1, 1});
    if (k == 1) return SurfacePoint(r.pick(w.E), r.real(.05, .95));
    if (k == 2) return SurfacePoint(r.pick(w.V));
    double a = r.real(.05, 1), b = r.real(.05, 1), c = r.real(.05, 1);
    return SurfacePoint(r.pick(w.F), Vector3{a, b, c} / (a + b + c));
  }

  // ---- Poisson disk sampling ---------------------------------------------------------------------------------------
  void doPoisson(const Op& op) {
    Rng r(arg(op, 0));
    View tmp;
    size_t k = r.weighted({3, 1, 1, 1});
    if (k == 1) tmp = W.compressed();
    if (k == 2) tmp = W.transformed(r.next());
    View& w = k == 1 || k == 2 ? tmp : self;
    PoissonDiskOptions o;
    o.minDist = mean * w.scale * std::exp(r.real(-.9, 1.5));
    o.kCandidates = (int)r.range(2, 30);
    std::vector<Vector3> avoid;
    if (r.chance(.5))
      for (size_t i = 0, m = (size_t)r.range(1, 3); i < m; i++) {
        o.pointsToAvoid.push_back(randomPoint(w, r));
        avoid.push_back(at(w, o.pointsToAvoid.back(), "input"));
      }
    o.minDistAvoidance = o.minDist * r.real(.2, 4);
    o.use3DAvoidance = r.chance(.7);
    u64 salt = r.next();
    std::vector<SurfacePoint> p;
    seedLibraryRandomness(salt);
    if (k == 0) {
      if (!sampler) sampler.reset(new PoissonDiskSampler(*W.mesh, *W.geom));
      p = interrupted(op, [&] { seedLibraryRandomness(salt); return sampler->sample(o); });
    } else {
      PoissonDiskSampler s(*w.mesh, *w.vpg);
      p = s.sample(o);
    }
    ctx.count("world-" + std::to_string(k));
    std::vector<Vector3> x;
    for (auto& q : p) x.push_back(at(w, q, "sample"));
    double tol = 1e-6 * o.minDist;
    for (size_t i = 0; i < x.size(); i++)
      for (size_t j = 0; j < i; j++) CHECK(norm(x[i] - x[j]) >= o.minDist - tol, "poisson-distance", "samples %zu and %zu of %zu at distance %g, asked for %g", j, i, x.size(), norm(x[i] - x[j]), o.minDist);
    for (size_t i = 0; i < x.size(); i++)
      for (auto& a : avoid) {
        CHECK(norm(x[i] - a) >= o.minDist - tol || o.minDistAvoidance < o.minDist, "poisson-avoid", "sample %zu is %g away from a point to avoid, asked for %g", i, norm(x[i] - a), o.minDist);
        if (o.use3DAvoidance) CHECK(norm(x[i] - a) >= o.minDistAvoidance - tol, "poisson-avoid", "sample %zu is %g away from a point to avoid, asked for %g", i, norm(x[i] - a), o.minDistAvoidance);
      }
    if (avoid.empty()) {
      auto c = component(w.mesh);
      // one component: never empty. The surface is covered
      CHECK(!x.empty(), "poisson-empty", "no sample at all");
      if (o.kCandidates >= 20)
        for (size_t i = 0; i < w.V.size(); i++) {
          double d = 1e300;
          for (auto& q : x) d = std::min(d, norm(q - w.vpg->inputVertexPositions[w.V[i]]));
          CHECK(d <= 4 * o.minDist, "poisson-cover", "vertex %zu is %g away from all samples, which are at least %g apart", i, d, o.minDist);
        }
    }
    ctx.count(avoid.empty() ? "poisson" : "poisson-avoid");
    ctx.count("samples", x.size());
    ctx.ev(x.size());
    for (auto& q : x) ctx.evd(q.x);
    any = true;
  }

  // ---- Voronoi ----------------------------------------------------------------------------------------------------
  static VertexData<double> deltas(ManifoldSurfaceMesh& m, const std::vector<SurfacePoint>& s) {
    VertexData<double> r(m, 0.);
    for (auto& p : s) {
      SurfacePoint q = p.inSomeFace();
      int k = 0;
      for (Vertex v : q.face.adjacentVertices()) r[v] += q.faceCoords[k++];
    }
    return r;
  }
  void doVoronoi(const Op& op) {
    Rng r(arg(op, 0));
    if (comps != 1) return;
    View tmp;
    size_t k = r.weighted({3, 1, 1});
    if (k == 1) tmp = W.compressed();
    if (k == 2) tmp = W.transformed(r.next());
    View& w = k ? tmp : self;
    VoronoiOptions o;
    o.useDelaunay = r.chance(.4);
    if (o.useDelaunay && !w.mesh->isCompressed()) o.useDelaunay = false;
    o.iterations = (size_t)r.range(0, 3);
    o.nSubIterations = (size_t)r.range(1, 2);
    o.stepSize = r.chance(.5) ? 1 : r.real(.2, 1);
    o.tCoef = r.chance(.5) ? 1 : r.real(.5, 4);
    o.computeDistributions = r.chance(.6);
    o.nSites = (size_t)r.range(1, 5);
    bool given = r.chance(.7);
    if (given) for (size_t i = 0; i < o.nSites; i++) o.initialSites.push_back(randomPoint(w, r));
    seedLibraryRandomness(r.next());
    ManifoldSurfaceMesh& m = *w.mesh;
    VoronoiResult res;
    if (op.fault && !o.useDelaunay) res = interrupted(op, [&] { return computeGeodesicCentroidalVoronoiTessellation(m, *w.geom, o); });
    else res = computeGeodesicCentroidalVoronoiTessellation(m, *w.geom, o);
    CHECK(res.siteLocations.size() == o.nSites, "voronoi-sites", "%zu sites, asked for %zu", res.siteLocations.size(), o.nSites);
    std::vector<Vector3> x;
    for (auto& p : res.siteLocations) x.push_back(at(w, p, "site"));
    CHECK(res.hasDistributions == o.computeDistributions && res.siteDistributions.size() == (o.computeDistributions ? o.nSites : 0), "voronoi-distributions", "distributions asked for: %d, got %zu", (int)o.computeDistributions, res.siteDistributions.size());
    double dsc = diam * w.scale;
    if (!o.useDelaunay) {
      VectorHeatMethodSolver vs(*w.geom, o.tCoef);
      if (given) { // every iteration: all sites move by the mean of the log map over their soft cells
        std::vector<SurfacePoint> s = o.initialSites;
        VertexData<double> area(m, 0.);
        for (Face f : w.F) {
          std::vector<Vertex> v;
          for (Vertex q : f.adjacentVertices()) v.push_back(q);
          auto P = [&](size_t i) { return w.vpg->inputVertexPositions[v[i]]; };
          double a = .5 * norm(cross(P(1) - P(0), P(2) - P(0)));
          for (auto& q : v) area[q] += a / 3;
        }
        for (size_t it = 0; it < o.iterations; it++) {
          VertexData<double> all = vs.scalarDiffuse(deltas(m, s));
          std::vector<SurfacePoint> t;
          for (auto p : s) {
            VertexData<double> mine = vs.scalarDiffuse(deltas(m, {p}));
            for (size_t u = 0; u < o.nSubIterations; u++) {
              VertexData<Vector2> lg = vs.computeLogMap(p);
              Vector2 sum{0, 0};
              double wt = 0;
              for (Vertex v : w.V) { double q = mine[v] / all[v] * area[v]; sum += q * lg[v]; wt += q; }
              if (!std::isfinite(wt) || !(wt > 0)) { ctx.count("degenerate-cell"); return; }
              p = traceGeodesic(*w.geom, p, o.stepSize * sum / wt).endPoint;
            }
            t.push_back(p);
          }
          s = t;
        }
        for (size_t i = 0; i < s.size(); i++) {
          Vector3 y = at(w, s[i], "reference site");
          CHECK(norm(x[i] - y) <= 1e-5 * dsc, "voronoi-step", "site %zu of %zu is %g away from where %zu steps to the centers of the cells lead", i, s.size(), norm(x[i] - y), o.iterations);
        }
      }
      if (o.computeDistributions) {
        VertexData<double> all = vs.scalarDiffuse(deltas(m, res.siteLocations));
        for (size_t i = 0; i < o.nSites; i++) {
          VertexData<double> mine = vs.scalarDiffuse(deltas(m, {res.siteLocations[i]}));
          for (Vertex v : w.V) {
            if (!(std::fabs(all[v]) > 1e-12)) continue;
            double q = mine[v] / all[v];
            CHECK(std::fabs(res.siteDistributions[i][v] - q) <= 1e-5 * (1 + std::fabs(q)), "voronoi-distributions", "site %zu has share %g of a vertex, expected %g", i, res.siteDistributions[i][v], q);
          }
        }
      }
    } else if (o.iterations == 0 && given) {
      for (size_t i = 0; i < o.nSites; i++) {
        Vector3 y = at(w, o.initialSites[i], "input");
        CHECK(norm(x[i] - y) <= 1e-5 * dsc, "voronoi-delaunay", "site %zu moved by %g though no step was asked for", i, norm(x[i] - y));
      }
    }
    any = true;
    ctx.count(o.useDelaunay ? "voronoi-delaunay" : given ? "voronoi-given" : "voronoi-random");
  }

  // ---- transfer ---------------------------------------------------------------------------------------------------
  void doTransfer(const Op& op) {
    Rng r(arg(op, 0));
    View w = r.chance(.5) ? W.compressed() : W.transformed(r.next());
    std::unique_ptr<IntrinsicTriangulation> T;
    bool integer = r.chance(.5);
    if (integer) T.reset(new IntegerCoordinatesIntrinsicTriangulation(*w.mesh, *w.geom));
    else T.reset(new SignpostIntrinsicTriangulation(*w.mesh, *w.geom));
    if (r.chance(.6)) T->flipToDelaunay();
    size_t steps = (size_t)r.below(8);
    for (size_t i = 0; i < steps; i++) {
      std::vector<Edge> E;
      for (Edge e : T->intrinsicMesh->edges()) E.push_back(e);
      std::vector<Face> F;
      for (Face f : T->intrinsicMesh->faces()) F.push_back(f);
      if (r.chance(.6)) T->flipEdgeIfPossible(r.pick(E));
      else { // a refining insertion
        double a = r.real(.2, 1), b = r.real(.2, 1), c = r.real(.2, 1);
        T->insertVertex(SurfacePoint(r.pick(F), Vector3{a, b, c} / (a + b + c)));
      }
    }
    if (W.good(1) == false) return;
    // no faces glued to themselves: positions along edges would not be defined by lengths
    for (Edge e : T->intrinsicMesh->edges()) if (e.firstVertex() == e.secondVertex()) { ctx.count("self-glued"); return; }
    bool fromPositions = r.chance(.5);
    std::unique_ptr<AttributeTransfer> tr;
    CommonSubdivision& cs = T->getCommonSubdivision();
    if (!cs.mesh) cs.constructMesh();
    if (fromPositions) tr.reset(new AttributeTransfer(cs, *w.vpg));
    else tr.reset(new AttributeTransfer(*T));
    size_t nA = w.mesh->nVertices(), nB = T->intrinsicMesh->nVertices();
    // own matrices: values at the vertices of the subdivision, masses of its triangles
    std::vector<Vertex> VC, VA, VB;
    for (Vertex v : cs.mesh->vertices()) VC.push_back(v);
    for (Vertex v : w.mesh->vertices()) VA.push_back(v);
    for (Vertex v : T->intrinsicMesh->vertices()) VB.push_back(v);
    auto row = [&](const SurfacePoint& p, const std::vector<Vertex>& V, MX& M, long i) {
      SurfacePoint q = p.inSomeFace();
      int k = 0;
      for (Vertex v : q.face.adjacentVertices()) M(i, (long)(std::find(V.begin(), V.end(), v) - V.begin())) += q.faceCoords[k++];
    };
    long nC = (long)VC.size();
    MX PA = MX::Zero(nC, (long)nA), PB = MX::Zero(nC, (long)nB), M = MX::Zero(nC, nC);
    std::vector<Vector3> pc;
    for (long i = 0; i < nC; i++) {
      row(cs.sourcePoints[VC[(size_t)i]]->posA, VA, PA, i);
      row(cs.sourcePoints[VC[(size_t)i]]->posB, VB, PB, i);
      pc.push_back(cs.sourcePoints[VC[(size_t)i]]->posA.interpolate(w.vpg->inputVertexPositions));
    }
    for (Face f : cs.mesh->faces()) {
      std::vector<long> v;
      for (Vertex q : f.adjacentVertices()) v.push_back((long)(std::find(VC.begin(), VC.end(), q) - VC.begin()));
      if (v.size() != 3) { ctx.count("transfer-polygons"); return; }
      double a = .5 * norm(cross(pc[(size_t)v[1]] - pc[(size_t)v[0]], pc[(size_t)v[2]] - pc[(size_t)v[0]]));
      for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) M(v[i], v[j]) += a / (i == j ? 6. : 12.);
    }
    int dir = (int)r.below(2), what = (int)r.below(3); // constant, linear (flat), anything
    size_t ns = dir ? nB : nA, nt = dir ? nA : nB;
    const std::vector<Vertex>&VS = dir ? VB : VA, &VT = dir ? VA : VB;
    const MX &PS = dir ? PB : PA, &PT = dir ? PA : PB;
    ManifoldSurfaceMesh& ms = dir ? *T->intrinsicMesh : *w.mesh;
    VX s((long)ns), want;
    Vector3 g{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
    auto posOf = [&](bool onB, size_t i) -> Vector3 {
      if (!onB) return w.vpg->inputVertexPositions[VA[i]];
      for (long c = 0; c < nC; c++) {
        const SurfacePoint& q = cs.sourcePoints[VC[(size_t)c]]->posB;
        if (q.type == SurfacePointType::Vertex && q.vertex == VB[i]) return pc[(size_t)c];
      }
      violate("transfer-vertices", "a vertex of the intrinsic triangulation is not on the common subdivision");
    };
    for (size_t i = 0; i < ns; i++) s((long)i) = what == 0 ? 1.5 : what == 1 && W.flat ? dot(g, posOf(dir, i)) / w.scale : r.real(-1, 1);
    VertexData<double> in(ms, 0.);
    for (size_t i = 0; i < ns; i++) in[VS[i]] = s((long)i);
    auto get = [&](TransferMethod m, bool oneCall) {
      VertexData<double> o;
      if (oneCall) {
        if (fromPositions) o = dir ? transferBtoA(cs, *w.vpg, in, m) : transferAtoB(cs, *w.vpg, in, m);
        else o = dir ? transferBtoA(*T, in, m) : transferAtoB(*T, in, m);
      } else o = dir ? tr->transferBtoA(in, m) : tr->transferAtoB(in, m);
      VX x((long)nt);
      for (size_t i = 0; i < nt; i++) { x((long)i) = o[VT[i]]; CHECK(std::isfinite(x((long)i)), "transfer-finite", "transferred value %zu is not finite", i); }
      return x;
    };
    double tol = 1e-5 * s.cwiseAbs().maxCoeff() + 1e-12;
    const char* dn = dir ? "B to A" : "A to B";
    VX pw = get(TransferMethod::Pointwise, r.chance(.3));
    // pointwise: the value at the place of every target vertex
    for (size_t i = 0; i < nt; i++) {
      double v = NAN;
      for (long c = 0; c < nC; c++) {
        auto& q = dir ? cs.sourcePoints[VC[(size_t)c]]->posA : cs.sourcePoints[VC[(size_t)c]]->posB;
        if (q.type == SurfacePointType::Vertex && q.vertex == VT[i]) v = (PS.row(c) * s)(0);
      }
      CHECK(std::fabs(v - pw((long)i)) <= tol, "transfer-pointwise", "%s: vertex %zu got %g, the function is %g there", dn, i, pw((long)i), v);
    }
    MX A = PT.transpose() * M * PT;
    Eigen::SelfAdjointEigenSolver<MX> es(A);
    if (!(es.eigenvalues()(0) > 1e-9 * es.eigenvalues()((long)nt - 1))) { ctx.count("ill-conditioned"); return; }
    VX l2;
    for (int rep = 0; rep < 2; rep++) { // with the factorization kept
      l2 = get(TransferMethod::L2, rep == 1 && r.chance(.5));
      VX ref = A.ldlt().solve(PT.transpose() * (M * (PS * s)));
      for (size_t i = 0; i < nt; i++) CHECK(std::fabs(ref((long)i) - l2((long)i)) <= 10 * tol, "transfer-L2", "%s: vertex %zu got %g, the nearest function has %g", dn, i, l2((long)i), ref((long)i));
      if (rep == 0 && r.chance(.5)) break;
    }
    if (what == 0) for (size_t i = 0; i < nt; i++) CHECK(std::fabs(l2((long)i) - 1.5) < 1e-5 && std::fabs(pw((long)i) - 1.5) < 1e-6, "transfer-constant", "%s: a constant 1.5 became %g, %g", dn, pw((long)i), l2((long)i));
    if (what == 1 && W.flat)
      for (size_t i = 0; i < nt; i++) {
        double v = dot(g, posOf(!dir, i)) / w.scale;
        CHECK(std::fabs(l2((long)i) - v) < 1e-4 * (1 + std::fabs(v)) * (1 + diam) && std::fabs(pw((long)i) - v) < 1e-5 * (1 + std::fabs(v)) * (1 + diam), "transfer-linear", "%s: a linear function is %g at vertex %zu, got %g pointwise and %g in L2", dn, v, i, pw((long)i), l2((long)i));
      }
    auto mats = dir ? tr->constructBtoAMatrices() : tr->constructAtoBMatrices();
    MX rl = MX(mats.first) - A, rr = MX(mats.second) - PT.transpose() * M * PS;
    CHECK(rl.cwiseAbs().maxCoeff() <= 1e-5 * A.cwiseAbs().maxCoeff() && rr.cwiseAbs().maxCoeff() <= 1e-5 * A.cwiseAbs().maxCoeff(), "transfer-matrices", "%s: matrices differ by %g, %g", dn, rl.cwiseAbs().maxCoeff(), rr.cwiseAbs().maxCoeff());
    any = true;
    ctx.count(std::string(integer ? "transfer-integer-" : "transfer-signpost-") + (dir ? "B" : "A"));
    ctx.evd(l2(0));
  }

  // ---- intersections ----------------------------------------------------------------------------------------------
  struct Tri { Vector3 p[3]; };
  // the segment in which two triangles cross; 0 no, 1 yes, 2 too close to call
  static int cross3(const Tri& a, const Tri& b, double eps, Vector3& s0, Vector3& s1) {
    std::vector<Vector3> pts;
    bool unsure = false;
    auto hit = [&](const Vector3& p, const Vector3& q, const Tri& t) {
      Vector3 nrm = cross(t.p[1] - t.p[0], t.p[2] - t.p[0]);
      double A = norm(nrm);
      nrm /= A;
      double dp = dot(p - t.p[0], nrm), dq = dot(q - t.p[0], nrm);
      // far from the plane on one side
      if ((dp > eps && dq > eps) || (dp < -eps && dq < -eps)) return;
      bool graze = std::fabs(dp) <= eps || std::fabs(dq) <= eps;
      double den = dp - dq;
      Vector3 x = std::fabs(den) > 1e-14 ? p + dp / den * (q - p) : p;
      double worst = 1e300; // signed distance inside the triangle
      for (int i = 0; i < 3; i++) {
        Vector3 e = t.p[(i + 1) % 3] - t.p[i];
        Vector3 in = cross(nrm, e) / norm(e);
        worst = std::min(worst, dot(x - t.p[i], in));
      }
      if (graze) { // could be anywhere along the edge
        double far = 1e300;
        for (const Vector3& y : {p, q, x}) {
          double wy = 1e300;
          for (int i = 0; i < 3; i++) { Vector3 e = t.p[(i + 1) % 3] - t.p[i]; wy = std::min(wy, dot(y - t.p[i], cross(nrm, e) / norm(e))); }
          far = std::min(far, -wy);
        }
        (void)far;
        unsure = true;
        return;
      }
      if (worst > eps) pts.push_back(x);
      else if (worst > -eps) unsure = true;
    };
    for (int i = 0; i < 3; i++) { hit(a.p[i], a.p[(i + 1) % 3], b); hit(b.p[i], b.p[(i + 1) % 3], a); }
    if (unsure) return 2;
    if (pts.empty()) return 0;
    if (pts.size() != 2) return 2;
    s0 = pts[0]; s1 = pts[1];
    return norm(s0 - s1) > 4 * eps ? 1 : 2;
  }
  void judgeIntersections(const std::vector<Tri>& A, const std::vector<Tri>& B, const std::function<bool(size_t, size_t)>& skip, const SurfaceIntersectionResult& res, double scale, const char* what) {
    double eps = 1e-6 * scale;
    CHECK(res.points.size() == 2 * res.edges.size(), "intersect-shape", "%s: %zu points, %zu segments", what, res.points.size(), res.edges.size());
    for (auto& e : res.edges) CHECK(e[0] < res.points.size() && e[1] < res.points.size() && e[0] != e[1], "intersect-shape", "%s: a segment joins points %zu, %zu", what, e[0], e[1]);
    CHECK(res.hasIntersections == !res.edges.empty(), "intersect-shape", "%s: hasIntersections is %d with %zu segments", what, (int)res.hasIntersections, res.edges.size());
    std::vector<char> used(res.edges.size(), 0);
    size_t unsure = 0, found = 0;
    for (size_t i = 0; i < A.size(); i++)
      for (size_t j = 0; j < B.size(); j++) {
        if (skip(i, j)) continue;
        Vector3 s, t;
        int c = cross3(A[i], B[j], eps, s, t);
        if (c == 2) { unsure++; continue; }
        if (c == 0) continue;
        bool ok = false;
        for (size_t e = 0; e < res.edges.size() && !ok; e++) {
          if (used[e]) continue;
          Vector3 x = res.points[res.edges[e][0]], y = res.points[res.edges[e][1]];
          double d = std::min(std::max(norm(x - s), norm(y - t)), std::max(norm(x - t), norm(y - s)));
          if (d <= 1e3 * eps) { used[e] = 1; ok = true; }
        }
        CHECK(ok, "intersect-missing", "%s: triangles %zu and %zu cross in a segment of length %g which was not reported", what, i, j, norm(s - t));
        found++;
      }
    size_t extra = 0;
    for (char u : used) if (!u) extra++;
    CHECK(extra <= unsure, "intersect-extra", "%s: %zu segments reported where no triangles cross", what, extra - unsure);
    ctx.count("crossings", found);
    if (found) any = true;
    if (unsure) ctx.count("crossings-unsure", unsure);
    ctx.ev(res.edges.size());
  }
  static std::vector<Tri> triangles(const View& w) {
    std::vector<Tri> T;
    for (Face f : w.F) {
      Tri t;
      int k = 0;
      for (Vertex v : f.adjacentVertices()) t.p[k++] = w.vpg->inputVertexPositions[v];
      T.push_back(t);
    }
    return T;
  }
  void doIntersect(const Op& op) {
    Rng r(arg(op, 0));
    // the second surface: a moved copy, a few triangles, or polygons
    View b;
    std::unique_ptr<ManifoldSurfaceMesh> m2;
    std::unique_ptr<VertexPositionGeometry> g2;
    size_t kind = r.weighted({3, 3, .5});
    if (kind == 0) {
      b = W.compressed();
      Vector3 ax = unit(Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)} + Vector3{1e-3, 0, 0}), sh{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
      double an = r.real(.1, 3);
      for (Vertex v : b.V) b.vpg->inputVertexPositions[v] = b.vpg->inputVertexPositions[v].rotateAround(ax, an) + .4 * diam * sh;
      b.vpg->refreshQuantities();
    } else {
      size_t nt = (size_t)r.range(1, 6), deg = kind == 2 ? 4 : 3;
      std::vector<std::vector<size_t>> polys;
      std::vector<Vector3> P;
      for (size_t i = 0; i < nt; i++) {
        Vector3 c = pos(r.pick(self.V));
        polys.push_back({});
        for (size_t k = 0; k < deg; k++) { polys.back().push_back(P.size()); P.push_back(c + diam * Vector3{r.real(-.5, .5), r.real(-.5, .5), r.real(-.5, .5)}); }
      }
      m2.reset(new ManifoldSurfaceMesh(polys));
      VertexData<Vector3> p(*m2);
      size_t i = 0;
      for (Vertex v : m2->vertices()) p[v] = P[i++];
      g2.reset(new VertexPositionGeometry(*m2, p));
      b.mesh = m2.get();
      b.index();
      b.vpg = g2.get();
      b.geom = g2.get();
      if (kind == 2) {
        bool refused = false;
        try { if (r.chance(.5)) intersections(*W.geom, *g2); else intersections(*g2, *W.geom); } catch (const std::logic_error&) { refused = true; }
        CHECK(refused, "intersect-domain", "intersections accepted a polygon mesh");
        ctx.count("intersect-refused");
        return;
      }
    }
    bool swap = r.chance(.5);
    SurfaceIntersectionResult res = interrupted(op, [&] { return swap ? intersections(*b.vpg, *W.geom) : intersections(*W.geom, *b.vpg); });
    auto A = triangles(self), B = triangles(b);
    judgeIntersections(A, B, [](size_t, size_t) { return false; }, res, diam, "intersections");
    ctx.count("intersections");
  }
  void doSelf(const Op& op) {
    Rng r(arg(op, 0));
    // a folded copy
    View w = r.chance(.5) ? W.compressed() : View();
    std::unique_ptr<VertexPositionGeometry> g;
    if (!w.mesh) { w.mesh = W.mesh.get(); w.index(); }
    VertexData<Vector3> p(*w.mesh);
    double amp = r.chance(.2) ? 0 : r.real(0, .4);
    for (size_t i = 0; i < n; i++) p[w.V[i]] = pos(self.V[i]) + amp * diam * Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
    g.reset(new VertexPositionGeometry(*w.mesh, p));
    w.vpg = g.get();
    SurfaceIntersectionResult res = interrupted(op, [&] { return selfIntersections(*g); });
    auto A = triangles(w);
    auto shares = [&](size_t i, size_t j) {
      if (j >= i) return true;
      for (Vertex a : w.F[i].adjacentVertices()) for (Vertex b : w.F[j].adjacentVertices()) if (a == b) return true;
      return false;
    };
    judgeIntersections(A, A, shares, res, diam, "selfIntersections");
    w.vpg = nullptr;
    ctx.count("self-intersections");
  }

  // ---- convex embedding -------------------------------------------------------------------------------------------
  // a convex polyhedron with its faces
  static bool hull(Rng& r, std::vector<Vector3>& P, std::vector<std::vector<size_t>>& F) {
    size_t m = (size_t)r.range(5, 12);
    Vector3 ax{r.real(.7, 1.3), r.real(.7, 1.3), r.real(.7, 1.3)};
    for (size_t tries = 0; P.size() < m && tries < 400; tries++) {
      Vector3 x{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
      if (norm(x) > 1 || norm(x) < .2) continue;
      x = unit(x);
      bool far = true;
      for (auto& y : P) if (norm(x - y) < .6) far = false;
      if (far) P.push_back(x);
    }
    for (size_t i = 0; i < P.size(); i++)
      for (size_t j = i + 1; j < P.size(); j++)
        for (size_t k = j + 1; k < P.size(); k++) {
          Vector3 nr = cross(P[j] - P[i], P[k] - P[i]);
          size_t up = 0, dn = 0;
          for (size_t l = 0; l < P.size(); l++) {
            if (l == i || l == j || l == k) continue;
            double d = dot(P[l] - P[i], nr);
            if (std::fabs(d) < 1e-4) return false;
            (d > 0 ? up : dn)++;
          }
          if (up && dn) continue;
          if (!up) F.push_back({i, j, k}); else F.push_back({i, k, j});
        }
    for (auto& x : P) x = Vector3{x.x * ax.x, x.y * ax.y, x.z * ax.z};
    if (P.size() < 5 || F.size() != 2 * P.size() - 4) return false;
    // a hull without nearly flat edges, which errors of lengths would bend a lot
    for (size_t i = 0; i < F.size(); i++)
      for (size_t j = 0; j < i; j++) {
        size_t common = 0;
        for (size_t a : F[i]) for (size_t b : F[j]) if (a == b) common++;
        auto nr = [&](size_t f) { return unit(cross(P[F[f][1]] - P[F[f][0]], P[F[f][2]] - P[F[f][0]])); };
        if (common == 2 && angle(nr(i), nr(j)) < .15) return false;
      }
    return true;
  }
  void doEmbed(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<Vector3> P;
    std::vector<std::vector<size_t>> F;
    if (!hull(r, P, F)) { ctx.count("no-hull"); return; }
    ManifoldSurfaceMesh m(F);
    // other triangulations of the same metric
    VertexData<Vector3> p(m);
    size_t i = 0;
    for (Vertex v : m.vertices()) p[v] = P[i++];
    VertexPositionGeometry g(m, p);
    SignpostIntrinsicTriangulation T(m, g);
    size_t flips = r.chance(.5) ? 0 : (size_t)r.below(12);
    for (size_t k = 0; k < flips; k++) {
      std::vector<Edge> E;
      for (Edge e : T.intrinsicMesh->edges()) E.push_back(e);
      Edge e = r.pick(E);
      double before = T.edgeLengths[e];
      if (T.flipEdgeIfPossible(e) && (T.edgeLengths[e] > 2.2 || e.firstVertex() == e.secondVertex())) T.flipEdgeIfPossible(e);
      (void)before;
    }
    for (Edge e : T.intrinsicMesh->edges()) if (e.firstVertex() == e.secondVertex()) return;
    std::unique_ptr<ManifoldSurfaceMesh> tri = T.intrinsicMesh->copy();
    EdgeData<double> len(*tri);
    for (size_t k = 0; k < tri->nEdges(); k++) len[tri->edge(k)] = T.edgeLengths[T.intrinsicMesh->edge(k)];
    EmbedConvexOptions o;
    bool tight = r.chance(.6);
    double least = 10;
    for (Face f : tri->faces()) for (Halfedge a : f.adjacentHalfedges()) {
      double x = len[a.edge()], y = len[a.next().edge()], z = len[a.next().next().edge()];
      least = std::min(least, std::acos(std::max(-1., std::min(1., (x * x + y * y - z * z) / (2 * x * y)))));
    }
    if (ctx.verbose) fprintf(stderr, "   %zu vertices, %zu flips, least angle %g%s\n", P.size(), flips, least, tight ? ", tight" : "");
    if (least < .1) { ctx.count("embed-thin"); return; } // lengths are given up to the mollification
    if (tight) { o.embeddingTolerance = 1e-7; o.newtonTolerance = 1e-9; o.maxSteps = 60; }
    EmbedConvexResult res;
    size_t how = r.below(3);
    EdgeLengthGeometry eg(*tri, len);
    EdgeData<double> keep = len;
    if (how == 0) res = interrupted(op, [&] { return embedConvex(*tri, len, o); });
    else if (how == 1) {
      CornerData<Vector2> uv(*tri);
      for (Face f : tri->faces()) {
        Halfedge a = f.halfedge();
        double l0 = len[a.edge()], l1 = len[a.next().edge()], l2 = len[a.next().next().edge()];
        double x = (l0 * l0 + l2 * l2 - l1 * l1) / (2 * l0), y = std::sqrt(std::max(0., l2 * l2 - x * x)), th = r.real(0, 6.28);
        Vector2 rot = Vector2::fromAngle(th), sh{r.real(-1, 1), r.real(-1, 1)};
        uv[a.corner()] = sh;
        uv[a.next().corner()] = rot * Vector2{l0, 0} + sh;
        uv[a.next().next().corner()] = rot * Vector2{x, y} + sh;
      }
      res = interrupted(op, [&] { return embedConvex(*tri, uv, o); });
    } else res = interrupted(op, [&] { return embedConvex(*tri, eg, o); });
    ctx.count(std::string(res.success ? "embed-success" : res.mesh ? "embed-not-converged" : "embed-not-started") + (tight ? "-tight" : ""));
    for (Edge e : tri->edges()) CHECK(len[e] == keep[e], "embed-input", "embedConvex changed its input lengths");
    for (double st : {.5, .8, .2}) { // Newton's method may miss now and then; not with every step size
      if (res.success) break;
      EmbedConvexOptions oo;
      oo.initialStepSize = st;
      oo.maxSteps = 60;
      oo.maxNewtonIterations = 20;
      tight = false;
      res = embedConvex(*tri, len, oo);
      ctx.count("embed-retry");
    }
    if (!res.success && P.size() < 7) { ctx.count("embed-gave-up"); return; }
    CHECK(res.success, "embed-failed", "no embedding found for a convex polyhedron with %zu vertices", P.size());
    CHECK(res.mesh && res.geometry, "embed-result", "success without a mesh");
    CHECK(res.mesh->nVertices() == P.size(), "embed-result", "%zu vertices, expected %zu", res.mesh->nVertices(), P.size());
    double tol = tight ? 1e-3 : .1;
    std::vector<Vector3> Q;
    for (Vertex v : res.mesh->vertices()) Q.push_back(res.geometry->inputVertexPositions[v]);
    for (size_t a = 0; a < P.size(); a++)
      for (size_t b = 0; b < a; b++) CHECK(std::fabs(norm(Q[a] - Q[b]) - norm(P[a] - P[b])) < tol, "embed-congruent", "vertices %zu, %zu at distance %g, the convex polyhedron has %g", a, b, norm(Q[a] - Q[b]), norm(P[a] - P[b]));
    // the surface is that polyhedron: convex, oriented outwards
    for (Face f : res.mesh->faces()) {
      std::vector<size_t> v;
      for (Vertex x : f.adjacentVertices()) v.push_back(x.getIndex());
      Vector3 nr = unit(cross(Q[v[1]] - Q[v[0]], Q[v[2]] - Q[v[0]]));
      double lo = 0, hi = 0;
      for (auto& y : Q) { double d = dot(y - Q[v[0]], nr); lo = std::min(lo, d); hi = std::max(hi, d); }
      CHECK(std::min(-lo, hi) < 4 * tol, "embed-convex", "the embedded surface is not convex: vertices %g above and %g below a face", hi, -lo);
    }
    any = true;
  }
  void doEmbedRefuse(const Op& op) {
    Rng r(arg(op, 0));
    std::vector<Vector3> P;
    std::vector<std::vector<size_t>> F;
    if (!hull(r, P, F)) return;
    size_t kind = r.below(3);
    const char* why = "";
    if (kind == 0) { F.pop_back(); why = "boundary"; }
    if (kind == 1) { why = "a vertex of negative curvature"; // dent: every vertex of the polyhedron pulled in far, if its curvature gets negative
      P[0] = P[0] * .05;
    }
    if (kind == 2) { // a torus
      why = "genus 1";
      F.clear(); P.clear();
      size_t a = 3 + r.below(3), b = 3 + r.below(3);
      for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) {
        double u = 2 * M_PI * (double)i / (double)a, v = 2 * M_PI * (double)j / (double)b;
        P.push_back(Vector3{(2 + std::cos(v)) * std::cos(u), (2 + std::cos(v)) * std::sin(u), std::sin(v)});
        size_t i2 = (i + 1) % a, j2 = (j + 1) % b;
        F.push_back({i * b + j, i2 * b + j, i2 * b + j2});
        F.push_back({i * b + j, i2 * b + j2, i * b + j2});
      }
    }
    ManifoldSurfaceMesh m(F);
    VertexData<Vector3> p(m);
    size_t i = 0;
    for (Vertex v : m.vertices()) p[v] = P[i++];
    VertexPositionGeometry g(m, p);
    g.requireVertexGaussianCurvatures();
    double least = 0;
    for (Vertex v : m.vertices()) least = std::min(least, g.vertexGaussianCurvatures[v]);
    if (kind == 1 && least > -1e-3) return;
    EmbedConvexResult res = embedConvex(m, g);
    CHECK(!res.success && !res.mesh, "embed-domain", "embedConvex accepted a surface with %s", why);
    ctx.count("embed-refused");
  }

  void step(const Op& op) {
    ctx.steps++;
    if (ctx.verbose) fprintf(stderr, "== %s\n", sNames[(size_t)op.kind].c_str());
    ctx.ev((u64)op.kind);
    if (op.kind == S_edit) { if (W.edit(arg(op, 0), arg(op, 1), arg(op, 2), ctx)) { dirty = true; sampler.reset(); } return; }
    refresh();
    switch (op.kind) {
    case S_require: W.requireSome(arg(op, 0), ctx); break;
    case S_unrequire: W.unrequireSome(arg(op, 0)); break;
    case S_purge: W.geom->purgeQuantities(); break;
    case S_drop: sampler.reset(); break;
    case S_poisson: doPoisson(op); break;
    case S_voronoi: doVoronoi(op); break;
    case S_transfer: doTransfer(op); break;
    case S_intersect: doIntersect(op); break;
    case S_self: doSelf(op); break;
    case S_embed: doEmbed(op); break;
    case S_embedRefuse: doEmbedRefuse(op); break;
    }
    ctx.state(hcomb(hcomb((u64)op.kind, n), comps));
  }
};

Register reg([] {
  Scenario s;
  s.name = "sampling";
  s.property = "C16";
  s.opNames = sNames;
  s.realComponents = "poisson_disk_sampler, geodesic_centroidal_voronoi_tessellation, transfer_functions, common_subdivision, intrinsic triangulations, intersection, tri_tri_intersect, embed_convex, vector heat method, geodesic tracing";
  s.stubComponents = "allocator failures and randomness come from the simulator";
  s.rule = "samples, sites, transferred functions, intersections and convex embeddings against their definitions";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["shape"] = (i64)r.weighted({2, 2, 2, 1, 3, 1, 1});
    h.cfg["size"] = r.range(1, tier ? 3 : 2);
    std::vector<double> w(S_COUNT, 1.0);
    w[S_edit] = 2; w[S_drop] = .3; w[S_require] = w[S_unrequire] = w[S_purge] = .4; w[S_embedRefuse] = .3; w[S_poisson] = 2; w[S_transfer] = 1.5;
    size_t n = (size_t)r.range(4, tier ? 20 : 12), pre = (size_t)r.below(10);
    for (size_t i = 0; i < n + pre; i++) {
      Op o;
      o.kind = i < pre ? (int)S_edit : (int)r.weighted(w);
      for (int k = 0; k < 3; k++) o.a.push_back(r.next());
      if (fm && o.kind >= S_poisson && r.chance(.3)) { o.fault = 1; o.fa = r.next() >> 20; }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Run run(h, ctx);
    for (auto& op : h.ops) run.step(op);
    ctx.nontrivial = run.any;
  };
  return s;
}());
} // namespace
