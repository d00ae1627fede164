// C14: point clouds: neighbourhoods, normals, frames, local Delaunay triangulations, operators and heat solvers stay what
// they are defined to be, whatever order they are asked for, dropped, refreshed and interrupted in.
#include "core.h"
#include "geometrycentral/pointcloud/local_triangulation.h"
#include "geometrycentral/pointcloud/neighborhoods.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_cloud_heat_solver.h"
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
#include "geometrycentral/surface/heat_method_distance.h"
#include "geometrycentral/utilities/knn.h"
#include <Eigen/Dense>
#include <algorithm>
using namespace sim;
using namespace geometrycentral;
using namespace geometrycentral::pointcloud;

namespace {
enum OpP { P_require, P_unrequire, P_purge, P_check, P_move, P_k, P_local, P_knn, P_solver, P_drop, P_distance, P_extend, P_transport, P_log, P_signed, P_copy, P_data, P_COUNT };
const std::vector<std::string> pNames = {"require", "unrequire", "purge", "check", "movePoints", "changeK", "localTriangulation", "nearestNeighbors", "newSolver", "dropSolver", "distance", "extendScalars", "transport", "logMap", "signedDistance", "copy", "data"};
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef std::vector<double> DV;
enum Q { Q_indices, Q_neighbors, Q_normals, Q_basis, Q_coords, Q_transport, Q_tufted, Q_lap, Q_conn, Q_grad, Q_COUNT };
const char* qN[] = {"pointIndices", "neighbors", "normals", "tangentBasis", "tangentCoordinates", "tangentTransport", "tuftedTriangulation", "laplacian", "connectionLaplacian", "gradient"};

struct Run {
  const History& h;
  Ctx& ctx;
  Rng rng;
  std::vector<Vector3> P, trueN, givenN;
  std::vector<std::array<Vector3, 3>> frames;
  size_t n;
  int gtype;
  bool coincident = false;
  std::unique_ptr<PointCloud> cloud;
  std::unique_ptr<PointPositionGeometry> geom;
  std::unique_ptr<PointCloudHeatSolver> solver;
  double solverT = 1;
  int held[Q_COUNT] = {0};
  double diam = 0;
  bool any = false;
  struct Ref { MX L; VX M; std::vector<std::array<size_t, 3>> T; std::vector<std::array<double, 3>> C; double t = 0; bool connected = true; std::vector<std::vector<std::array<long, 2>>> dummy; };
  Ref ref;

  static Vector3 sphere(Rng& r) {
    for (;;) {
      Vector3 v{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
      double l = norm(v);
      if (l > .1 && l < 1) return v / l;
    }
  }
  static Vector3 rot(Vector3 v, Vector3 axis, double a) { // Rodrigues
    return v * std::cos(a) + cross(axis, v) * std::sin(a) + axis * dot(axis, v) * (1 - std::cos(a));
  }
  void place(Rng& r) {
    int shape = (int)h.get("shape");
    double s = std::pow(10., (double)h.get("scale"));
    Vector3 ax = sphere(r), off = sphere(r) * r.real(0, 3);
    double an = r.real(0, 6);
    P.resize(n); trueN.resize(n);
    size_t side = (size_t)std::ceil(std::sqrt((double)n));
    for (size_t i = 0; i < n; i++) {
      Vector3 p{0, 0, 0}, N{0, 0, 1};
      double u = r.unit(), v = r.unit();
      if (shape == 0) p = {u, v, 0};
      else if (shape == 1) { p = {u, v, .3 * std::sin(4 * u) * std::cos(3 * v)}; N = unit(Vector3{-1.2 * std::cos(4 * u) * std::cos(3 * v), .9 * std::sin(4 * u) * std::sin(3 * v), 1}); }
      else if (shape == 2) { p = N = sphere(r); }
      else if (shape == 3) { double a = 2 * M_PI * u, b = 2 * M_PI * v; N = {std::cos(b) * std::cos(a), std::cos(b) * std::sin(a), std::sin(b)}; p = Vector3{std::cos(a), std::sin(a), 0} + .4 * N; }
      else if (shape == 4) { p = {u, v, r.unit()}; N = sphere(r); }
      else { p = {(double)(i % side) / (double)side, (double)(i / side) / (double)side, 0}; } // grid: ties everywhere
      P[i] = s * (rot(p, ax, an) + off);
      trueN[i] = rot(N, ax, an);
    }
    coincident = h.get("dup") > 0;
    for (i64 d = 0; d < h.get("dup"); d++) {
      size_t a = r.below(n), b = r.below(n);
      P[a] = P[b];
      if (r.chance(.5)) P[a] += sphere(r) * s * 1e-9;
    }
    diam = 0;
    for (auto& p : P) for (auto& q : P) diam = std::max(diam, norm(p - q));
  }
  Run(const History& h_, Ctx& c) : h(h_), ctx(c), rng(h_.seed) {
    n = (size_t)h.get("n");
    gtype = (int)h.get("geom");
    place(rng);
    cloud.reset(new PointCloud(n));
    PointData<Vector3> pos(*cloud), nor(*cloud);
    PointData<std::array<Vector3, 3>> fr(*cloud);
    givenN.resize(n); frames.resize(n);
    for (size_t i = 0; i < n; i++) {
      double sgn = (h.get("flip") && rng.chance(.5)) ? -1 : 1;
      givenN[i] = sgn * trueN[i];
      auto b = givenN[i].buildTangentBasis();
      double a = rng.real(0, 6.3);
      frames[i] = {rot(b[0], givenN[i], a), rot(b[1], givenN[i], a), givenN[i]};
      pos[i] = P[i]; nor[i] = givenN[i]; fr[i] = frames[i];
    }
    if (gtype == 0) geom.reset(new PointPositionGeometry(*cloud, pos));
    else if (gtype == 1) geom.reset(new PointPositionNormalGeometry(*cloud, pos, nor));
    else geom.reset(new PointPositionFrameGeometry(*cloud, pos, fr));
    geom->kNeighborSize = (unsigned)h.get("k");
  }
  ~Run() { solver.reset(); geom.reset(); cloud.reset(); }

  void require(int q) {
    switch (q) {
    case Q_indices: geom->requirePointIndices(); break;
    case Q_neighbors: geom->requireNeighbors(); break;
    case Q_normals: geom->requireNormals(); break;
    case Q_basis: geom->requireTangentBasis(); break;
    case Q_coords: geom->requireTangentCoordinates(); break;
    case Q_transport: geom->requireTangentTransport(); break;
    case Q_tufted: geom->requireTuftedTriangulation(); break;
    case Q_lap: geom->requireLaplacian(); break;
    case Q_conn: geom->requireConnectionLaplacian(); break;
    case Q_grad: geom->requireGradient(); break;
    }
  }
  void unrequire(int q) {
    switch (q) {
    case Q_indices: geom->unrequirePointIndices(); break;
    case Q_neighbors: geom->unrequireNeighbors(); break;
    case Q_normals: geom->unrequireNormals(); break;
    case Q_basis: geom->unrequireTangentBasis(); break;
    case Q_coords: geom->unrequireTangentCoordinates(); break;
    case Q_transport: geom->unrequireTangentTransport(); break;
    case Q_tufted: geom->unrequireTuftedTriangulation(); break;
    case Q_lap: geom->unrequireLaplacian(); break;
    case Q_conn: geom->unrequireConnectionLaplacian(); break;
    case Q_grad: geom->unrequireGradient(); break;
    }
  }
  // what a require may legally refuse: more neighbours than there are points
  bool tooMany() const { return geom->kNeighborSize + 1 > n; }

  // ---- the definitions ---------------------------------------------------------------------------------------------
  void checkNeighbors() {
    size_t k = geom->kNeighborSize;
    for (size_t i = 0; i < n; i++) {
      auto& nb = geom->neighbors->neighbors[i];
      CHECK(nb.size() == k, "neighbors", "point %zu has %zu neighbors, not %zu", i, nb.size(), k);
      std::set<size_t> S;
      double far = 0;
      for (Point p : nb) {
        CHECK(p.getIndex() < n && p.getIndex() != i, "neighbors", "point %zu is a neighbor of itself or invalid", i);
        CHECK(S.insert(p.getIndex()).second, "neighbors", "point %zu lists %zu twice", i, p.getIndex());
        far = std::max(far, norm(P[p.getIndex()] - P[i]));
      }
      for (size_t j = 0; j < n; j++)
        if (j != i && !S.count(j)) CHECK(norm(P[j] - P[i]) >= far * (1 - 1e-9) - 1e-12 * diam, "neighbors", "point %zu at %.17g of point %zu is not among its neighbors, the farthest of which is at %.17g", j, norm(P[j] - P[i]), i, far);
    }
  }
  void checkNormals() {
    for (size_t i = 0; i < n; i++) {
      Vector3 N = geom->normals[i];
      CHECK(std::fabs(norm(N) - 1) < 1e-9, "normals", "normal of point %zu has length %.17g", i, norm(N));
      if (gtype != 0) { CHECK(norm(N - givenN[i]) == 0, "normals", "the normal given for point %zu was changed", i); continue; }
      Eigen::Matrix3d S = Eigen::Matrix3d::Zero();
      for (Point q : nbrs(i)) {
        Vector3 d = (P[q.getIndex()] - P[i]) / diam;
        Eigen::Vector3d e(d.x, d.y, d.z);
        S += e * e.transpose();
      }
      Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(S);
      Eigen::Vector3d v(N.x, N.y, N.z);
      double val = v.dot(S * v);
      CHECK(val <= es.eigenvalues()(0) + 1e-9 * es.eigenvalues()(2) + 1e-14, "normals", "normal of point %zu: squared deviation %.17g, but a plane with %.17g exists", i, val, es.eigenvalues()(0));
    }
  }
  // neighbours as the geometry itself sees them (checked separately); needs them alive
  std::vector<Point> nbrs(size_t i) const { return geom->neighbors->neighbors[i]; }
  Vector3 bX(size_t i) const { return geom->tangentBasis[i][0]; }
  Vector3 bY(size_t i) const { return geom->tangentBasis[i][1]; }
  void checkBasis() {
    for (size_t i = 0; i < n; i++) {
      Vector3 N = geom->normals[i], X = bX(i), Y = bY(i);
      CHECK(std::fabs(dot(X, N)) < 1e-9 && std::fabs(dot(Y, N)) < 1e-9 && std::fabs(dot(X, Y)) < 1e-9 && std::fabs(norm(X) - 1) < 1e-9 && norm(cross(N, X) - Y) < 1e-9, "tangent-basis", "frame of point %zu is not a right-handed orthonormal frame", i);
      if (gtype == 2) CHECK(norm(X - frames[i][0]) == 0 && norm(Y - frames[i][1]) == 0, "tangent-basis", "the frame given for point %zu was changed", i);
    }
  }
  void checkCoords() {
    for (size_t i = 0; i < n; i++) {
      auto nb = nbrs(i);
      CHECK(geom->tangentCoordinates[i].size() == nb.size(), "tangent-coordinates", "point %zu has %zu tangent coordinates", i, geom->tangentCoordinates[i].size());
      for (size_t j = 0; j < nb.size(); j++) {
        Vector3 d = P[nb[j].getIndex()] - P[i];
        Vector2 c = geom->tangentCoordinates[i][j];
        CHECK(std::fabs(c.x - dot(d, bX(i))) < 1e-9 * diam && std::fabs(c.y - dot(d, bY(i))) < 1e-9 * diam, "tangent-coordinates", "neighbor %zu of point %zu: (%.12g, %.12g), not (%.12g, %.12g)", j, i, c.x, c.y, dot(d, bX(i)), dot(d, bY(i)));
      }
    }
  }
  // smallest rotation taking the normal a to b, as a map on vectors
  static bool carry(Vector3 v, Vector3 a, Vector3 b, Vector3& out) {
    double c = dot(a, b);
    if (c < -.9) return false;
    Vector3 ax = cross(a, b);
    out = v * c + cross(ax, v) + ax * (dot(ax, v) / (1 + c));
    return true;
  }
  void checkTransport() {
    for (size_t i = 0; i < n; i++) {
      auto nb = nbrs(i);
      CHECK(geom->tangentTransport[i].size() == nb.size(), "tangent-transport", "point %zu has %zu transports", i, geom->tangentTransport[i].size());
      for (size_t j = 0; j < nb.size(); j++) {
        size_t q = nb[j].getIndex();
        Vector3 X;
        if (!carry(bX(i), geom->normals[i], geom->normals[q], X)) continue;
        Vector2 c = geom->tangentTransport[i][j];
        CHECK(std::fabs(c.x - dot(X, bX(q))) < 1e-5 && std::fabs(c.y - dot(X, bY(q))) < 1e-5, "tangent-transport", "from point %zu to %zu: (%.9g, %.9g), not (%.9g, %.9g)", i, q, c.x, c.y, dot(X, bX(q)), dot(X, bY(q)));
      }
    }
  }
  // the Delaunay star of every point within its neighbourhood
  void checkStar(const PointData<std::vector<std::array<Point, 3>>>& R, bool heuristic) {
    for (size_t i = 0; i < n; i++) {
      auto nb = nbrs(i);
      std::map<size_t, Vector2> C;
      double scale = 0, close = 1e300;
      for (size_t j = 0; j < nb.size(); j++) { C[nb[j].getIndex()] = geom->tangentCoordinates[i][j]; double l = norm(geom->tangentCoordinates[i][j]); scale = std::max(scale, l); close = std::min(close, l); }
      bool solid = close > 1e-5 * scale && scale > 1e-9 * diam;
      bool twins = false, lined = false;
      for (auto& a : C) for (auto& b : C) if (a.first < b.first) {
        if (norm(a.second - b.second) < 1e-5 * scale) twins = true;
        if (std::fabs(cross(a.second, b.second)) < 1e-5 * norm(a.second) * norm(b.second) && dot(a.second, b.second) > 0) lined = true;
      }
      if (twins || (lined && !heuristic)) solid = false;
      struct D { double a; size_t s, t; };
      std::vector<D> tri;
      for (auto& t : R[i]) {
        CHECK(t[0].getIndex() == i, "local-triangulation", "a triangle of point %zu starts elsewhere", i);
        size_t a = t[1].getIndex(), b = t[2].getIndex();
        CHECK(C.count(a) && C.count(b) && a != b, "local-triangulation", "a triangle of point %zu uses points which are not its neighbors", i);
        if (!solid) continue;
        Vector2 A = C[a], B = C[b];
        double la = norm(A), lb = norm(B);
        CHECK(cross(A, B) > 0, "local-triangulation", "a triangle of point %zu is not counter-clockwise", i);
        if (cross(A, B) > 1e-6 * la * lb) {
          // circumcentre of 0, A, B
          double d = 2 * cross(A, B);
          Vector2 cc{(B.y * norm2(A) - A.y * norm2(B)) / d, (A.x * norm2(B) - B.x * norm2(A)) / d};
          double rad = norm(cc);
          for (auto& q : C) {
            if (q.first == a || q.first == b || norm(q.second - A) < 1e-7 * scale || norm(q.second - B) < 1e-7 * scale) continue;
            CHECK(norm(q.second - cc) > rad - 1e-6 * rad - 1e-9 * scale, "local-triangulation", "point %zu lies inside the circle of a triangle of point %zu (distance %.12g of the centre, radius %.12g)", q.first, i, norm(q.second - cc), rad);
          }
        }
        tri.push_back({std::atan2(A.y, A.x), a, b});
      }
      if (!solid) continue;
      // every direction is covered, except one gap of half a turn or more
      std::vector<double> ang;
      for (auto& q : C) ang.push_back(std::atan2(q.second.y, q.second.x));
      std::sort(ang.begin(), ang.end());
      bool sharp = false, tied = false;
      double gap = 0;
      for (size_t j = 0; j < ang.size(); j++) {
        double g = j + 1 < ang.size() ? ang[j + 1] - ang[j] : ang[0] + 2 * M_PI - ang[j];
        gap = std::max(gap, g);
        if (g < 1e-5) tied = true;
        if (std::fabs(g - M_PI) < 1e-4) sharp = true;
      }
      if (sharp || tied) continue;
      double covered = 0;
      for (auto& t : tri) covered += std::atan2(cross(C[t.s], C[t.t]), dot(C[t.s], C[t.t]));
      double want = gap >= M_PI ? 2 * M_PI - gap : 2 * M_PI;
      CHECK(std::fabs(covered - want) < 1e-6, "local-triangulation", "triangles around point %zu cover %.9g of %.9g radians%s", i, covered, want, heuristic ? " (heuristic)" : "");
      ctx.count("stars");
    }
  }
  bool buildRef() { // from the tufted geometry's edge lengths
    auto& m = *geom->tuftedMesh;
    auto& g = *geom->tuftedGeom;
    ref = Ref();
    ref.L = MX::Zero((long)n, (long)n); ref.M = VX::Zero((long)n);
    std::vector<size_t> comp(n);
    for (size_t i = 0; i < n; i++) comp[i] = i;
    std::function<size_t(size_t)> find = [&](size_t x) { while (comp[x] != x) x = comp[x] = comp[comp[x]]; return x; };
    double mean = 0;
    size_t ne = 0;
    bool ok = true;
    for (surface::Edge e : m.edges()) { mean += g.inputEdgeLengths[e]; ne++; }
    mean /= (double)ne;
    for (surface::Face f : m.faces()) {
      double l[3];
      std::array<size_t, 3> t;
      int k = 0;
      for (surface::Halfedge he : f.adjacentHalfedges()) { if (k == 3) throw Discard{"degree"}; l[k] = g.inputEdgeLengths[he.edge()]; t[(size_t)k++] = he.vertex().getIndex(); }
      double s = (l[0] + l[1] + l[2]) / 2, a2 = s * (s - l[0]) * (s - l[1]) * (s - l[2]);
      double A = std::sqrt(std::max(0., a2));
      double lm = std::max({l[0], l[1], l[2]});
      if (A < 1e-4 * lm * lm) ok = false;
      std::array<double, 3> C;
      for (int j = 0; j < 3; j++) {
        double o = l[j], x = l[(j + 1) % 3], y = l[(j + 2) % 3];
        double c = (x * x + y * y - o * o) / (4 * A) / 2;
        C[(size_t)j] = c;
        long a = (long)t[(size_t)j], b = (long)t[(size_t)(j + 1) % 3];
        ref.L(a, a) += c; ref.L(b, b) += c; ref.L(a, b) -= c; ref.L(b, a) -= c;
        ref.M(a) += A / 3;
        comp[find((size_t)a)] = find((size_t)b);
      }
      ref.T.push_back(t); ref.C.push_back(C);
    }
    for (size_t i = 0; i < n; i++) if (find(i) != find(0)) ref.connected = false;
    ref.t = solverT * mean * mean;
    return ok;
  }
  bool checkTufted() {
    auto& m = *geom->tuftedMesh;
    CHECK(m.nVertices() == n, "tufted", "the tufted mesh has %zu vertices for %zu points", m.nVertices(), n);
    for (surface::Edge e : m.edges()) CHECK(e.degree() == 2, "tufted", "an edge of the tufted mesh has %zu faces", e.degree());
    for (surface::Edge e : m.edges()) CHECK(std::isfinite(geom->tuftedGeom->inputEdgeLengths[e]), "tufted", "an edge length is not finite");
    bool ok = buildRef();
    if (ok) {
      geom->tuftedGeom->requireEdgeCotanWeights();
      for (surface::Edge e : m.edges()) CHECK(geom->tuftedGeom->edgeCotanWeights[e] > -1e-4, "tufted", "an edge of the tufted triangulation is not Delaunay: cotan weight %.9g", geom->tuftedGeom->edgeCotanWeights[e]);
      geom->tuftedGeom->unrequireEdgeCotanWeights();
    }
    return ok;
  }
  MX dense(const SparseMatrix<double>& A) { return MX(A); }
  void checkLap(bool tufted) {
    MX L = dense(geom->laplacian);
    CHECK(L.rows() == (long)n && L.cols() == (long)n, "laplacian", "has size %ld", (long)L.rows());
    double sc = L.cwiseAbs().maxCoeff();
    if (!std::isfinite(sc) && coincident) return;
    CHECK(std::isfinite(sc), "laplacian", "is not finite");
    if (sc > 1e5) return;
    CHECK((L - L.transpose()).cwiseAbs().maxCoeff() < 1e-9 * sc, "laplacian", "is not symmetric");
    CHECK((L * VX::Ones((long)n)).cwiseAbs().maxCoeff() < 1e-9 * sc * (double)n, "laplacian", "does not vanish on constants");
    for (long i = 0; i < (long)n; i++) for (long j = 0; j < (long)n; j++) if (i != j) CHECK(L(i, j) < 1e-4, "laplacian", "a positive off-diagonal entry %.9g", L(i, j));
    if (tufted && buildRef()) CHECK((L - ref.L).cwiseAbs().maxCoeff() < 1e-6 * sc, "laplacian", "differs from the cotan weights of the tufted triangulation by %.9g", (L - ref.L).cwiseAbs().maxCoeff());
  }
  // matrix of parallel transport from j to i with free orientation, columns = images of the frame of j
  bool block(size_t j, size_t i, double B[4]) {
    Vector3 nj = geom->normals[j], ni = geom->normals[i];
    double c = dot(nj, ni);
    if (std::fabs(c) < 1e-6) return false;
    if (c < 0) nj = -nj; // a tangent vector does not care which side its plane is seen from
    Vector3 X, Y;
    if (!carry(bX(j), nj, ni, X) || !carry(bY(j), nj, ni, Y)) return false;
    B[0] = dot(X, bX(i)); B[1] = dot(Y, bX(i)); B[2] = dot(X, bY(i)); B[3] = dot(Y, bY(i));
    return true;
  }
  void checkConn() {
    MX A = dense(geom->connectionLaplacian), L = dense(geom->laplacian);
    CHECK(A.rows() == 2 * (long)n && A.cols() == 2 * (long)n, "connection-laplacian", "has size %ld", (long)A.rows());
    double sc = A.cwiseAbs().maxCoeff();
    if (!std::isfinite(sc) && coincident) return;
    CHECK(std::isfinite(sc), "connection-laplacian", "is not finite");
    if (sc > 1e5) return;
    CHECK((A - A.transpose()).cwiseAbs().maxCoeff() < 1e-5 * sc, "connection-laplacian", "is not symmetric");
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        double B[4] = {1, 0, 0, 1};
        if (i != j && !block(j, i, B)) continue;
        for (int x = 0; x < 4; x++) {
          double want = L((long)i, (long)j) * B[x], got = A((long)(2 * i) + x / 2, (long)(2 * j) + x % 2);
          CHECK(std::fabs(want - got) < 2e-5 * (std::fabs(L((long)i, (long)j)) + 1e-3 * sc), "connection-laplacian", "block (%zu, %zu) entry %d is %.9g, not %.9g (normals at angle cosine %.6g)", i, j, x, got, want, dot(geom->normals[i], geom->normals[j]));
        }
      }
  }
  void checkGrad() {
    SparseMatrix<std::complex<double>>& G = geom->gradient;
    CHECK(G.rows() == (long)n && G.cols() == (long)n, "gradient", "has size %ld", (long)G.rows());
    Eigen::VectorXcd f((long)n);
    Rng r(h.seed + 17);
    for (size_t i = 0; i < n; i++) f((long)i) = r.real(-1, 1);
    Eigen::VectorXcd g = G * f;
    for (size_t i = 0; i < n; i++) {
      auto nb = nbrs(i);
      Eigen::Matrix2d S = Eigen::Matrix2d::Zero();
      Eigen::Vector2d b(0, 0);
      double sc = 0;
      for (size_t j = 0; j < nb.size(); j++) sc = std::max(sc, norm(P[nb[j].getIndex()] - P[i]));
      if (sc == 0) continue;
      for (size_t j = 0; j < nb.size(); j++) {
        Vector3 d = (P[nb[j].getIndex()] - P[i]) / sc;
        Eigen::Vector2d t(dot(d, bX(i)), dot(d, bY(i)));
        S += t * t.transpose();
        b += t * (f((long)nb[j].getIndex()).real() - f((long)i).real());
      }
      if (S.determinant() < 1e-6 * S.trace() * S.trace()) continue;
      Eigen::Vector2d want = S.inverse() * b / sc;
      CHECK(std::abs(g((long)i) - std::complex<double>(want(0), want(1))) < 1e-6 * (want.norm() + 1 / sc), "gradient", "at point %zu: (%.9g, %.9g), the least-squares gradient is (%.9g, %.9g)", i, g((long)i).real(), g((long)i).imag(), want(0), want(1));
    }
  }
  void check(int q) {
    // definitions use neighbours, normals and frames: have them while checking, and leave as found
    bool needs = q >= Q_normals && q != Q_lap && q != Q_tufted;
    if (needs) { geom->requireNeighbors(); geom->requireNormals(); geom->requireTangentBasis(); }
    switch (q) {
    case Q_indices: for (size_t i = 0; i < n; i++) CHECK(geom->pointIndices[i] == i, "point-indices", "point %zu has index %zu", i, geom->pointIndices[i]); break;
    case Q_neighbors: checkNeighbors(); break;
    case Q_normals: checkNormals(); break;
    case Q_basis: checkBasis(); break;
    case Q_coords: checkCoords(); break;
    case Q_transport: checkTransport(); break;
    case Q_tufted: checkTufted(); break;
    case Q_lap: checkLap(held[Q_tufted] > 0); break;
    case Q_conn: geom->requireLaplacian(); checkConn(); geom->unrequireLaplacian(); break;
    case Q_grad: checkGrad(); break;
    }
    if (needs) { geom->unrequireNeighbors(); geom->unrequireNormals(); geom->unrequireTangentBasis(); }
    ctx.count(std::string("checked-") + qN[q]);
    any = true;
  }
  void checkAll() { for (int q = 0; q < Q_COUNT; q++) if (held[q]) check(q); }
  bool smallEnough() const { return !coincident; }

  // calls f; a refusal because of too many neighbours must be the announced one
  template <class F> bool guarded(const Op& op, const char* what, F f) {
    if (tooMany()) {
      bool refused = false;
      try { f(); } catch (const std::runtime_error&) { refused = true; }
      (void)what;
      return !refused;
    }
    if (op.fault) {
      ctx.fault("allocation-failure-armed");
      bool failed = false;
      seam::allocArm((i64)(op.fa % 3000));
      try { f(); } catch (const std::bad_alloc&) { failed = true; }
      if (seam::allocDisarm()) ctx.fault("allocation-failure");
      if (!failed) return true;
      return false;
    }
    f();
    return true;
  }

  void step(const Op& op) {
    ctx.steps++;
    ctx.ev((u64)op.kind);
    Rng r(arg(op, 0));
    int q = (int)(arg(op, 1) % Q_COUNT);
    switch (op.kind) {
    case P_require: {
      int before = held[q];
      bool ok = false;
      try { ok = guarded(op, qN[q], [&] { require(q); }); } catch (const std::runtime_error& e) {
        if (!degenerateCloud()) throw;
        throw Discard{"degenerate cloud refused"};
      }
      if (!ok) {
        // the request failed: it counts as made; give it back and ask again
        unrequire(q);
        if (tooMany()) { ctx.fault("too-many-neighbors"); return; }
        geom->purgeQuantities();
        require(q);
      }
      (void)before;
      held[q]++;
      if (!tooMany()) check(q);
      break;
    }
    case P_unrequire:
      if (held[q]) { unrequire(q); held[q]--; }
      break;
    case P_purge: geom->purgeQuantities(); if (!tooMany()) checkAll(); break;
    case P_check: if (!tooMany()) checkAll(); break;
    case P_move: case P_k: {
      solver.reset();
      if (op.kind == P_move) {
        if (r.chance(.3)) { Rng r2(arg(op, 2)); auto n0 = trueN; place(r2); trueN = n0; coincident = h.get("dup") > 0; }
        else for (auto& p : P) p += diam * 1e-3 * sphere(r);
        diam = 0;
        for (auto& p : P) for (auto& x : P) diam = std::max(diam, norm(p - x));
        for (size_t i = 0; i < n; i++) geom->positions[i] = P[i];
      } else {
        unsigned k = (unsigned)r.range(4, 12);
        if (k + 1 > n) return;
        geom->kNeighborSize = k;
      }
      if (tooMany()) return;
      if (op.fault) {
        ctx.fault("allocation-failure-armed");
        seam::allocArm((i64)(op.fa % 4000));
        try { geom->refreshQuantities(); } catch (const std::bad_alloc&) {}
        if (seam::allocDisarm()) ctx.fault("allocation-failure");
      }
      geom->refreshQuantities();
      checkAll();
      break;
    }
    case P_local: {
      if (tooMany()) return;
      bool hh = r.chance(.5);
      if (!hh && coincident) return;
      auto R = buildLocalTriangulations(*cloud, *geom, hh);
      geom->requireNeighbors(); geom->requireTangentCoordinates();
      checkStar(R, hh);
      geom->unrequireNeighbors(); geom->unrequireTangentCoordinates();
      auto flat = handleToFlatInds(*cloud, R);
      auto inds = handleToInds(*cloud, R);
      size_t c = 0;
      for (size_t i = 0; i < n; i++) {
        CHECK(inds[i].size() == R[i].size(), "local-triangulation", "handleToInds lost triangles of point %zu", i);
        for (size_t j = 0; j < R[i].size(); j++, c++)
          for (size_t x = 0; x < 3; x++) CHECK(inds[i][j][x] == R[i][j][x].getIndex() && flat[c][x] == R[i][j][x].getIndex(), "local-triangulation", "converting triangle %zu of point %zu to indices changed it", j, i);
      }
      CHECK(flat.size() == c, "local-triangulation", "the flat list has %zu of %zu triangles", flat.size(), c);
      any = true;
      break;
    }
    case P_knn: {
      NearestNeighborFinder F(P);
      for (int it = 0; it < 5; it++) {
        size_t k = 1 + r.below(n), s = r.below(n);
        Vector3 x = r.chance(.5) ? P[s] + sphere(r) * diam * .1 : sphere(r) * diam * 3;
        auto order = [&](Vector3 c) { DV d; for (auto& p : P) d.push_back(norm(p - c)); std::sort(d.begin(), d.end()); return d; };
        auto a = F.kNearest(x, k);
        DV d = order(x);
        CHECK(a.size() == k && std::set<size_t>(a.begin(), a.end()).size() == k, "knn", "%zu nearest points of %zu: %zu returned", k, n, a.size());
        for (size_t i = 0; i < k; i++) CHECK(a[i] < n && std::fabs(norm(P[a[i]] - x) - d[i]) < 1e-9 * diam, "knn", "%zu-th nearest point is at %.12g, not %.12g", i, norm(P[a[i]] - x), d[i]);
        if (k < n) {
          auto b = F.kNearestNeighbors(s, k);
          DV e = order(P[s]);
          std::set<size_t> S(b.begin(), b.end());
          CHECK(b.size() == k && S.size() == k && !S.count(s), "knn", "%zu neighbors of point %zu: %zu, with the point itself: %d", k, s, b.size(), (int)S.count(s));
          for (size_t i = 0; i < k; i++) CHECK(std::fabs(norm(P[b[i]] - P[s]) - e[i + 1]) < 1e-9 * diam, "knn", "%zu-th neighbor is at %.12g, not %.12g", i, norm(P[b[i]] - P[s]), e[i + 1]);
        }
        double rad = diam * r.real(.05, 1);
        auto c = F.radiusSearch(x, rad);
        std::set<size_t> S(c.begin(), c.end());
        CHECK(S.size() == c.size(), "knn", "a point is returned twice");
        for (size_t i = 0; i < n; i++) {
          double l = norm(P[i] - x);
          if (std::fabs(l - rad) < 1e-9 * diam) continue;
          CHECK((l < rad) == (S.count(i) > 0), "knn", "point %zu at %.12g is %s the ball of radius %.12g", i, l, S.count(i) ? "in" : "not in", rad);
        }
      }
      bool thrown = false;
      try { F.kNearest(P[0], n + 1); } catch (const std::runtime_error&) { thrown = true; }
      CHECK(thrown, "knn", "more points than there are were asked for, without an error");
      ctx.count("knn");
      any = true;
      break;
    }
    case P_solver: {
      if (tooMany() || coincident) return;
      solver.reset();
      solverT = r.chance(.5) ? 1. : r.real(.3, 3);
      if (op.fault) {
        ctx.fault("allocation-failure-armed");
        seam::allocArm((i64)(op.fa % 4000));
        try { solver.reset(new PointCloudHeatSolver(*cloud, *geom, solverT)); } catch (const std::bad_alloc&) {}
        if (seam::allocDisarm()) ctx.fault("allocation-failure");
        solver.reset();
        geom->purgeQuantities();
      }
      solver.reset(new PointCloudHeatSolver(*cloud, *geom, solverT));
      break;
    }
    case P_drop: solver.reset(); break;
    case P_distance: case P_extend: case P_transport: case P_log: case P_signed:
      if (tooMany() || coincident) return;
      if (!solver) { solverT = 1; solver.reset(new PointCloudHeatSolver(*cloud, *geom)); }
      heat(op, r);
      break;
    case P_copy: {
      auto c2 = cloud->copy();
      CHECK(c2->nPoints() == n && c2->isCompressed() && c2->nPointsCapacity() == cloud->nPointsCapacity(), "container", "a copy has %zu points", c2->nPoints());
      c2->validateConnectivity();
      PointData<int> d(*c2, 3);
      size_t k = 0;
      for (Point p : c2->points()) { CHECK(p.getIndex() == k, "container", "point %zu of a copy has index %zu", k, p.getIndex()); d[p] = (int)k; k++; }
      CHECK(k == n, "container", "a copy iterates over %zu points", k);
      c2.reset(); // the container outlives the cloud
      break;
    }
    case P_data: {
      PointData<double> d(*cloud, 2.5);
      VX v((long)n);
      for (size_t i = 0; i < n; i++) v((long)i) = r.real(-1, 1);
      PointData<double> e(*cloud, v);
      size_t k = 0;
      for (Point p : cloud->points()) { CHECK(p == cloud->point(k) && e[p] == v((long)k) && d[p] == 2.5, "container", "point %zu", k); k++; }
      CHECK(k == n && e.toVector() == v, "container", "a vector does not survive a container");
      PointData<double> f = e;
      f *= 2.;
      cloud->compress();
      CHECK((f.toVector() - 2 * v).norm() == 0 && (e.toVector() - v).norm() == 0, "container", "copies share values");
      cloud->validateConnectivity();
      any = true;
      break;
    }
    }
  }
  bool degenerateCloud() const { return coincident; }

  // ---- heat ----------------------------------------------------------------------------------------------------------
  void heat(const Op& op, Rng& r) {
    if (!buildRef()) return;
    if (ref.L.cwiseAbs().maxCoeff() > 1e4) return;
    MX H = ref.t * ref.L;
    H.diagonal() += ref.M;
    auto run = [&](std::function<void()> f) {
      if (op.fault) {
        ctx.fault("allocation-failure-armed");
        seam::allocArm((i64)(op.fa % 3000));
        try { f(); } catch (const std::bad_alloc&) {}
        if (seam::allocDisarm()) ctx.fault("allocation-failure");
      }
      f();
    };
    size_t s = r.below(n);
    any = true;
    if (op.kind == P_distance || op.kind == P_log) {
      std::vector<Point> src{cloud->point(s)};
      if (op.kind == P_distance) while (r.chance(.4)) src.push_back(cloud->point(r.below(n)));
      PointData<double> d;
      run([&] { d = src.size() == 1 ? solver->computeDistance(src[0]) : solver->computeDistance(src); });
      surface::HeatMethodDistanceSolver W(*geom->tuftedGeom, solverT, false);
      std::vector<surface::Vertex> sv;
      for (Point p : src) sv.push_back(geom->tuftedMesh->vertex(p.getIndex()));
      auto e = W.computeDistance(sv);
      for (size_t i = 0; i < n; i++) {
        if (!std::isfinite(e[geom->tuftedMesh->vertex(i)])) return;
        CHECK(std::fabs(d[i] - e[geom->tuftedMesh->vertex(i)]) < 1e-6 * diam, "heat-distance", "at point %zu: %.12g, but %.12g on the triangulation", i, d[i], e[geom->tuftedMesh->vertex(i)]);
      }
      ctx.count("distance");
      if (op.kind == P_distance) return;
      // directions: diffused coordinates of the neighbours
      PointData<Vector2> lm;
      run([&] { lm = solver->computeLogMap(cloud->point(s)); });
      VX X = VX::Zero((long)n), Y = X;
      geom->requireTangentCoordinates(); geom->requireNeighbors();
      for (size_t j = 0; j < nbrs(s).size(); j++) { size_t p = nbrs(s)[j].getIndex(); X((long)p) = geom->tangentCoordinates[s][j].x; Y((long)p) = geom->tangentCoordinates[s][j].y; }
      geom->unrequireTangentCoordinates(); geom->unrequireNeighbors();
      auto F = H.ldlt();
      VX x = F.solve(X), y = F.solve(Y);
      double mx = std::max(x.cwiseAbs().maxCoeff(), y.cwiseAbs().maxCoeff());
      if (!ref.connected) return;
      for (size_t i = 0; i < n; i++) {
        CHECK(std::fabs(norm(lm[i]) - std::fabs(d[i])) < 1e-6 * diam, "log-map", "at point %zu: length %.12g, distance %.12g", i, norm(lm[i]), d[i]);
        Vector2 w{x((long)i), y((long)i)};
        if (norm(w) < 1e-6 * mx) continue;
        Vector2 want = d[i] * w / norm(w);
        CHECK(norm(lm[i] - want) < 1e-5 * diam, "log-map", "at point %zu: (%.9g, %.9g), not (%.9g, %.9g)", i, lm[i].x, lm[i].y, want.x, want.y);
      }
      ctx.count("log");
      return;
    }
    if (op.kind == P_extend) {
      std::map<size_t, double> src{{s, r.real(-2, 2)}};
      bool same = r.chance(.3);
      while (r.chance(.6)) src[r.below(n)] = same ? src[s] : r.real(-2, 2);
      std::vector<std::tuple<Point, double>> in;
      VX a = VX::Zero((long)n), o = a;
      for (auto& x : src) { in.push_back(std::make_tuple(cloud->point(x.first), x.second)); a((long)x.first) = x.second; o((long)x.first) = 1; }
      PointData<double> d;
      run([&] { d = solver->extendScalars(in); });
      auto F = H.ldlt();
      VX A = F.solve(a), O = F.solve(o);
      for (size_t i = 0; i < n; i++) {
        if (O((long)i) < 1e-7 * O.maxCoeff()) continue;
        double want = A((long)i) / O((long)i);
        CHECK(std::fabs(d[i] - want) < 1e-5, "extend-scalars", "at point %zu: %.12g, not %.12g", i, d[i], want);
      }
      ctx.count("extend");
      return;
    }
    geom->requireNormals(); geom->requireTangentBasis(); geom->requireLaplacian();
    struct Give { PointPositionGeometry* g; ~Give() { g->unrequireNormals(); g->unrequireTangentBasis(); g->unrequireLaplacian(); } } give{geom.get()};
    // the connection, from its definition
    MX V = MX::Zero(2 * (long)n, 2 * (long)n);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        double B[4] = {1, 0, 0, 1};
        if (i != j && ref.L((long)i, (long)j) == 0) continue;
        if (i != j && !block(j, i, B)) return;
        if (i != j && std::fabs(dot(geom->normals[i], geom->normals[j])) < 1e-3) return;
        for (int x = 0; x < 4; x++) V((long)(2 * i) + x / 2, (long)(2 * j) + x % 2) += ref.t * ref.L((long)i, (long)j) * B[x];
        if (i == j) for (int x = 0; x < 2; x++) V((long)(2 * i) + x, (long)(2 * i) + x) += ref.M((long)i);
      }
    if (op.kind == P_transport) {
      std::map<size_t, Vector2> src{{s, Vector2::fromAngle(r.real(0, 6)) * r.real(.2, 2)}};
      bool same = r.chance(.4);
      while (r.chance(.5)) src[r.below(n)] = Vector2::fromAngle(r.real(0, 6)) * (same ? norm(src[s]) : r.real(.2, 2));
      std::vector<std::tuple<Point, Vector2>> in;
      VX a = VX::Zero(2 * (long)n), o = VX::Zero((long)n), m = o;
      for (auto& x : src) { in.push_back(std::make_tuple(cloud->point(x.first), x.second)); a((long)(2 * x.first)) = x.second.x; a((long)(2 * x.first) + 1) = x.second.y; o((long)x.first) = 1; m((long)x.first) = norm(x.second); }
      PointData<Vector2> d;
      run([&] { d = in.size() == 1 ? solver->transportTangentVector(std::get<0>(in[0]), std::get<1>(in[0])) : solver->transportTangentVectors(in); });
      VX A = V.ldlt().solve(a);
      auto F = H.ldlt();
      VX O = F.solve(o), Mg = F.solve(m);
      double mx = A.cwiseAbs().maxCoeff();
      for (size_t i = 0; i < n; i++) {
        Vector2 w{A((long)(2 * i)), A((long)(2 * i) + 1)};
        if (norm(w) < 1e-4 * mx || O((long)i) < 1e-6 * O.maxCoeff()) continue;
        Vector2 want = w / norm(w) * (Mg((long)i) / O((long)i));
        CHECK(norm(d[i] - want) < 1e-3 * norm(want), "transport", "at point %zu: (%.9g, %.9g), not (%.9g, %.9g)", i, d[i].x, d[i].y, want.x, want.y);
      }
      ctx.count("transport");
      return;
    }
    signedDistance(op, r, V, run);
  }
  void signedDistance(const Op& op, Rng& r, const MX& V, std::function<void(std::function<void()>)> run) {
    (void)op;
    if (!ref.connected) return;
    std::vector<std::vector<size_t>> curves;
    std::set<size_t> used;
    size_t nc = r.chance(.7) ? 1 : 2;
    for (size_t c = 0; c < nc; c++) {
      std::vector<size_t> cur;
      size_t len = 2 + r.below(4);
      for (int tries = 0; tries < 50 && cur.size() < len; tries++) { size_t p = r.below(n); if (used.insert(p).second) cur.push_back(p); }
      if (cur.size() < 2) break;
      if (cur.size() > 2 && r.chance(.3)) cur.push_back(cur[0]);
      curves.push_back(cur);
    }
    if (curves.empty() || used.size() + 2 > n) return;
    SignedHeatOptions opt;
    opt.preserveSourceNormals = r.chance(.3);
    opt.levelSetConstraint = r.chance(.34) ? LevelSetConstraint::None : r.chance(.5) ? LevelSetConstraint::ZeroSet : LevelSetConstraint::Multiple;
    if (opt.levelSetConstraint != LevelSetConstraint::None && r.chance(.3)) opt.softLevelSetWeight = r.real(.5, 20);
    PointData<Vector3> N(*cloud);
    for (size_t i = 0; i < n; i++) N[i] = dot(geom->normals[i], trueN[i]) < 0 ? -geom->normals[i] : geom->normals[i];
    std::vector<std::vector<Point>> in;
    for (auto& c : curves) { in.emplace_back(); for (size_t p : c) in.back().push_back(cloud->point(p)); }
    PointData<double> phi;
    run([&] { phi = solver->computeSignedDistance(in, N, opt); });
    // the same in space
    VX X0 = VX::Zero(2 * (long)n);
    std::map<size_t, Vector3> tang;
    auto proj = [&](size_t i, Vector3 v) { return v - dot(v, geom->normals[i]) * geom->normals[i]; };
    for (auto& c : curves)
      for (size_t i = 0; i + 1 < c.size(); i++)
        for (size_t e = 0; e < 2; e++) {
          size_t p = c[i + e];
          Vector3 t = proj(p, .5 * (P[c[i + 1]] - P[c[i]]));
          Vector3 nn = cross(N[p], t);
          X0((long)(2 * p)) += dot(nn, bX(p)); X0((long)(2 * p) + 1) += dot(nn, bY(p));
          if (!tang.count(p)) tang[p] = Vector3{0, 0, 0};
          tang[p] += t;
        }
    VX X;
    if (opt.preserveSourceNormals) {
      size_t m = tang.size(), k = 0;
      MX K = MX::Zero(2 * (long)n + (long)m, 2 * (long)n + (long)m);
      K.topLeftCorner(2 * (long)n, 2 * (long)n) = V;
      for (auto& t : tang) {
        if (norm(t.second) < 1e-3 * diam) return;
        long row = 2 * (long)n + (long)k++;
        K(row, 2 * (long)t.first) = K(2 * (long)t.first, row) = dot(t.second, bX(t.first));
        K(row, 2 * (long)t.first + 1) = K(2 * (long)t.first + 1, row) = dot(t.second, bY(t.first));
      }
      VX b = VX::Zero(2 * (long)n + (long)m);
      b.head(2 * (long)n) = X0;
      X = K.fullPivLu().solve(b).head(2 * (long)n);
    } else X = V.ldlt().solve(X0);
    double mx = X.cwiseAbs().maxCoeff();
    if (!(mx > 0) || !std::isfinite(mx)) return;
    VX div = VX::Zero((long)n);
    for (size_t f = 0; f < ref.T.size(); f++) {
      Vector3 g{0, 0, 0};
      for (size_t v : ref.T[f]) g += X((long)(2 * v)) * bX(v) + X((long)(2 * v) + 1) * bY(v);
      if (norm(g) < 1e-4 * mx) return; // its direction is decided by rounding
      g /= norm(g);
      for (size_t k = 0; k < 3; k++) {
        size_t a = ref.T[f][k], b = ref.T[f][(k + 1) % 3];
        double v = ref.C[f][k] * dot(P[b] - P[a], g);
        div((long)a) += v; div((long)b) -= v;
      }
    }
    VX want;
    std::vector<std::vector<size_t>> rows; // soft or hard constraints
    auto K0 = ref.L;
    double T = 1e-3;
    if (opt.levelSetConstraint == LevelSetConstraint::None) {
      MX A = ref.L + MX::Constant((long)n, (long)n, 1. / (double)n);
      want = A.ldlt().solve(div);
      double sh = 0, tl = 0;
      for (auto& c : curves) for (size_t i = 0; i + 1 < c.size(); i++) { double l = norm(P[c[i + 1]] - P[c[i]]); sh += l * .5 * (want((long)c[i]) + want((long)c[i + 1])); tl += l; }
      want -= VX::Constant((long)n, sh / tl);
    } else {
      bool zero = opt.levelSetConstraint == LevelSetConstraint::ZeroSet;
      std::vector<VX> A;
      for (auto& c : curves) {
        size_t m = c.size() - (c[0] == c.back() ? 1 : 0);
        for (size_t i = zero ? 0 : 1; i < m; i++) {
          VX a = VX::Zero((long)n);
          a((long)c[i]) = -1;
          if (!zero) a((long)c[0]) = 1;
          A.push_back(a);
        }
      }
      if (opt.softLevelSetWeight < 0) {
        long m = (long)A.size();
        MX K = MX::Zero((long)n + m, (long)n + m);
        K.topLeftCorner((long)n, (long)n) = ref.L;
        for (long i = 0; i < m; i++) { K.block((long)n + i, 0, 1, (long)n) = A[(size_t)i].transpose(); K.block(0, (long)n + i, (long)n, 1) = A[(size_t)i]; }
        VX b = VX::Zero((long)n + m);
        b.head((long)n) = div;
        want = K.completeOrthogonalDecomposition().solve(b).head((long)n);
      } else {
        MX K = ref.L;
        for (auto& a : A) K += opt.softLevelSetWeight * a * a.transpose();
        want = K.completeOrthogonalDecomposition().solve(div);
      }
      if (!zero) { // determined up to a constant
        double a = 0, b = 0;
        for (size_t i = 0; i < n; i++) { a += want((long)i); b += phi[i]; }
        want += VX::Constant((long)n, (b - a) / (double)n);
      }
    }
    for (size_t i = 0; i < n; i++)
      CHECK(std::fabs(phi[i] - want((long)i)) < T * diam, "signed-distance", "at point %zu: %.9g, not %.9g (constraint %d, weight %g, preserved normals %d)", i, phi[i], want((long)i), (int)opt.levelSetConstraint, opt.softLevelSetWeight, (int)opt.preserveSourceNormals);
    ctx.count("signed");
  }
};

Register reg([] {
  Scenario s;
  s.name = "pointcloud";
  s.property = "C14";
  s.opNames = pNames;
  s.realComponents = "PointCloud, PointData, Neighborhoods, NearestNeighborFinder (nanoflann), PointPosition/Normal/FrameGeometry, local_triangulation, PointCloudHeatSolver, tufted cover and heat method on it";
  s.stubComponents = "allocator failures and randomness come from the simulator; definitions are evaluated densely by the simulator";
  s.rule = "every quantity held equals its definition on the current positions; neighborhoods and local Delaunay stars are exact; heat solvers equal dense solutions of their definitions";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["shape"] = (i64)r.below(6);
    h.cfg["n"] = r.range(12, tier ? 60 : 36);
    h.cfg["k"] = r.chance(.06) ? r.range(h.cfg["n"], 60) : r.range(5, std::min<i64>(14, h.cfg["n"] - 1));
    h.cfg["geom"] = (i64)r.below(3);
    h.cfg["flip"] = (i64)r.below(2);
    h.cfg["scale"] = r.chance(.7) ? 0 : r.range(-3, 3);
    h.cfg["dup"] = r.chance(.85) ? 0 : r.range(1, 4);
    std::vector<double> w(P_COUNT, 1.0);
    w[P_require] = 8; w[P_unrequire] = 3; w[P_purge] = 2; w[P_move] = 1.2; w[P_k] = .5; w[P_local] = 1.5; w[P_solver] = .6; w[P_drop] = .4; w[P_copy] = .2; w[P_data] = .3; w[P_signed] = 1.5; w[P_transport] = 1.5;
    size_t c = (size_t)r.range(5, tier ? 30 : 16);
    for (size_t i = 0; i < c; i++) {
      Op o;
      o.kind = (int)r.weighted(w);
      for (int k = 0; k < 3; k++) o.a.push_back(r.next());
      // (not where normals are computed: Eigen's JacobiSVD does not survive it)
      if (fm && h.cfg["geom"] != 0 && r.chance(.2)) { o.fault = 1; o.fa = r.next() >> 20; }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Run run(h, ctx);
    ctx.state(hcomb((u64)run.gtype, (u64)h.get("shape")));
    for (auto& op : h.ops) run.step(op);
    if (!run.tooMany()) run.checkAll();
    ctx.nontrivial = run.any;
  };
  return s;
}());
} // namespace
