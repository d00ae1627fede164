#include "algworld.h"
#include <algorithm>
namespace sim {

double triMinAngle(Vector3 a, Vector3 b, Vector3 c) {
  auto ang = [](Vector3 u, Vector3 v) {
    double d = norm(u) * norm(v);
    return d > 0 ? std::acos(std::max(-1., std::min(1., dot(u, v) / d))) * 180 / M_PI : 0.;
  };
  return std::min({ang(b - a, c - a), ang(c - b, a - b), ang(a - c, b - c)});
}

void View::index() {
  V.clear(); E.clear(); F.clear(); H.clear();
  for (Vertex x : mesh->vertices()) V.push_back(x);
  for (Edge x : mesh->edges()) E.push_back(x);
  for (Face x : mesh->faces()) F.push_back(x);
  for (Halfedge x : mesh->halfedges()) H.push_back(x);
}

static void icosphere(Soup& s, int sub) {
  double t = (1 + std::sqrt(5.)) / 2;
  s.pos = {{-1, t, 0}, {1, t, 0}, {-1, -t, 0}, {1, -t, 0}, {0, -1, t}, {0, 1, t}, {0, -1, -t}, {0, 1, -t}, {t, 0, -1}, {t, 0, 1}, {-t, 0, -1}, {-t, 0, 1}};
  s.polys = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8},
             {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
  for (int k = 0; k < sub; k++) {
    std::map<std::pair<size_t, size_t>, size_t> mid;
    auto m = [&](size_t a, size_t b) {
      auto key = std::minmax(a, b);
      auto it = mid.find(key);
      if (it != mid.end()) return it->second;
      s.pos.push_back((s.pos[a] + s.pos[b]) / 2);
      return mid[key] = s.pos.size() - 1;
    };
    std::vector<std::vector<size_t>> np;
    for (auto& f : s.polys) {
      size_t a = m(f[0], f[1]), b = m(f[1], f[2]), c = m(f[2], f[0]);
      np.push_back({f[0], a, c}); np.push_back({f[1], b, a}); np.push_back({f[2], c, b}); np.push_back({a, b, c});
    }
    s.polys = np;
  }
  for (auto& p : s.pos) p = p / norm(p);
}

void AlgWorld::build(const History& h) {
  Rng r(h.seed ^ 0x51ab);
  shape = (int)h.get("shape");
  int size = (int)h.get("size");
  Soup s;
  auto grid = [&](int n, int m, std::function<Vector3(double, double)> f, bool wrapU, bool wrapV) {
    int nu = wrapU ? n : n + 1, nv = wrapV ? m : m + 1;
    for (int j = 0; j < nv; j++)
      for (int i = 0; i < nu; i++) {
        double u = (double)i, v = (double)j;
        bool bd = (!wrapU && (i == 0 || i == n)) || (!wrapV && (j == 0 || j == m));
        if (!bd) { u += r.real(-.22, .22); v += r.real(-.22, .22); }
        s.pos.push_back(f(u, v));
      }
    auto id = [&](int i, int j) { return (size_t)((j % nv) * nu + (i % nu)); };
    for (int j = 0; j < m; j++)
      for (int i = 0; i < n; i++) {
        size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
        // corners of the grid: no triangle with two boundary edges
        bool diag = (i + j) % 2 == 0;
        if (r.chance(.15)) diag = !diag;
        if (!wrapU && !wrapV) {
          if ((i == 0 && j == 0) || (i == n - 1 && j == m - 1)) diag = true;
          if ((i == n - 1 && j == 0) || (i == 0 && j == m - 1)) diag = false;
        }
        if (diag) { s.polys.push_back({a, b, c}); s.polys.push_back({a, c, d}); }
        else { s.polys.push_back({a, b, d}); s.polys.push_back({b, c, d}); }
      }
  };
  double amp = 0;
  flat = false;
  switch (shape) {
  case AS_grid: {
    int n = 2 + (int)r.below((u64)size + 1), m = 2 + (int)r.below((u64)size + 1);
    grid(n, m, [](double u, double v) { return Vector3{u, v, 0}; }, false, false);
    flat = true;
    break;
  }
  case AS_disk: { // polygonal fan, grown by the edits
    int n = 5 + (int)r.below(5);
    s.pos.push_back({0, 0, 0});
    for (int i = 0; i < n; i++) s.pos.push_back({2 * std::cos(2 * M_PI * i / n), 2 * std::sin(2 * M_PI * i / n), 0});
    for (int i = 0; i < n; i++) s.polys.push_back({0, (size_t)(1 + i), (size_t)(1 + (i + 1) % n)});
    flat = true;
    break;
  }
  case AS_sphere: {
    icosphere(s, size >= 2 ? (int)r.below(2) : 0);
    Vector3 sc{r.real(.7, 1.4), r.real(.7, 1.4), r.real(.7, 1.4)};
    for (auto& p : s.pos) p = Vector3{p.x * sc.x, p.y * sc.y, p.z * sc.z};
    amp = .05;
    break;
  }
  case AS_torus: {
    int n = 5 + (int)r.below((u64)size + 1), m = 4 + (int)r.below((u64)size);
    grid(n, m, [&](double u, double v) {
      double a = 2 * M_PI * u / n, b = 2 * M_PI * v / m;
      return Vector3{(1.6 + .7 * std::cos(b)) * std::cos(a), (1.6 + .7 * std::cos(b)) * std::sin(a), .7 * std::sin(b)};
    }, true, true);
    break;
  }
  case AS_terrain: {
    int n = 2 + (int)r.below((u64)size + 1), m = 2 + (int)r.below((u64)size + 1);
    double k = r.real(.4, 1.1), hgt = r.real(.2, .8), ph = r.real(0, 6);
    grid(n, m, [&](double u, double v) { return Vector3{u, v, hgt * std::sin(k * u + ph) * std::cos(k * v)}; }, false, false);
    break;
  }
  case AS_prism: { // intrinsically flat with straight boundary: jitter only along the axis, so creases stay creases
    int n = 4 + (int)r.below((u64)size + 1), m = 2 + (int)r.below((u64)size);
    double R = 1 / (2 * std::sin(M_PI / n));
    for (int j = 0; j <= m; j++)
      for (int i = 0; i < n; i++) {
        double z = j + (j == 0 || j == m ? 0. : r.real(-.25, .25));
        s.pos.push_back({R * std::cos(2 * M_PI * i / n), R * std::sin(2 * M_PI * i / n), z});
      }
    for (int j = 0; j < m; j++)
      for (int i = 0; i < n; i++) {
        size_t a = (size_t)(j * n + i), b = (size_t)(j * n + (i + 1) % n), c = b + (size_t)n, d = a + (size_t)n;
        if (r.chance(.5)) { s.polys.push_back({a, b, c}); s.polys.push_back({a, c, d}); }
        else { s.polys.push_back({a, b, d}); s.polys.push_back({b, c, d}); }
      }
    break;
  }
  default: { // flat annulus
    int n = 6 + (int)r.below((u64)size + 2), m = 1 + (int)r.below(2);
    grid(n, m, [&](double u, double v) {
      double a = 2 * M_PI * u / n, R = 1 + v;
      return Vector3{R * std::cos(a), R * std::sin(a), 0};
    }, true, false);
    flat = true;
  }
  }
  for (auto& p : s.pos)
    if (amp > 0) p += amp * Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)};
  mesh.reset(new ManifoldSurfaceMesh(s.polys));
  VertexData<Vector3> pos(*mesh);
  for (Vertex v : mesh->vertices()) pos[v] = s.pos[v.getIndex()];
  geom.reset(new VertexPositionGeometry(*mesh, pos));
  userReq.assign(qCount(), 0);
}

bool AlgWorld::good(double lim) const {
  for (Face f : mesh->faces()) {
    std::vector<Vector3> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(geom->inputVertexPositions[v]);
    if (p.size() != 3 || triMinAngle(p[0], p[1], p[2]) < lim) return false;
  }
  return true;
}

bool AlgWorld::edit(u64 a0, u64 a1, u64 a2, Ctx& ctx) {
  VertexData<Vector3>& P = geom->inputVertexPositions;
  Rng r(hcomb(a1, a2));
  const double LIM = 14;
  auto randEdge = [&] {
    size_t k = (size_t)(a1 % mesh->nEdges());
    for (Edge e : mesh->edges())
      if (k-- == 0) return e;
    return Edge();
  };
  auto normalOf = [](Vector3 a, Vector3 b, Vector3 c) { return cross(b - a, c - a); };
  auto okTri = [&](Vector3 a, Vector3 b, Vector3 c, Vector3 ref) {
    if (triMinAngle(a, b, c) < LIM) return false;
    Vector3 n = normalOf(a, b, c);
    return dot(n, ref) > (flat ? 0. : .4 * norm(n) * norm(ref));
  };
  auto adjacent = [](Vertex a, Vertex b) {
    for (Vertex u : a.adjacentVertices())
      if (u == b) return true;
    return false;
  };
  bool done = false;
  switch (a0 % AE_COUNT) {
  case AE_flip: {
    Edge e = randEdge();
    if (e.isBoundary()) break;
    Halfedge h = e.halfedge(), t = h.twin();
    Vertex a = h.vertex(), b = t.vertex(), c = h.next().next().vertex(), d = t.next().next().vertex();
    if (c == d || adjacent(c, d)) break;
    if (shape == AS_prism && norm(normalOf(P[a], P[b], P[c]) / norm(normalOf(P[a], P[b], P[c])) - normalOf(P[b], P[a], P[d]) / norm(normalOf(P[b], P[a], P[d]))) > 1e-9) break;
    Vector3 ref = normalOf(P[a], P[b], P[c]);
    Vector3 ref2 = normalOf(P[b], P[a], P[d]);
    if (!okTri(P[c], P[d], P[b], ref) || !okTri(P[d], P[c], P[a], ref) || !okTri(P[c], P[d], P[b], ref2) || !okTri(P[d], P[c], P[a], ref2)) break;
    if (a.degree() <= 3 || b.degree() <= 3) break;
    done = mesh->flip(e);
    break;
  }
  case AE_split: {
    if (mesh->nVertices() > 90) break;
    Edge e = randEdge();
    Vertex a = e.halfedge().vertex(), b = e.halfedge().twin().vertex();
    double t = r.real(.4, .6);
    Vector3 m = (1 - t) * P[a] + t * P[b];
    bool ok = true;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()})
      if (h.isInterior()) {
        Vector3 c = P[h.next().next().vertex()];
        if (triMinAngle(P[h.vertex()], m, c) < LIM || triMinAngle(m, P[h.next().vertex()], c) < LIM) ok = false;
      }
    if (!ok) break;
    Vertex v = mesh->splitEdgeTriangular(e).vertex();
    P[v] = m;
    done = true;
    break;
  }
  case AE_insert: {
    if (mesh->nVertices() > 90) break;
    size_t k = (size_t)(a1 % mesh->nFaces());
    Face f;
    for (Face x : mesh->faces())
      if (k-- == 0) { f = x; break; }
    std::vector<Vector3> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(P[v]);
    double w0 = r.real(.28, .38), w1 = r.real(.28, .38);
    Vector3 c = w0 * p[0] + w1 * p[1] + (1 - w0 - w1) * p[2];
    if (triMinAngle(p[0], p[1], c) < LIM || triMinAngle(p[1], p[2], c) < LIM || triMinAngle(p[2], p[0], c) < LIM) break;
    P[mesh->insertVertex(f)] = c;
    done = true;
    break;
  }
  case AE_collapse: {
    if (mesh->nVertices() < 8 || shape == AS_prism) break;
    Edge e = randEdge();
    Vertex a = e.firstVertex(), b = e.secondVertex();
    if (a == b || a.isBoundary() || b.isBoundary()) break;
    std::set<size_t> na, nb;
    for (Vertex x : a.adjacentVertices()) na.insert(x.getIndex());
    for (Vertex x : b.adjacentVertices()) nb.insert(x.getIndex());
    size_t common = 0;
    for (size_t x : na) common += nb.count(x);
    if (common != 2 || na.size() < 4 || nb.size() < 4 || na.size() + nb.size() < 8) break;
    bool low = false;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()})
      if (h.next().next().vertex().degree() <= 3 + (h.next().next().vertex().isBoundary() ? 0 : 1)) low = true;
    if (low) break;
    Vector3 m = .5 * (P[a] + P[b]);
    bool ok = true;
    for (Vertex q : {a, b})
      for (Face f : q.adjacentFaces()) {
        bool hasBoth = false;
        std::vector<Vector3> p, p0;
        int cnt = 0;
        for (Vertex v : f.adjacentVertices()) {
          p0.push_back(P[v]);
          if (v == a || v == b) { cnt++; p.push_back(m); } else p.push_back(P[v]);
        }
        hasBoth = cnt == 2;
        if (!hasBoth && !okTri(p[0], p[1], p[2], normalOf(p0[0], p0[1], p0[2]))) ok = false;
      }
    if (!ok) break;
    Vertex v = mesh->collapseEdgeTriangular(e);
    if (v != Vertex()) { P[v] = m; done = true; }
    break;
  }
  case AE_move: {
    if (shape == AS_prism) break;
    size_t k = (size_t)(a1 % mesh->nVertices());
    Vertex v;
    for (Vertex x : mesh->vertices())
      if (k-- == 0) { v = x; break; }
    if (v.isBoundary()) break;
    double l = 1e100;
    for (Vertex u : v.adjacentVertices()) l = std::min(l, norm(P[u] - P[v]));
    Vector3 q = P[v] + .25 * l * Vector3{r.real(-1, 1), r.real(-1, 1), flat ? 0 : r.real(-1, 1)};
    bool ok = true;
    for (Face f : v.adjacentFaces()) {
      std::vector<Vector3> p, p0;
      for (Vertex u : f.adjacentVertices()) { p.push_back(u == v ? q : P[u]); p0.push_back(P[u]); }
      if (!okTri(p[0], p[1], p[2], normalOf(p0[0], p0[1], p0[2]))) ok = false;
    }
    if (!ok) break;
    P[v] = q;
    done = true;
    break;
  }
  case AE_cut: { // a tooth into the boundary: shape of the domain and dead elements
    if (shape == AS_prism || shape == AS_sphere || shape == AS_torus || mesh->nFaces() < 12) break;
    Edge e = randEdge();
    if (!e.isBoundary()) break;
    Halfedge h = e.halfedge();
    Vertex o = h.next().next().vertex();
    if (o.isBoundary() || h.next().edge().isBoundary() || h.next().next().edge().isBoundary()) break;
    if (h.vertex().faceDegree() < 2 || h.next().vertex().faceDegree() < 2) break;
    done = mesh->removeFaceAlongBoundary(h.face());
    break;
  }
  default:
    if (!mesh->isCompressed()) { mesh->compress(); done = true; }
  }
  if (done) {
    geom->refreshQuantities();
    ctx.count("edit");
  }
  return done;
}

View AlgWorld::self() {
  View v;
  v.mesh = mesh.get();
  v.geom = v.vpg = geom.get();
  v.index();
  return v;
}
View AlgWorld::compressed() const {
  View w;
  w.ownMesh = mesh->copy();
  std::vector<Vector3> p;
  for (Vertex v : mesh->vertices()) p.push_back(geom->inputVertexPositions[v]);
  w.ownMesh->compress();
  w.mesh = w.ownMesh.get();
  VertexData<Vector3> q(*w.mesh);
  size_t i = 0;
  for (Vertex v : w.mesh->vertices()) q[v] = p[i++];
  w.vpg = new VertexPositionGeometry(*w.mesh, q);
  w.ownGeom.reset(w.vpg);
  w.geom = w.vpg;
  w.index();
  return w;
}
View AlgWorld::transformed(u64 salt) const {
  View w = compressed();
  Rng r(salt);
  w.scale = r.chance(.5) ? 4. : .125;
  Vector3 a = unit(Vector3{r.real(-1, 1), r.real(-1, 1), r.real(.2, 1)});
  double th = r.real(0, 6.28);
  Vector3 t{r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)};
  for (Vertex v : w.mesh->vertices()) {
    Vector3& p = w.vpg->inputVertexPositions[v];
    p = w.scale * p.rotateAround(a, th) + t;
  }
  w.vpg->refreshQuantities();
  return w;
}
View AlgWorld::lengthsOnly() const {
  View w = compressed();
  EdgeData<double> L(*w.mesh);
  for (Edge e : w.mesh->edges()) L[e] = norm(w.vpg->inputVertexPositions[e.firstVertex()] - w.vpg->inputVertexPositions[e.secondVertex()]);
  IntrinsicGeometryInterface* g = new EdgeLengthGeometry(*w.mesh, L);
  w.ownGeom.reset(g);
  w.geom = g;
  w.vpg = nullptr;
  return w;
}

bool AlgWorld::requireSome(u64 a, Ctx& ctx) {
  size_t i = (size_t)(a % qCount());
  if (!qDefined(i, true) || qScalar(i)) return false;
  qRequire(i, *geom);
  userReq[i]++;
  ctx.count("user-require");
  return true;
}
void AlgWorld::unrequireSome(u64 a) {
  for (size_t k = 0; k < qCount(); k++) {
    size_t i = (size_t)((a + k) % qCount());
    if (userReq[i] > 0) {
      qUnrequire(i, *geom);
      userReq[i]--;
      return;
    }
  }
}
void AlgWorld::checkHeld(const char* clause, const char* after) {
  geom->purgeQuantities();
  for (size_t i = 0; i < qCount(); i++) {
    if (!qDefined(i, true) || qScalar(i)) continue;
    std::string n = qName(i);
    if (n == "vertexPositions") continue; // these are the inputs
    bool have = qHave(i, *geom);
    CHECK(!have || userReq[i] > 0, clause, "%s is still kept after %s and a purge, although nobody requires it", n.c_str(), after);
    CHECK(have || userReq[i] == 0, clause, "%s, which the user requires, is gone after %s", n.c_str(), after);
  }
}
} // namespace sim
