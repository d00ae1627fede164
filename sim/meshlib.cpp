#include "meshlib.h"

#include <algorithm>
#include <map>
#include <numeric>

namespace sim {

const int nManifoldKinds = 16;
const int nGeneralKinds = 10;

void triangulateSoup(Soup& s) {
  std::vector<std::vector<size_t>> out;
  for (auto& p : s.polys)
    for (size_t i = 1; i + 1 < p.size(); i++) out.push_back({p[0], p[i], p[i + 1]});
  s.polys = out;
}

void compactSoup(Soup& s) {
  std::vector<size_t> map(s.pos.size(), NONE);
  std::vector<Vector3> np;
  for (auto& p : s.polys)
    for (auto& v : p) {
      if (map[v] == NONE) {
        map[v] = np.size();
        np.push_back(s.pos[v]);
      }
      v = map[v];
    }
  s.pos = np;
}

// independent manifoldness test for oriented simple polygon soups without repeated vertices in a face
bool soupIsManifold(const Soup& s) {
  std::map<std::pair<size_t, size_t>, int> dir;
  std::vector<std::vector<std::pair<size_t, size_t>>> link(s.pos.size()); // per vertex: (in-neighbour, out-neighbour)
  for (auto& p : s.polys) {
    size_t n = p.size();
    for (size_t i = 0; i < n; i++) {
      if (p[i] == p[(i + 1) % n]) return false;
      if (++dir[{p[i], p[(i + 1) % n]}] > 1) return false;
      link[p[i]].push_back({p[(i + n - 1) % n], p[(i + 1) % n]});
    }
  }
  for (auto& L : link) {
    if (L.empty()) return false;
    // corners form a single path or cycle: corner (in,out) is followed by the corner whose `out` equals this `in`...
    std::map<size_t, size_t> byOut;
    for (size_t i = 0; i < L.size(); i++) byOut[L[i].second] = i;
    // count chains
    size_t starts = 0;
    std::map<size_t, size_t> byIn;
    for (size_t i = 0; i < L.size(); i++) byIn[L[i].first] = i;
    for (auto& c : L)
      if (!byIn.count(c.second)) starts++; // no predecessor corner shares this outgoing edge
    if (starts > 1) return false;
    // connected?
    size_t cur = 0;
    if (starts == 1)
      for (size_t i = 0; i < L.size(); i++)
        if (!byIn.count(L[i].second)) cur = i;
    size_t n = 1, first = cur;
    while (true) {
      auto it = byOut.find(L[cur].first);
      if (it == byOut.end() || it->second == first) break;
      cur = it->second;
      n++;
      if (n > L.size()) return false;
    }
    if (n != L.size()) return false;
  }
  return true;
}

static Soup grid(int a, int b, Rng& r, bool tri) {
  Soup s;
  for (int i = 0; i <= a; i++)
    for (int j = 0; j <= b; j++)
      s.pos.push_back(Vector3{i + r.real(-.25, .25), j + r.real(-.25, .25), r.real(-.3, .3)});
  auto id = [&](int i, int j) { return (size_t)(i * (b + 1) + j); };
  for (int i = 0; i < a; i++)
    for (int j = 0; j < b; j++) {
      if (!tri) s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
      else if (r.chance(.5)) {
        s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
        s.polys.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
      } else {
        s.polys.push_back({id(i, j), id(i + 1, j), id(i, j + 1)});
        s.polys.push_back({id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
      }
    }
  return s;
}
static Soup torus(int a, int b, Rng& r, bool tri, bool annulus) {
  Soup s;
  int A = std::max(3, a), B = std::max(3, b);
  for (int i = 0; i < A; i++)
    for (int j = 0; j < B; j++) {
      double u = 2 * M_PI * i / A, v = 2 * M_PI * j / B;
      double R = 2, q = .9 + r.real(-.1, .1);
      s.pos.push_back(Vector3{(R + q * cos(v)) * cos(u), (R + q * cos(v)) * sin(u), q * sin(v)});
    }
  auto id = [&](int i, int j) { return (size_t)((i % A) * B + (j % B)); };
  for (int i = 0; i < A; i++)
    for (int j = 0; j < (annulus ? B - 1 : B); j++) {
      if (!tri) s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
      else {
        s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
        s.polys.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
      }
    }
  return s;
}
static Soup sphere(int level, Rng& r, int base) {
  Soup s;
  if (base == 0) { // octahedron
    s.pos = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
    s.polys = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  } else if (base == 1) { // tetrahedron
    s.pos = {{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}};
    s.polys = {{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}};
  } else { // icosahedron
    double t = (1 + sqrt(5.)) / 2;
    s.pos = {{-1, t, 0}, {1, t, 0}, {-1, -t, 0}, {1, -t, 0}, {0, -1, t}, {0, 1, t},
             {0, -1, -t}, {0, 1, -t}, {t, 0, -1}, {t, 0, 1}, {-t, 0, -1}, {-t, 0, 1}};
    s.polys = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4},
               {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8},
               {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
  }
  for (int l = 0; l < level; l++) {
    std::map<std::pair<size_t, size_t>, size_t> mid;
    auto m = [&](size_t a, size_t b) {
      auto k = std::minmax(a, b);
      auto it = mid.find(k);
      if (it != mid.end()) return it->second;
      s.pos.push_back((s.pos[a] + s.pos[b]) / 2.);
      return mid[k] = s.pos.size() - 1;
    };
    std::vector<std::vector<size_t>> np;
    for (auto& p : s.polys) {
      size_t a = m(p[0], p[1]), b = m(p[1], p[2]), c = m(p[2], p[0]);
      np.push_back({p[0], a, c});
      np.push_back({p[1], b, a});
      np.push_back({p[2], c, b});
      np.push_back({a, b, c});
    }
    s.polys = np;
  }
  for (auto& p : s.pos) p = unit(p) * (1 + r.real(-.12, .12));
  return s;
}
static void append(Soup& a, const Soup& b) {
  size_t o = a.pos.size();
  for (auto p : b.pos) a.pos.push_back(p + Vector3{7, 0, 0});
  for (auto p : b.polys) {
    for (auto& v : p) v += o;
    a.polys.push_back(p);
  }
}

Soup makeManifoldSoup(int kind, int size, u64 seed, bool triangles) {
  Rng r(seed ^ 0x5EED);
  kind = ((kind % nManifoldKinds) + nManifoldKinds) % nManifoldKinds;
  int n = std::max(1, size);
  Soup s;
  switch (kind) {
  case 0: s = grid(n, 1 + (int)r.below((u64)n), r, true); s.name = "trigrid"; break;
  case 1: s = grid(n, 1 + (int)r.below((u64)n), r, triangles); s.name = "quadgrid"; break;
  case 2: s = sphere(0, r, 0); s.name = "octahedron"; break;
  case 3: s = sphere(0, r, 1); s.name = "tetrahedron"; break;
  case 4: s = sphere(n >= 3 ? 1 : 0, r, 2); s.name = "icosphere"; break;
  case 5: s = torus(n, n, r, true, false); s.name = "tritorus"; break;
  case 6: s = torus(n, n, r, triangles, false); s.name = "quadtorus"; break;
  case 7: s = torus(n, std::max(3, n), r, true, true); s.name = "triannulus"; break;
  case 8: s = torus(n, std::max(3, n), r, triangles, true); s.name = "quadannulus"; break;
  case 9: { // disk fan
    int k = 3 + n;
    s.pos.push_back({0, 0, .2});
    for (int i = 0; i < k; i++) s.pos.push_back({cos(2 * M_PI * i / k), sin(2 * M_PI * i / k), r.real(-.1, .1)});
    for (int i = 0; i < k; i++) s.polys.push_back({0, (size_t)(1 + i), (size_t)(1 + (i + 1) % k)});
    s.name = "fan";
    break;
  }
  case 10: { // single polygon
    int k = 3 + (int)r.below((u64)n);
    std::vector<size_t> p;
    for (int i = 0; i < k; i++) {
      s.pos.push_back({cos(2 * M_PI * i / k), sin(2 * M_PI * i / k), 0});
      p.push_back((size_t)i);
    }
    s.polys.push_back(p);
    s.name = "polygon";
    break;
  }
  case 11: { // prism with n-gon caps
    int k = 3 + (int)r.below((u64)n + 1);
    std::vector<size_t> top, bot;
    for (int j = 0; j < 2; j++)
      for (int i = 0; i < k; i++) s.pos.push_back({cos(2 * M_PI * i / k), sin(2 * M_PI * i / k), (double)j});
    for (int i = 0; i < k; i++) {
      bot.push_back((size_t)(k - 1 - i));
      top.push_back((size_t)(k + i));
      s.polys.push_back({(size_t)i, (size_t)((i + 1) % k), (size_t)(k + (i + 1) % k), (size_t)(k + i)});
    }
    s.polys.push_back(top);
    s.polys.push_back(bot);
    s.name = "prism";
    break;
  }
  case 12: { // grid with holes and ragged boundary: drop random faces while staying manifold
    s = grid(n + 1, n + 1, r, true);
    int tries = 2 * n * n;
    for (int t = 0; t < tries && s.polys.size() > 3; t++) {
      Soup c = s;
      c.polys.erase(c.polys.begin() + (long)r.below(c.polys.size()));
      compactSoup(c);
      if (soupIsManifold(c)) s = c;
      if (s.polys.size() < (size_t)(n * n)) break;
    }
    s.name = "ragged";
    break;
  }
  case 13: { // several components
    s = sphere(0, r, (int)r.below(3));
    append(s, grid(std::max(1, n - 1), n, r, true));
    s.name = "components";
    break;
  }
  case 14: { // two triangles glued along all three edges is degenerate; use a double-sided polygon pillow instead
    int k = 3 + (int)r.below((u64)n + 1);
    for (int i = 0; i < k; i++) s.pos.push_back({cos(2 * M_PI * i / k), sin(2 * M_PI * i / k), r.real(-.1, .1)});
    s.pos.push_back({0, 0, 1});
    s.pos.push_back({0, 0, -1});
    for (int i = 0; i < k; i++) {
      s.polys.push_back({(size_t)i, (size_t)((i + 1) % k), (size_t)k});
      s.polys.push_back({(size_t)((i + 1) % k), (size_t)i, (size_t)(k + 1)});
    }
    s.name = "bipyramid";
    break;
  }
  default: { // sphere with random faces removed
    s = sphere(1, r, (int)r.below(3));
    for (int t = 0; t < n * 2 && s.polys.size() > 4; t++) {
      Soup c = s;
      c.polys.erase(c.polys.begin() + (long)r.below(c.polys.size()));
      compactSoup(c);
      if (soupIsManifold(c)) s = c;
    }
    s.name = "holeysphere";
    break;
  }
  }
  if (triangles) triangulateSoup(s);
  // shuffle face order and rotate faces so that index patterns vary
  if (r.chance(.5)) {
    for (size_t i = s.polys.size(); i > 1; i--) std::swap(s.polys[i - 1], s.polys[r.below(i)]);
    for (auto& p : s.polys) std::rotate(p.begin(), p.begin() + (long)r.below(p.size()), p.end());
  }
  return s;
}

Soup makeGeneralSoup(int kind, int size, u64 seed) {
  Rng r(seed ^ 0x6E4E);
  kind = ((kind % nGeneralKinds) + nGeneralKinds) % nGeneralKinds;
  int n = std::max(1, size);
  Soup s;
  auto rp = [&]() { return Vector3{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}; };
  switch (kind) {
  case 0: { // book: several pages around one edge, random orientations
    int k = 2 + n;
    s.pos = {rp(), rp()};
    for (int i = 0; i < k; i++) {
      s.pos.push_back(rp());
      size_t p = (size_t)(2 + i);
      if (r.chance(.5)) s.polys.push_back({0, 1, p});
      else s.polys.push_back({1, 0, p});
    }
    s.name = "book";
    break;
  }
  case 1: { // bowtie: fans sharing one vertex
    s.pos.push_back(rp());
    for (int k = 0; k < 2 + n % 3; k++) {
      size_t o = s.pos.size();
      int m = 1 + (int)r.below(4);
      for (int i = 0; i <= m; i++) s.pos.push_back(rp());
      for (int i = 0; i < m; i++) s.polys.push_back({0, o + (size_t)i, o + (size_t)i + 1});
    }
    s.name = "bowtie";
    break;
  }
  case 2: { // Moebius strip
    int k = 3 + n;
    for (int i = 0; i < k; i++) {
      s.pos.push_back(rp());
      s.pos.push_back(rp());
    }
    for (int i = 0; i < k; i++) {
      size_t a = (size_t)(2 * i), b = a + 1, c = (size_t)(2 * (i + 1)), d = c + 1;
      if (i + 1 == k) { c = 1; d = 0; }
      s.polys.push_back({a, c, b});
      s.polys.push_back({b, c, d});
    }
    s.name = "moebius";
    break;
  }
  case 3: case 4: { // random triangle soup on few vertices
    int nv = 4 + (int)r.below((u64)(n + 3));
    for (int i = 0; i < nv; i++) s.pos.push_back(rp());
    int nf = 2 + (int)r.below((u64)(3 * n + 4));
    for (int i = 0; i < nf; i++) {
      size_t a = r.below((u64)nv), b, c;
      do b = r.below((u64)nv); while (b == a);
      do c = r.below((u64)nv); while (c == a || c == b);
      s.polys.push_back({a, b, c});
    }
    compactSoup(s);
    s.name = "trisoup";
    break;
  }
  case 5: { // random polygon soup
    int nv = 6 + (int)r.below((u64)(n + 3));
    for (int i = 0; i < nv; i++) s.pos.push_back(rp());
    int nf = 2 + (int)r.below((u64)(2 * n + 2));
    for (int i = 0; i < nf; i++) {
      int d = 3 + (int)r.below(3);
      std::vector<size_t> perm((size_t)nv);
      std::iota(perm.begin(), perm.end(), 0);
      for (int k = 0; k < d; k++) std::swap(perm[(size_t)k], perm[(size_t)k + r.below((u64)(nv - k))]);
      s.polys.push_back(std::vector<size_t>(perm.begin(), perm.begin() + d));
    }
    compactSoup(s);
    s.name = "polysoup";
    break;
  }
  case 6: { // manifold mesh with randomly inverted faces
    s = makeManifoldSoup((int)r.below((u64)nManifoldKinds), n, r.next());
    for (auto& p : s.polys)
      if (r.chance(.4)) std::reverse(p.begin(), p.end());
    s.name = "flipped-" + s.name;
    break;
  }
  case 7: { // manifold mesh with duplicated faces
    s = makeManifoldSoup((int)r.below((u64)nManifoldKinds), n, r.next(), true);
    size_t k = 1 + r.below(3);
    for (size_t i = 0; i < k; i++) s.polys.push_back(s.polys[r.below(s.polys.size())]);
    s.name = "dup-" + s.name;
    break;
  }
  case 8: s = makeManifoldSoup((int)r.below((u64)nManifoldKinds), n, r.next()); break; // manifold, stored generally
  default: { // two closed surfaces sharing a vertex
    s = sphere(0, r, 0);
    Soup b = sphere(0, r, 1);
    size_t o = s.pos.size();
    append(s, b);
    for (auto& p : s.polys)
      for (auto& v : p)
        if (v == o) v = 0;
    compactSoup(s);
    s.name = "touching";
    break;
  }
  }
  return s;
}

// ---------------------------------------------------------------------------------------------------------------------

u64 Snap::hash() const {
  u64 h = 7;
  for (auto* v : {&hes, &vs, &es, &fs, &bls}) {
    h = hcomb(h, v->size());
    for (size_t x : *v) h = hcomb(h, x);
  }
  for (size_t i : hes) {
    h = hcomb(h, next[i]);
    h = hcomb(h, sib[i]);
    h = hcomb(h, vert[i]);
    h = hcomb(h, edge[i]);
    h = hcomb(h, face[i]);
    h = hcomb(h, (u64)orient[i]);
  }
  for (size_t i : vs) h = hcomb(h, vHe[i]);
  for (size_t i : es) h = hcomb(h, eHe[i]);
  for (size_t i : fs) h = hcomb(h, fHe[i]);
  for (size_t i : bls) h = hcomb(h, bHe[i]);
  return h;
}
bool Snap::operator==(const Snap& o) const { return diff(o).empty(); }
std::string Snap::diff(const Snap& o) const {
  char b[200];
#define D(f)                                                                                                           \
  if (f != o.f) {                                                                                                      \
    snprintf(b, sizeof b, #f " %zu vs %zu", f, o.f);                                                                   \
    return b;                                                                                                          \
  }
  D(nHe) D(nInt) D(nExt) D(nC) D(nE) D(nV) D(nF) D(nBL)
#undef D
#define D(f)                                                                                                           \
  if (f != o.f) return "live " #f " differ";
  D(hes) D(vs) D(es) D(fs) D(bls)
#undef D
#define D(f, live)                                                                                                     \
  for (size_t i : live)                                                                                                \
    if (f[i] != o.f[i]) {                                                                                              \
      snprintf(b, sizeof b, #f "[%zu] %zu vs %zu", i, (size_t)f[i], (size_t)o.f[i]);                                   \
      return b;                                                                                                        \
    }
  D(next, hes) D(sib, hes) D(vert, hes) D(edge, hes) D(face, hes) D(orient, hes) D(interior, hes)
  D(vHe, vs) D(eHe, es) D(fHe, fs) D(bHe, bls)
#undef D
  return "";
}

size_t Snap::components() const {
  std::map<size_t, size_t> par;
  std::function<size_t(size_t)> find = [&](size_t x) {
    while (par[x] != x) x = par[x] = par[par[x]];
    return x;
  };
  for (size_t v : vs) par[v] = v;
  for (size_t h : hes) {
    size_t a = find(vert[h]), b = find(vert[next[h]]);
    if (a != b) par[a] = b;
  }
  size_t n = 0;
  for (size_t v : vs) n += find(v) == v;
  return n;
}

static std::string CL(const char* pre, const char* c) { return std::string(pre) + c; }
#define V(cond, clause, ...)                                                                                           \
  do {                                                                                                                 \
    if (!(cond)) violate(CL(pre, clause).c_str(), __VA_ARGS__);                                                        \
  } while (0)

template <class It>
static std::vector<size_t> sorted(std::vector<It> v) {
  std::vector<size_t> r(v.begin(), v.end());
  std::sort(r.begin(), r.end());
  return r;
}

Snap snapshotChecked(SurfaceMesh& mesh, const char* pre) {
  Snap s;
  s.nHe = mesh.nHalfedges();
  s.nInt = mesh.nInteriorHalfedges();
  s.nExt = mesh.nExteriorHalfedges();
  s.nC = mesh.nCorners();
  s.nE = mesh.nEdges();
  s.nV = mesh.nVertices();
  s.nF = mesh.nFaces();
  s.nBL = mesh.nBoundaryLoops();
  const bool manifold = mesh.usesImplicitTwin();
  const size_t LIM = 50000000;
  V(mesh.nHalfedgesCapacity() < LIM && mesh.nVerticesCapacity() < LIM && mesh.nEdgesCapacity() < LIM && mesh.nFacesCapacity() < LIM,
    "capacity", "absurd capacity");
  V(s.nHe <= mesh.nHalfedgesCapacity() && s.nV <= mesh.nVerticesCapacity() && s.nE <= mesh.nEdgesCapacity() && s.nF <= mesh.nFacesCapacity() && s.nBL <= mesh.nBoundaryLoopsCapacity(),
    "capacity", "more elements than capacity");

  auto collect = [&](auto set, std::vector<size_t>& out, size_t bound, size_t indexBound, const char* what) {
    size_t last = NONE;
    for (auto x : set) {
      V(!x.isDead(), "iterator-dead", "iterating %s yields a deleted element %zu", what, x.getIndex());
      V(last == NONE || x.getIndex() > last, "iterator-order", "iterating %s is not in increasing order", what);
      last = x.getIndex();
      V(last < indexBound, "index-bound", "%s index %zu is not below the advertised index size %zu", what, last, indexBound);
      out.push_back(last);
      V(out.size() <= bound, "count", "iterating %s yields more than the reported %zu elements", what, bound);
    }
    V(out.size() == bound, "count", "%s: iteration yields %zu elements but %zu are reported", what, out.size(), bound);
  };
  collect(mesh.halfedges(), s.hes, s.nHe, std::min(mesh.halfedgeIndexSize(), mesh.nHalfedgesCapacity()), "halfedges");
  collect(mesh.vertices(), s.vs, s.nV, std::min(mesh.vertexIndexSize(), mesh.nVerticesCapacity()), "vertices");
  collect(mesh.edges(), s.es, s.nE, std::min(mesh.edgeIndexSize(), mesh.nEdgesCapacity()), "edges");
  collect(mesh.faces(), s.fs, s.nF, std::min(mesh.faceIndexSize(), mesh.nFacesCapacity()), "faces");
  collect(mesh.boundaryLoops(), s.bls, s.nBL, std::min(mesh.boundaryLoopIndexSize(), mesh.nBoundaryLoopsCapacity()), "boundary loops");
  std::vector<size_t> ints, exts, corners;
  collect(mesh.interiorHalfedges(), ints, s.nInt, mesh.nHalfedgesCapacity(), "interior halfedges");
  collect(mesh.exteriorHalfedges(), exts, s.nExt, mesh.nHalfedgesCapacity(), "exterior halfedges");
  collect(mesh.corners(), corners, s.nC, mesh.cornerIndexSize(), "corners");
  V(s.nInt + s.nExt == s.nHe, "count", "interior %zu + exterior %zu halfedges != %zu", s.nInt, s.nExt, s.nHe);
  V(corners == ints, "count", "corners do not correspond to interior halfedges");

  // live flags
  std::vector<char> liveH(mesh.nHalfedgesCapacity(), 0), liveV(mesh.nVerticesCapacity(), 0), liveE(mesh.nEdgesCapacity(), 0),
      liveF(mesh.nFacesCapacity(), 0), liveB(mesh.nBoundaryLoopsCapacity() + 1, 0);
  for (size_t i : s.hes) liveH[i] = 1;
  for (size_t i : s.vs) liveV[i] = 1;
  for (size_t i : s.es) liveE[i] = 1;
  for (size_t i : s.fs) liveF[i] = 1;
  for (size_t i : s.bls) liveB[i] = 1;

  size_t H = liveH.size();
  s.next.assign(H, NONE);
  s.sib.assign(H, NONE);
  s.vert.assign(H, NONE);
  s.edge.assign(H, NONE);
  s.face.assign(H, NONE);
  s.orient.assign(H, 0);
  s.interior.assign(H, 0);
  s.vHe.assign(liveV.size(), NONE);
  s.eHe.assign(liveE.size(), NONE);
  s.fHe.assign(liveF.size(), NONE);
  s.bHe.assign(liveB.size(), NONE);

  std::vector<size_t> eCount(liveE.size(), 0), vOut(liveV.size(), 0);
  for (size_t i : s.hes) {
    Halfedge he(&mesh, i);
    size_t n = he.next().getIndex(), sb = he.sibling().getIndex(), v = he.vertex().getIndex(), e = he.edge().getIndex();
    V(n < H && liveH[n], "next", "halfedge %zu: next is not a live halfedge", i);
    V(sb < H && liveH[sb], "sibling", "halfedge %zu: sibling is not a live halfedge", i);
    V(v < liveV.size() && liveV[v], "vertex", "halfedge %zu: vertex is not a live vertex", i);
    V(e < liveE.size() && liveE[e], "edge", "halfedge %zu: edge is not a live edge", i);
    s.next[i] = n;
    s.sib[i] = sb;
    s.vert[i] = v;
    s.edge[i] = e;
    s.interior[i] = he.isInterior();
    s.orient[i] = he.orientation();
    Face f = he.face();
    if (s.interior[i]) {
      V(!f.isBoundaryLoop(), "face", "interior halfedge %zu lies in a boundary loop", i);
      size_t fi = f.getIndex();
      V(fi < liveF.size() && liveF[fi], "face", "halfedge %zu: face is not a live face", i);
      s.face[i] = fi;
    } else {
      V(manifold, "face", "exterior halfedge %zu on a general mesh", i);
      V(f.isBoundaryLoop(), "face", "exterior halfedge %zu does not lie in a boundary loop", i);
      BoundaryLoop b = f.asBoundaryLoop();
      V(b.getIndex() < liveB.size() && liveB[b.getIndex()], "face", "exterior halfedge %zu: boundary loop is not live", i);
      V(b.asFace() == f, "face", "boundary loop / face conversion is not an involution");
      s.face[i] = Snap::FB + b.getIndex();
    }
    V(he.corner().getIndex() == i || !s.interior[i], "corner", "corner of halfedge %zu", i);
    V(he.tailVertex().getIndex() == v && he.tipVertex().getIndex() == he.next().vertex().getIndex(), "vertex", "tail/tip of halfedge %zu", i);
    eCount[e]++;
    vOut[v]++;
  }
  {
    std::vector<size_t> intsBy;
    for (size_t i : s.hes)
      if (s.interior[i]) intsBy.push_back(i);
    V(intsBy == ints, "count", "interior halfedge iteration disagrees with isInterior()");
  }

  // next is a permutation, face constant along orbits
  std::vector<char> seen(H, 0);
  for (size_t i : s.hes) seen[s.next[i]]++;
  for (size_t i : s.hes) V(seen[i] == 1, "next", "halfedge %zu is the successor of %d halfedges", i, (int)seen[i]);
  std::vector<size_t> fOrbit(liveF.size(), 0), bOrbit(liveB.size(), 0);
  std::fill(seen.begin(), seen.end(), 0);
  for (size_t i : s.hes) {
    if (seen[i]) continue;
    size_t h = i, len = 0;
    do {
      seen[h] = 1;
      V(s.face[h] == s.face[i], "face", "halfedges %zu and %zu share an orbit but not a face", i, h);
      h = s.next[h];
      len++;
    } while (h != i);
    if (s.face[i] < Snap::FB) fOrbit[s.face[i]]++;
    else bOrbit[s.face[i] - Snap::FB]++;
    V(len >= 2 || s.face[i] >= Snap::FB || true, "degree", "face of degree %zu", len);
  }
  for (size_t f : s.fs) {
    V(fOrbit[f] == 1, "face", "face %zu has %zu halfedge orbits", f, fOrbit[f]);
    Face F(&mesh, f);
    s.fHe[f] = F.halfedge().getIndex();
    V(s.fHe[f] < H && liveH[s.fHe[f]] && s.face[s.fHe[f]] == f, "face-halfedge", "face %zu: halfedge() is not in the face", f);
  }
  for (size_t b : s.bls) {
    V(bOrbit[b] == 1, "boundary-loop", "boundary loop %zu has %zu halfedge orbits", b, bOrbit[b]);
    BoundaryLoop B(&mesh, b);
    s.bHe[b] = B.halfedge().getIndex();
    V(s.bHe[b] < H && liveH[s.bHe[b]] && s.face[s.bHe[b]] == Snap::FB + b, "boundary-loop", "boundary loop %zu: halfedge() is not in the loop", b);
  }
  // siblings
  for (size_t e : s.es) {
    Edge E(&mesh, e);
    s.eHe[e] = E.halfedge().getIndex();
    V(eCount[e] >= 1, "edge", "edge %zu has no halfedges", e);
    V(s.eHe[e] < H && liveH[s.eHe[e]] && s.edge[s.eHe[e]] == e, "edge-halfedge", "edge %zu: halfedge() is not on the edge", e);
    size_t h = s.eHe[e], len = 0;
    do {
      V(s.edge[h] == e, "sibling", "sibling orbit of edge %zu leaves the edge", e);
      h = s.sib[h];
      len++;
      V(len <= eCount[e], "sibling", "sibling orbit of edge %zu does not close", e);
    } while (h != s.eHe[e]);
    V(len == eCount[e], "sibling", "edge %zu has %zu halfedges but its sibling orbit has %zu", e, eCount[e], len);
    size_t h0 = s.eHe[e];
    size_t a = s.vert[h0], b = s.vert[s.next[h0]];
    size_t nInt = 0, sameDir = 0;
    std::vector<size_t> list;
    h = h0;
    do {
      size_t t = s.vert[h], u = s.vert[s.next[h]];
      bool same = s.orient[h] == s.orient[h0];
      V(same ? (t == a && u == b) : (t == b && u == a), "edge-vertices", "halfedge %zu on edge %zu: endpoints do not match the edge", h, e);
      nInt += s.interior[h];
      sameDir += same;
      list.push_back(h);
      h = s.sib[h];
    } while (h != h0);
    if (manifold) {
      V(len == 2, "edge", "edge %zu of a manifold mesh has %zu halfedges", e, len);
      V(sameDir == 1, "orientation", "edge %zu: twins not opposite", e);
      V(Halfedge(&mesh, h0).twin().twin().getIndex() == h0 && Halfedge(&mesh, h0).twin().getIndex() != h0, "twin", "edge %zu twin", e);
      V(nInt >= 1, "edge", "edge %zu has no interior halfedge", e);
      V(s.interior[h0], "edge-halfedge", "edge %zu: halfedge() is exterior", e);
    }
    bool bdy = manifold ? (nInt == 1) : (len == 1);
    V(E.isBoundary() == bdy, "edge-boundary", "edge %zu: isBoundary() wrong", e);
    V(E.degree() == nInt, "edge-degree", "edge %zu: degree %zu, expected %zu", e, E.degree(), nInt);
    if (!bdy) V(E.isManifold() == (nInt <= 2), "edge-manifold", "edge %zu: isManifold()", e);
    V(E.firstVertex().getIndex() == a && E.secondVertex().getIndex() == b, "edge-vertices", "edge %zu first/second vertex", e);
    std::vector<size_t> it;
    for (Halfedge x : E.adjacentHalfedges()) {
      it.push_back(x.getIndex());
      V(it.size() <= len, "iterator-edge", "edge %zu adjacentHalfedges too long", e);
    }
    V(sorted(it) == sorted(list), "iterator-edge", "edge %zu adjacentHalfedges", e);
  }
  // faces: navigation
  for (size_t f : s.fs) {
    Face F(&mesh, f);
    auto loop = s.faceLoop(s.fHe[f]);
    V(F.degree() == loop.size(), "face-degree", "face %zu degree()", f);
    V(loop.size() < 3 || F.isTriangle() == (loop.size() == 3), "face-degree", "face %zu isTriangle()", f);
    size_t k = 0;
    for (Halfedge x : F.adjacentHalfedges()) {
      V(k < loop.size() && x.getIndex() == loop[k], "iterator-face", "face %zu adjacentHalfedges", f);
      k++;
    }
    V(k == loop.size(), "iterator-face", "face %zu adjacentHalfedges too short", f);
    k = 0;
    for (Vertex x : F.adjacentVertices()) {
      V(k < loop.size() && x.getIndex() == s.vert[loop[k]], "iterator-face", "face %zu adjacentVertices", f);
      k++;
    }
    V(k == loop.size(), "iterator-face", "face %zu adjacentVertices too short", f);
    k = 0;
    for (Edge x : F.adjacentEdges()) {
      V(k < loop.size() && x.getIndex() == s.edge[loop[k]], "iterator-face", "face %zu adjacentEdges", f);
      k++;
    }
    V(k == loop.size(), "iterator-face", "face %zu adjacentEdges too short", f);
    std::vector<size_t> fi, fx;
    for (Face x : F.adjacentFaces()) fi.push_back(x.getIndex());
    for (size_t h : loop)
      for (size_t g = s.sib[h]; g != h; g = s.sib[g])
        if (s.interior[g]) fx.push_back(s.face[g]);
    if (manifold) V(sorted(fi) == sorted(fx), "iterator-face", "face %zu adjacentFaces", f);
  }
  for (size_t b : s.bls) {
    BoundaryLoop B(&mesh, b);
    auto loop = s.faceLoop(s.bHe[b]);
    V(B.degree() == loop.size(), "boundary-loop", "boundary loop %zu degree()", b);
    size_t k = 0;
    for (Halfedge x : B.adjacentHalfedges()) {
      V(k < loop.size() && x.getIndex() == loop[k], "iterator-loop", "boundary loop %zu adjacentHalfedges", b);
      k++;
    }
    V(k == loop.size(), "iterator-loop", "boundary loop %zu adjacentHalfedges too short", b);
    k = 0;
    for (Vertex x : B.adjacentVertices()) {
      V(k < loop.size() && x.getIndex() == s.vert[loop[k]], "iterator-loop", "boundary loop %zu adjacentVertices", b);
      k++;
    }
    V(k == loop.size(), "iterator-loop", "boundary loop %zu adjacentVertices too short", b);
  }
  // vertices
  std::vector<std::vector<size_t>> outOf(liveV.size()), inTo(liveV.size());
  for (size_t i : s.hes) {
    outOf[s.vert[i]].push_back(i);
    inTo[s.vert[s.next[i]]].push_back(i);
  }
  for (size_t v : s.vs) {
    Vertex X(&mesh, v);
    s.vHe[v] = X.halfedge().getIndex();
    V(s.vHe[v] < H && liveH[s.vHe[v]] && s.vert[s.vHe[v]] == v, "vertex-halfedge", "vertex %zu: halfedge() does not start at the vertex", v);
    auto& out = outOf[v];
    auto& in = inTo[v];
    std::vector<size_t> it;
    for (Halfedge x : X.outgoingHalfedges()) {
      it.push_back(x.getIndex());
      V(it.size() <= out.size(), "iterator-vertex", "vertex %zu: outgoingHalfedges does not terminate as expected", v);
    }
    V(sorted(it) == sorted(out), "vertex-orbit", "vertex %zu: outgoingHalfedges gives %zu of its %zu halfedges", v, it.size(), out.size());
    it.clear();
    for (Halfedge x : X.incomingHalfedges()) {
      it.push_back(x.getIndex());
      V(it.size() <= in.size(), "iterator-vertex", "vertex %zu: incomingHalfedges does not terminate as expected", v);
    }
    V(sorted(it) == sorted(in), "vertex-orbit", "vertex %zu: incomingHalfedges gives %zu of its %zu halfedges", v, it.size(), in.size());
    // adjacency derived from incident edges
    std::vector<size_t> adjE, adjV, fx;
    bool bdy = false;
    std::set<size_t> es;
    for (auto* L : {&out, &in})
      for (size_t h : *L) {
        es.insert(s.edge[h]);
        bool eb = manifold ? !(s.interior[h] && s.interior[s.sib[h]]) : s.sib[h] == h;
        bdy = bdy || eb;
      }
    for (size_t h : out)
      if (s.interior[h]) fx.push_back(s.face[h]);
    V(X.isBoundary() == bdy, "vertex-boundary", "vertex %zu: isBoundary() is %d", v, (int)X.isBoundary());
    std::vector<size_t> fi;
    for (Face x : X.adjacentFaces()) fi.push_back(x.getIndex());
    V(sorted(fi) == sorted(fx), "iterator-vertex", "vertex %zu: adjacentFaces gives %zu entries, expected %zu", v, fi.size(), fx.size());
    V(X.faceDegree() == fx.size(), "vertex-degree", "vertex %zu: faceDegree() %zu, expected %zu", v, X.faceDegree(), fx.size());
    std::vector<size_t> ci;
    for (Corner x : X.adjacentCorners()) ci.push_back(x.getIndex());
    {
      std::vector<size_t> cx;
      for (size_t h : out)
        if (s.interior[h]) cx.push_back(h);
      V(sorted(ci) == sorted(cx), "iterator-vertex", "vertex %zu: adjacentCorners", v);
    }
    std::vector<size_t> ei, vi, ex, vx;
    for (Edge x : X.adjacentEdges()) ei.push_back(x.getIndex());
    for (Vertex x : X.adjacentVertices()) vi.push_back(x.getIndex());
    if (manifold) {
      // orbit order
      for (size_t h : out) {
        ex.push_back(s.edge[h]);
        vx.push_back(s.vert[s.next[h]]);
      }
      V(sorted(ei) == sorted(ex), "iterator-vertex", "vertex %zu: adjacentEdges", v);
      V(sorted(vi) == sorted(vx), "iterator-vertex", "vertex %zu: adjacentVertices", v);
      V(X.degree() == out.size(), "vertex-degree", "vertex %zu: degree() %zu, expected %zu", v, X.degree(), out.size());
      // manifold disk neighbourhood: one twin/next orbit containing all outgoing halfedges, at most one exterior
      size_t h = s.vHe[v], n = 0, ext = 0;
      do {
        n++;
        ext += !s.interior[h];
        h = s.next[s.sib[h]];
        V(n <= out.size(), "vertex-orbit", "vertex %zu: twin/next orbit does not close", v);
      } while (h != s.vHe[v]);
      V(n == out.size(), "vertex-orbit", "vertex %zu: twin/next orbit visits %zu of %zu outgoing halfedges", v, n, out.size());
      V(ext <= 1, "vertex-manifold", "vertex %zu lies on %zu boundary wedges", v, ext);
      V((ext == 1) == bdy, "vertex-boundary", "vertex %zu boundary", v);
      if (bdy)
        V(s.interior[s.vHe[v]] && !s.interior[s.sib[s.vHe[v]]], "vertex-halfedge-boundary",
          "vertex %zu: halfedge() is not the interior halfedge along the boundary", v);
    } else {
      std::multiset<size_t> eset(ei.begin(), ei.end());
      std::set<size_t> got(ei.begin(), ei.end());
      V(got == es, "iterator-vertex", "vertex %zu: adjacentEdges misses or adds edges", v);
      bool selfEdge = false;
      for (size_t e : es) selfEdge = selfEdge || s.vert[s.eHe[e]] == s.vert[s.next[s.eHe[e]]];
      if (!selfEdge) {
        V(ei.size() == es.size(), "iterator-vertex", "vertex %zu: adjacentEdges repeats edges", v);
        for (size_t e : es) vx.push_back(s.vert[s.eHe[e]] == v ? s.vert[s.next[s.eHe[e]]] : s.vert[s.eHe[e]]);
        V(sorted(vi) == sorted(vx), "iterator-vertex", "vertex %zu: adjacentVertices", v);
        V(X.degree() == es.size(), "vertex-degree", "vertex %zu: degree() %zu expected %zu", v, X.degree(), es.size());
      }
    }
  }
  // summary predicates
  V(!mesh.isCompressed() || (mesh.halfedgeIndexSize() == s.nHe && mesh.vertexIndexSize() == s.nV && mesh.edgeIndexSize() == s.nE &&
                            mesh.faceIndexSize() == s.nF && mesh.boundaryLoopIndexSize() == s.nBL),
    "compressed", "isCompressed() is %d but index sizes are he %zu/%zu v %zu/%zu e %zu/%zu f %zu/%zu bl %zu/%zu", (int)mesh.isCompressed(),
    mesh.halfedgeIndexSize(), s.nHe, mesh.vertexIndexSize(), s.nV, mesh.edgeIndexSize(), s.nE, mesh.faceIndexSize(), s.nF,
    mesh.boundaryLoopIndexSize(), s.nBL);
  V(mesh.nConnectedComponents() == s.components(), "components", "nConnectedComponents() %zu expected %zu", mesh.nConnectedComponents(), s.components());
  {
    bool tri = true;
    for (size_t f : s.fs) tri = tri && (s.degree(s.fHe[f]) == 3 || s.degree(s.fHe[f]) == 1);
    V(mesh.isTriangular() == tri, "triangular", "isTriangular() wrong");
  }
  if (manifold) {
    auto& m = static_cast<ManifoldSurfaceMesh&>(mesh);
    // boundary loops count as faces here (the closed-up surface); that is what the library's own callers rely on
    i64 chi = s.euler() + (i64)s.nBL;
    V(m.eulerCharacteristic() == chi, "euler", "eulerCharacteristic() %d expected %lld", m.eulerCharacteristic(), (long long)chi);
    if (s.components() == 1)
      V(m.genus() == (2 - chi) / 2, "genus", "genus() %d expected %lld (V=%zu E=%zu F=%zu boundary loops=%zu)", m.genus(), (long long)((2 - chi) / 2), s.nV, s.nE, s.nF, s.nBL);
    V(m.hasBoundary() == (s.nBL > 0), "boundary-loop", "hasBoundary() wrong");
    size_t ni = 0;
    for (size_t v : s.vs) ni += !Vertex(&mesh, v).isBoundary();
    V(mesh.nInteriorVertices() == ni, "count", "nInteriorVertices() %zu expected %zu", mesh.nInteriorVertices(), ni);
  }
  try {
    mesh.validateConnectivity();
  } catch (const std::exception& e) {
    violate(CL(pre, "validate").c_str(), "validateConnectivity() rejects the mesh: %s", e.what());
  }
  return s;
}

void checkIsomorphic(const Snap& a, const Snap& b, const std::vector<size_t>& hm, const std::vector<size_t>& vm,
                     const std::vector<size_t>& em, const std::vector<size_t>& fm, const std::vector<size_t>& bm,
                     const char* clause) {
  auto bij = [&](const std::vector<size_t>& A, const std::vector<size_t>& B, const std::vector<size_t>& m, const char* what) {
    CHECK(A.size() == B.size(), clause, "%s count changed %zu -> %zu", what, A.size(), B.size());
    std::set<size_t> img;
    std::set<size_t> bs(B.begin(), B.end());
    for (size_t x : A) {
      CHECK(x < m.size() && m[x] != NONE && bs.count(m[x]), clause, "%s %zu has no image", what, x);
      CHECK(img.insert(m[x]).second, clause, "%s mapping is not injective", what);
    }
  };
  bij(a.hes, b.hes, hm, "halfedge");
  bij(a.vs, b.vs, vm, "vertex");
  bij(a.es, b.es, em, "edge");
  bij(a.fs, b.fs, fm, "face");
  bij(a.bls, b.bls, bm, "boundary loop");
  for (size_t h : a.hes) {
    size_t g = hm[h];
    CHECK(b.next[g] == hm[a.next[h]], clause, "next of halfedge %zu not preserved", h);
    CHECK(b.sib[g] == hm[a.sib[h]], clause, "sibling of halfedge %zu not preserved", h);
    CHECK(b.vert[g] == vm[a.vert[h]], clause, "vertex of halfedge %zu not preserved", h);
    CHECK(b.edge[g] == em[a.edge[h]], clause, "edge of halfedge %zu not preserved", h);
    size_t f = a.face[h] < Snap::FB ? fm[a.face[h]] : Snap::FB + bm[a.face[h] - Snap::FB];
    CHECK(b.face[g] == f, clause, "face of halfedge %zu not preserved", h);
    CHECK(b.orient[g] == a.orient[h] && b.interior[g] == a.interior[h], clause, "orientation/interior of halfedge %zu not preserved", h);
  }
  for (size_t v : a.vs) CHECK(b.vHe[vm[v]] == hm[a.vHe[v]], clause, "halfedge() of vertex %zu not preserved", v);
  for (size_t e : a.es) CHECK(b.eHe[em[e]] == hm[a.eHe[e]], clause, "halfedge() of edge %zu not preserved", e);
  for (size_t f : a.fs) CHECK(b.fHe[fm[f]] == hm[a.fHe[f]], clause, "halfedge() of face %zu not preserved", f);
  for (size_t l : a.bls) CHECK(b.bHe[bm[l]] == hm[a.bHe[l]], clause, "halfedge() of boundary loop %zu not preserved", l);
}


void checkDerived(SurfaceMesh& mesh, const Snap& S, u64 salt) {
  const bool manifold = mesh.usesImplicitTwin();
  auto dense = [&](auto data, const std::vector<size_t>& live, auto mk, const char* what) {
    size_t k = 0;
    for (size_t i : live) {
      CHECK(data[mk(i)] == k, "dense-index", "%s of element %zu is %zu, expected %zu", what, i, (size_t)data[mk(i)], k);
      k++;
    }
  };
  dense(mesh.getVertexIndices(), S.vs, [&](size_t i) { return Vertex(&mesh, i); }, "getVertexIndices()");
  dense(mesh.getHalfedgeIndices(), S.hes, [&](size_t i) { return Halfedge(&mesh, i); }, "getHalfedgeIndices()");
  dense(mesh.getEdgeIndices(), S.es, [&](size_t i) { return Edge(&mesh, i); }, "getEdgeIndices()");
  dense(mesh.getFaceIndices(), S.fs, [&](size_t i) { return Face(&mesh, i); }, "getFaceIndices()");
  dense(mesh.getBoundaryLoopIndices(), S.bls, [&](size_t i) { return BoundaryLoop(&mesh, i); }, "getBoundaryLoopIndices()");
  std::vector<size_t> cs;
  for (size_t h : S.hes)
    if (S.interior[h]) cs.push_back(h);
  dense(mesh.getCornerIndices(), cs, [&](size_t i) { return Corner(&mesh, i); }, "getCornerIndices()");

  // boundary
  std::set<size_t> bv;
  std::map<size_t, size_t> deg, sameDir;
  for (size_t h : S.hes) {
    if (!S.interior[h]) continue;
    deg[S.edge[h]]++;
    if (S.orient[h]) sameDir[S.edge[h]]++;
  }
  bool anyB = false, edgeMan = true, oriented = true;
  auto es = mesh.getEdgeManifoldStatus();
  auto eo = mesh.getEdgeOrientedStatus();
  for (size_t e : S.es) {
    if (deg[e] == 1) {
      anyB = true;
      bv.insert(S.vert[S.eHe[e]]);
      bv.insert(S.tip(S.eHe[e]));
    }
    bool m = deg[e] <= 2, o = m && (deg[e] == 1 || sameDir[e] == 1);
    CHECK(es[Edge(&mesh, e)] == m, "edge-manifold", "getEdgeManifoldStatus() of edge %zu with %zu faces", e, deg[e]);
    CHECK(eo[Edge(&mesh, e)] == o, "edge-oriented", "getEdgeOrientedStatus() of edge %zu", e);
    edgeMan = edgeMan && m;
    oriented = oriented && o;
  }
  CHECK(mesh.isEdgeManifold() == edgeMan, "edge-manifold", "isEdgeManifold()");
  CHECK(mesh.isOriented() == oriented, "edge-oriented", "isOriented()");
  CHECK(mesh.hasBoundary() == anyB, "has-boundary", "hasBoundary() is %d", (int)mesh.hasBoundary());
  auto vb = mesh.getVertexBoundaryStatus();
  auto iv = mesh.getInteriorVertexIndices();
  size_t k = 0;
  for (size_t v : S.vs) {
    bool b = bv.count(v) > 0;
    CHECK(vb[Vertex(&mesh, v)] == b, "vertex-boundary", "getVertexBoundaryStatus() of vertex %zu", v);
    CHECK(iv[Vertex(&mesh, v)] == (b ? INVALID_IND : k), "dense-index", "getInteriorVertexIndices() of vertex %zu", v);
    k += !b;
  }
  CHECK(mesh.nInteriorVertices() == k, "count", "nInteriorVertices()");
  // vertex manifoldness: corners around the vertex form one edge-connected component, all edges manifold
  auto vm = mesh.getVertexManifoldStatus();
  std::map<size_t, std::vector<size_t>> corn;
  std::set<size_t> twice;
  for (size_t h : cs) {
    for (size_t g : corn[S.vert[h]])
      if (S.face[g] == S.face[h]) twice.insert(S.vert[h]);
    corn[S.vert[h]].push_back(h);
  }
  bool allM = true, known = true;
  for (size_t v : S.vs) {
    if (twice.count(v)) { known = false; continue; }
    std::set<size_t> fs, seen;
    bool m = true;
    std::map<size_t, std::vector<size_t>> byEdge;
    for (size_t h : corn[v]) fs.insert(S.face[h]);
    for (size_t h : cs)
      if (fs.count(S.face[h]) && (S.vert[h] == v || S.tip(h) == v)) byEdge[S.edge[h]].push_back(S.face[h]);
    std::map<size_t, std::set<size_t>> adj;
    for (auto& p : byEdge) {
      if (deg[p.first] > 2) m = false;
      for (size_t a : p.second)
        for (size_t b : p.second) adj[a].insert(b);
    }
    if (m && !fs.empty()) {
      std::vector<size_t> st{*fs.begin()};
      while (!st.empty()) {
        size_t f = st.back();
        st.pop_back();
        if (!seen.insert(f).second) continue;
        for (size_t g : adj[f]) st.push_back(g);
      }
      m = seen == fs;
    }
    CHECK(vm[Vertex(&mesh, v)] == m, "vertex-manifold", "getVertexManifoldStatus() of vertex %zu is %d", v, (int)!m);
    allM = allM && m;
  }
  if (manifold) CHECK(mesh.isManifold(), "vertex-manifold", "isManifold() false on a manifold mesh");
  else if (known) CHECK(mesh.isManifold() == (allM && edgeMan), "vertex-manifold", "isManifold() is %d", (int)mesh.isManifold());

  // face lists
  std::map<size_t, size_t> vi;
  k = 0;
  for (size_t v : S.vs) vi[v] = k++;
  auto fl = mesh.getFaceVertexList();
  CHECK(fl.size() == S.nF, "face-list", "getFaceVertexList() has %zu faces", fl.size());
  size_t d0 = S.nF ? S.degree(S.fHe[S.fs[0]]) : 0;
  bool uniform = S.nF > 0;
  for (size_t i = 0; i < S.fs.size(); i++) {
    std::vector<size_t> want;
    for (size_t h : S.faceLoop(S.fHe[S.fs[i]])) want.push_back(vi[S.vert[h]]);
    CHECK(fl[i] == want, "face-list", "getFaceVertexList() of face %zu", S.fs[i]);
    uniform = uniform && want.size() == d0;
  }
  if (uniform) {
    auto M = mesh.getFaceVertexMatrix<size_t>();
    CHECK((size_t)M.rows() == S.nF && (size_t)M.cols() == d0, "face-list", "getFaceVertexMatrix() shape");
    for (size_t i = 0; i < S.nF; i++)
      for (size_t j = 0; j < d0; j++) CHECK(M((long)i, (long)j) == fl[i][j], "face-list", "getFaceVertexMatrix() entry");
  }
  // connecting edges
  std::set<std::pair<size_t, size_t>> pairs;
  for (size_t e : S.es) pairs.insert(std::minmax(S.vert[S.eHe[e]], S.tip(S.eHe[e])));
  Rng r(salt);
  for (int t = 0; t < 8 && S.nV > 1; t++) {
    size_t a = r.pick(S.vs), b = r.pick(S.vs);
    if (t % 2 && !S.es.empty()) {
      size_t e = r.pick(S.es);
      a = S.vert[S.eHe[e]];
      b = S.tip(S.eHe[e]);
      if (t % 4 == 1) std::swap(a, b);
    }
    Edge e = mesh.connectingEdge(Vertex(&mesh, a), Vertex(&mesh, b));
    bool want = pairs.count(std::minmax(a, b)) > 0;
    CHECK((e != Edge()) == want, "connecting-edge", "connectingEdge(%zu,%zu) %s", a, b, want ? "not found" : "found but none exists");
    if (want) {
      size_t i = e.getIndex();
      CHECK(std::minmax(S.vert[S.eHe[i]], S.tip(S.eHe[i])) == std::minmax(a, b), "connecting-edge", "connectingEdge(%zu,%zu) returned an edge elsewhere", a, b);
      CHECK(e.otherVertex(Vertex(&mesh, a)).getIndex() == b, "connecting-edge", "otherVertex");
    }
  }
}

} // namespace sim
