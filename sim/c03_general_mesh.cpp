// C03: general (nonmanifold, unoriented) SurfaceMesh: every history of its mutations keeps the mesh valid with the
// documented effect, containers follow, and conversion to a manifold mesh preserves the surface.
#include "meshlib.h"
#include <algorithm>
using namespace sim;

namespace {
enum GOp { G_invert, G_dup, G_flip, G_sep, G_sepAll, G_sepVerts, G_orient, G_compress, G_toManifold, G_copy, G_COUNT };
const std::vector<std::string> gNames = {"invertOrientation", "duplicateFace", "flip", "separateToNewEdge", "separateNonmanifoldEdges",
                                         "separateNonmanifoldVertices", "greedilyOrientFaces", "compress", "toManifoldMesh", "copy"};
typedef std::vector<std::pair<size_t, size_t>> Cyc;
Cyc cyc(const Snap& S, size_t he) {
  Cyc c;
  for (size_t h : S.faceLoop(he)) c.push_back({S.vert[h], S.edge[h]});
  return c;
}
// traversing the other way: vertex i, then the edge leaving it in the reverse direction
Cyc reversed(const Cyc& c) {
  Cyc r;
  size_t n = c.size();
  for (size_t k = 0; k < n; k++) {
    size_t i = (n - k) % n;
    r.push_back({c[i].first, c[(i + n - 1) % n].second});
  }
  return r;
}
bool cycEq(const Cyc& a, const Cyc& b) {
  if (a.size() != b.size()) return false;
  for (size_t s = 0; s < a.size(); s++) {
    bool ok = true;
    for (size_t i = 0; i < a.size() && ok; i++) ok = a[i] == b[(i + s) % b.size()];
    if (ok) return true;
  }
  return a.empty();
}
std::vector<size_t> setMinus(const std::vector<size_t>& a, const std::vector<size_t>& b) {
  std::vector<size_t> r;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  return r;
}

// containers riding along: values assigned at birth, must follow identities
struct Riders {
  VertexData<size_t> v;
  HalfedgeData<size_t> h;
  CornerData<double> c;
  EdgeData<size_t> e;
  FaceData<std::string> f;
  std::vector<size_t> vi, hi, ei, fi; // index -> id (expected)
  size_t next = 1;
  Riders(SurfaceMesh& m) : v(m, 7), h(m, 7), c(m, 7.), e(m, 7), f(m, "new") {}
  void absorb(SurfaceMesh& m, const Snap& S) { // label newly created elements, after checking they carry the default
    auto doit = [&](std::vector<size_t>& ids, const std::vector<size_t>& live, auto get, auto set, const char* what) {
      for (size_t i : live) {
        if (ids.size() <= i) ids.resize(i + 1, NONE);
        if (ids[i] == NONE) {
          CHECK(get(i, (size_t)7, true), "container-default", "%s %zu: new element does not carry the default", what, i);
          ids[i] = next++;
          set(i, ids[i]);
        } else {
          CHECK(get(i, ids[i], false), "container-follow", "%s %zu: container entry lost", what, i);
        }
      }
    };
    doit(vi, S.vs, [&](size_t i, size_t x, bool) { return v[Vertex(&m, i)] == x; }, [&](size_t i, size_t x) { v[Vertex(&m, i)] = x; }, "vertex");
    doit(hi, S.hes, [&](size_t i, size_t x, bool) { return h[Halfedge(&m, i)] == x && c[Halfedge(&m, i).corner()] == (double)x; },
         [&](size_t i, size_t x) { h[Halfedge(&m, i)] = x; c[Halfedge(&m, i).corner()] = (double)x; }, "halfedge");
    doit(ei, S.es, [&](size_t i, size_t x, bool) { return e[Edge(&m, i)] == x; }, [&](size_t i, size_t x) { e[Edge(&m, i)] = x; }, "edge");
    doit(fi, S.fs, [&](size_t i, size_t x, bool nw) { return f[Face(&m, i)] == (nw ? std::string("new") : std::to_string(x)); },
         [&](size_t i, size_t x) { f[Face(&m, i)] = std::to_string(x); }, "face");
  }
};

std::vector<std::vector<std::pair<size_t, size_t>>> classes(const Snap& S) { // per edge: (face, halfedge)
  std::map<size_t, std::vector<std::pair<size_t, size_t>>> m;
  for (size_t h : S.hes) m[S.edge[h]].push_back({S.face[h], h});
  std::vector<std::vector<std::pair<size_t, size_t>>> r;
  for (auto& p : m) r.push_back(p.second);
  return r;
}

void step(SurfaceMesh& mesh, const Op& op, Ctx& ctx, Snap& S, Riders& R) {
  Snap T;
  bool threw = false, applied = false;
  auto pick = [&](const std::vector<size_t>& v, size_t i) { return v[arg(op, i) % v.size()]; };
  auto unchanged = [&](const char* what, bool anchors) {
    Snap A = S, B = T;
    if (!anchors) { A.vHe = B.vHe; }
    std::string d = A.diff(B);
    CHECK(d.empty(), "refused-changed", "%s changed the mesh: %s", what, d.c_str());
  };
  // faces other than these keep their cycle, in place
  auto framed = [&](const std::set<size_t>& except, const char* clause) {
    for (size_t f : S.fs) {
      if (except.count(f)) continue;
      CHECK(cyc(S, S.fHe[f]) == cyc(T, T.fHe[f]) || cycEq(cyc(S, S.fHe[f]), cyc(T, T.fHe[f])), clause, "face %zu changed", f);
    }
  };
  std::map<size_t, size_t> edeg;
  for (size_t h : S.hes) edeg[S.edge[h]]++;

  switch (op.kind) {
  case G_invert: {
    size_t f = pick(S.fs, 0);
    mesh.invertOrientation(Face(&mesh, f));
    T = snapshotChecked(mesh);
    CHECK(T.vs == S.vs && T.es == S.es && T.fs == S.fs && T.hes == S.hes, "invert", "elements created or deleted");
    CHECK(cycEq(cyc(T, T.fHe[f]), reversed(cyc(S, S.fHe[f]))), "invert", "face %zu is not its old self reversed", f);
    framed({f}, "invert");
    for (size_t h : S.hes) {
      CHECK(T.edge[h] == S.edge[h] && T.face[h] == S.face[h] && T.sib[h] == S.sib[h], "invert", "halfedge %zu moved", h);
      CHECK((T.orient[h] != S.orient[h]) == (S.face[h] == f), "invert", "orientation flag of halfedge %zu", h);
    }
    applied = true;
    break;
  }
  case G_dup: {
    size_t f = pick(S.fs, 0);
    Face nf = mesh.duplicateFace(Face(&mesh, f));
    T = snapshotChecked(mesh);
    size_t g = nf.getIndex(), d = S.degree(S.fHe[f]);
    CHECK(setMinus(T.fs, S.fs) == std::vector<size_t>{g} && T.nF == S.nF + 1, "duplicate", "not exactly one new face");
    CHECK(T.vs == S.vs && T.es == S.es, "duplicate", "vertices or edges created");
    CHECK(T.nHe == S.nHe + d && T.nInt == S.nInt + d && T.nC == S.nC + d && T.nExt == S.nExt, "duplicate",
          "halfedge counts: %zu/%zu interior/%zu corners, expected %zu", T.nHe, T.nInt, T.nC, S.nHe + d);
    CHECK(cycEq(cyc(T, T.fHe[g]), cyc(S, S.fHe[f])), "duplicate", "the copy has another boundary");
    framed({}, "duplicate");
    applied = true;
    break;
  }
  case G_flip: {
    size_t e = pick(S.es, 0);
    bool prevent = arg(op, 1) % 2;
    size_t a1 = S.eHe[e], b1 = S.sib[a1];
    bool can = edeg[e] == 2 && S.degree(a1) == 3 && S.degree(b1) == 3 && S.face[a1] != S.face[b1];
    size_t c = 0, d = 0, va = 0, vb = 0;
    if (can) {
      auto third = [&](size_t h) { return S.vert[S.next[S.next[h]]]; };
      c = third(a1);
      d = third(b1);
      va = S.vert[a1];
      vb = S.tip(a1);
      if (prevent) {
        can = c != d;
        for (size_t h : S.hes) if ((S.vert[h] == c && S.tip(h) == d) || (S.vert[h] == d && S.tip(h) == c)) can = false;
      }
    }
    std::map<size_t, std::pair<size_t, size_t>> outer;
    if (can)
      for (size_t h0 : {a1, b1})
        for (size_t h : S.faceLoop(h0))
          if (h != h0) outer[S.edge[h]] = std::minmax({S.vert[h], S.tip(h)});
    bool wasComp = mesh.isCompressed();
    bool r = mesh.flip(Edge(&mesh, e), prevent);
    T = snapshotChecked(mesh);
    CHECK(r == can, "flip", "flip(edge %zu, %d) returned %d", e, (int)prevent, (int)r);
    CHECK(mesh.isCompressed() == wasComp, "flip", "flip changed isCompressed()");
    if (!r) { unchanged("refused flip", false); ctx.count("refused.flip"); break; }
    CHECK(T.vs == S.vs && T.es == S.es && T.fs == S.fs && T.hes == S.hes, "flip", "elements created or deleted");
    size_t fa = S.face[a1], fb = S.face[b1];
    CHECK(std::minmax({T.vert[T.eHe[e]], T.tip(T.eHe[e])}) == std::minmax({c, d}), "flip", "edge %zu does not connect the opposite vertices", e);
    std::set<size_t> faces{T.face[T.eHe[e]], T.face[T.sib[T.eHe[e]]]};
    CHECK((faces == std::set<size_t>{fa, fb}), "flip", "edge %zu is not between its two faces", e);
    // each new triangle: c, d and one of the old end points, with the old outer edges
    std::vector<size_t> apexes;
    std::multiset<size_t> outerNow;
    for (size_t h0 : {T.eHe[e], T.sib[T.eHe[e]]}) {
      CHECK(T.degree(h0) == 3, "flip", "not a triangle any more");
      apexes.push_back(T.vert[T.next[T.next[h0]]]);
      for (size_t h : T.faceLoop(h0))
        if (h != h0) {
          outerNow.insert(T.edge[h]);
          CHECK(outer.count(T.edge[h]) && outer[T.edge[h]] == std::minmax({T.vert[h], T.tip(h)}), "flip", "outer edge %zu changed", T.edge[h]);
        }
    }
    CHECK(std::minmax({apexes[0], apexes[1]}) == std::minmax({va, vb}), "flip", "new triangles have the wrong corners");
    {
      std::multiset<size_t> want;
      for (size_t h0 : {a1, b1})
        for (size_t h : S.faceLoop(h0)) if (h != h0) want.insert(S.edge[h]);
      CHECK(want == outerNow, "flip", "outer edges changed");
    }
    // the flipped pair is consistently oriented exactly when the two faces were
    CHECK((S.orient[a1] != S.orient[b1]) == (T.orient[T.eHe[e]] != T.orient[T.sib[T.eHe[e]]]), "flip", "relative orientation of the faces changed");
    framed({fa, fb}, "flip");
    applied = true;
    break;
  }
  case G_sep: {
    // prefer an edge with several faces
    std::vector<size_t> cand;
    for (size_t e : S.es) if (edeg[e] > 2) cand.push_back(e);
    if (cand.empty() || arg(op, 3) % 4 == 0) cand = S.es;
    size_t e = cand[arg(op, 0) % cand.size()];
    std::vector<size_t> hs;
    for (size_t h : S.hes) if (S.edge[h] == e) hs.push_back(h);
    size_t a = hs[arg(op, 1) % hs.size()], b = hs[arg(op, 2) % hs.size()];
    if (arg(op, 3) % 7 == 1) b = pick(S.hes, 2);
    Edge r;
    try { r = mesh.separateToNewEdge(Halfedge(&mesh, a), Halfedge(&mesh, b)); } catch (const std::exception&) { threw = true; }
    T = snapshotChecked(mesh);
    bool bad = a == b || S.edge[a] != S.edge[b];
    CHECK(threw == bad, "separate", "separateToNewEdge on halfedges %zu %zu %s", a, b, threw ? "threw" : "was accepted");
    if (bad) { unchanged("refused separateToNewEdge", true); break; }
    if (hs.size() <= 2) {
      CHECK(r.getIndex() == e, "separate", "should return the edge itself");
      unchanged("separateToNewEdge without work", true);
      break;
    }
    size_t n = r.getIndex();
    CHECK(setMinus(T.es, S.es) == std::vector<size_t>{n} && T.nE == S.nE + 1, "separate", "not exactly one new edge");
    CHECK(T.vs == S.vs && T.fs == S.fs && T.hes == S.hes, "separate", "other elements changed");
    for (size_t h : S.hes) {
      CHECK(T.edge[h] == (h == a || h == b ? n : S.edge[h]), "separate", "halfedge %zu is on the wrong edge", h);
      CHECK(T.next[h] == S.next[h] && T.vert[h] == S.vert[h] && T.face[h] == S.face[h] && T.orient[h] == S.orient[h], "separate", "halfedge %zu changed", h);
    }
    applied = true;
    break;
  }
  case G_sepAll: {
    mesh.separateNonmanifoldEdges();
    T = snapshotChecked(mesh);
    CHECK(T.vs == S.vs && T.fs == S.fs && T.hes == S.hes, "separate-all", "other elements changed");
    for (size_t h : S.hes)
      CHECK(T.next[h] == S.next[h] && T.vert[h] == S.vert[h] && T.face[h] == S.face[h] && T.orient[h] == S.orient[h], "separate-all", "halfedge %zu changed", h);
    std::map<size_t, std::set<size_t>> from;
    std::map<size_t, size_t> deg;
    for (size_t h : T.hes) {
      from[T.edge[h]].insert(S.edge[h]);
      deg[T.edge[h]]++;
    }
    for (auto& p : from) CHECK(p.second.size() == 1, "separate-all", "edge %zu joins halfedges of different old edges", p.first);
    for (auto& p : deg) CHECK(p.second <= 2, "separate-all", "edge %zu still has %zu faces", p.first, p.second);
    for (size_t e : S.es) if (edeg[e] <= 2) CHECK(deg[e] == edeg[e], "separate-all", "manifold edge %zu changed", e);
    applied = T.nE != S.nE;
    break;
  }
  case G_sepVerts: {
    bool bad = false;
    for (auto& p : edeg) bad = bad || p.second > 2;
    VertexData<Vertex> par;
    try { par = mesh.separateNonmanifoldVertices(); } catch (const std::exception&) { threw = true; }
    T = snapshotChecked(mesh);
    CHECK(threw == bad, "separate-vertices", "separateNonmanifoldVertices %s", threw ? "threw on an edge-manifold mesh" : "accepted a mesh that is not edge-manifold");
    if (bad) { unchanged("refused separateNonmanifoldVertices", true); break; }
    CHECK(T.es == S.es && T.fs == S.fs && T.hes == S.hes, "separate-vertices", "other elements changed");
    CHECK(setMinus(S.vs, T.vs).empty(), "separate-vertices", "vertices deleted");
    for (size_t v : T.vs) {
      Vertex p = par[Vertex(&mesh, v)];
      bool old = std::binary_search(S.vs.begin(), S.vs.end(), v);
      CHECK(p != Vertex() && p.getMesh() == &mesh && std::binary_search(S.vs.begin(), S.vs.end(), p.getIndex()), "separate-vertices", "vertex %zu has no valid parent", v);
      if (old) CHECK(p.getIndex() == v, "separate-vertices", "vertex %zu is not its own parent", v);
    }
    for (size_t h : S.hes) {
      CHECK(par[Vertex(&mesh, T.vert[h])].getIndex() == S.vert[h], "separate-vertices", "halfedge %zu now starts at a vertex that did not come from its own", h);
      CHECK(T.next[h] == S.next[h] && T.edge[h] == S.edge[h] && T.face[h] == S.face[h] && T.sib[h] == S.sib[h] && T.orient[h] == S.orient[h], "separate-vertices", "halfedge %zu changed", h);
    }
    // exactly one vertex for every edge-connected group of corners
    std::map<size_t, size_t> uf;
    std::function<size_t(size_t)> find = [&](size_t x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
    for (size_t h : S.hes) uf[h] = h;
    for (size_t h : S.hes) {
      size_t g = S.sib[h];
      if (g == h) continue;
      size_t hn = S.next[h], gn = S.next[g];
      if (S.orient[h] == S.orient[g]) { uf[find(h)] = find(g); uf[find(hn)] = find(gn); }
      else { uf[find(h)] = find(gn); uf[find(hn)] = find(g); }
    }
    std::map<size_t, std::set<size_t>> groups, vertsOf;
    for (size_t h : S.hes) {
      groups[T.vert[h]].insert(find(h));
      vertsOf[find(h)].insert(T.vert[h]);
    }
    for (auto& p : groups) CHECK(p.second.size() == 1, "separate-vertices", "vertex %zu still joins %zu separate fans", p.first, p.second.size());
    for (auto& p : vertsOf) CHECK(p.second.size() == 1, "separate-vertices", "one fan was split over %zu vertices", p.second.size());
    applied = T.nV != S.nV;
    break;
  }
  case G_orient: {
    mesh.greedilyOrientFaces();
    T = snapshotChecked(mesh);
    CHECK(T.vs == S.vs && T.es == S.es && T.fs == S.fs && T.hes == S.hes, "orient", "elements created or deleted");
    for (size_t f : S.fs) {
      Cyc o = cyc(S, S.fHe[f]), n = cyc(T, T.fHe[f]);
      CHECK(cycEq(o, n) || cycEq(reversed(o), n), "orient", "face %zu is neither its old self nor reversed", f);
    }
    for (size_t h : S.hes) CHECK(T.edge[h] == S.edge[h] && T.face[h] == S.face[h] && T.sib[h] == S.sib[h], "orient", "halfedge %zu moved", h);
    // components connected through manifold edges that can be oriented, are
    std::map<size_t, std::vector<std::pair<size_t, int>>> adj; // face -> (face, must differ)
    for (size_t e : S.es) {
      if (edeg[e] != 2) continue;
      size_t a = S.eHe[e], b = S.sib[a];
      int flip = S.orient[a] == S.orient[b];
      adj[S.face[a]].push_back({S.face[b], flip});
      adj[S.face[b]].push_back({S.face[a], flip});
    }
    std::map<size_t, int> colour, comp;
    std::vector<char> good;
    for (size_t f : S.fs) {
      if (comp.count(f)) continue;
      int id = (int)good.size();
      good.push_back(1);
      std::vector<size_t> st{f};
      comp[f] = id;
      colour[f] = 0;
      while (!st.empty()) {
        size_t x = st.back();
        st.pop_back();
        for (auto& p : adj[x]) {
          if (!comp.count(p.first)) {
            comp[p.first] = id;
            colour[p.first] = colour[x] ^ p.second;
            st.push_back(p.first);
          } else if (colour[p.first] != (colour[x] ^ p.second)) good[(size_t)id] = 0;
        }
      }
    }
    for (size_t e : S.es) {
      if (edeg[e] != 2) continue;
      size_t a = T.eHe[e], b = T.sib[a];
      if (!good[(size_t)comp[T.face[a]]]) continue;
      CHECK(T.orient[a] != T.orient[b], "orient", "edge %zu of an orientable piece is not oriented", e);
    }
    applied = true;
    break;
  }
  case G_compress: {
    std::vector<size_t> pv, pe, pf, ph;
    bool was = mesh.isCompressed();
    auto iv = mesh.vertexPermuteCallbackList.insert(mesh.vertexPermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pv = p; });
    auto ie = mesh.edgePermuteCallbackList.insert(mesh.edgePermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pe = p; });
    auto jf = mesh.facePermuteCallbackList.insert(mesh.facePermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pf = p; });
    auto ih = mesh.halfedgePermuteCallbackList.insert(mesh.halfedgePermuteCallbackList.end(), [&](const std::vector<size_t>& p) { ph = p; });
    mesh.compress();
    mesh.vertexPermuteCallbackList.erase(iv);
    mesh.edgePermuteCallbackList.erase(ie);
    mesh.facePermuteCallbackList.erase(jf);
    mesh.halfedgePermuteCallbackList.erase(ih);
    T = snapshotChecked(mesh);
    CHECK(mesh.isCompressed(), "compress", "not compressed after compress()");
    if (was) { unchanged("compress() on a compressed mesh", true); break; }
    auto inv = [&](const std::vector<size_t>& p, size_t n, size_t cap) {
      CHECK(p.size() == n, "compress", "permutation of length %zu for %zu elements", p.size(), n);
      std::vector<size_t> m(cap, NONE);
      for (size_t i = 0; i < n; i++) if (p[i] < cap) m[p[i]] = i;
      return m;
    };
    checkIsomorphic(S, T, inv(ph, T.nHe, S.next.size()), inv(pv, T.nV, S.vHe.size()), inv(pe, T.nE, S.eHe.size()), inv(pf, T.nF, S.fHe.size()), {}, "compress");
    auto re = [](std::vector<size_t>& ids, const std::vector<size_t>& p) {
      std::vector<size_t> n;
      for (size_t i : p) n.push_back(i < ids.size() ? ids[i] : NONE);
      ids = n;
    };
    re(R.vi, pv); re(R.ei, pe); re(R.fi, pf); re(R.hi, ph);
    applied = true;
    break;
  }
  case G_toManifold: {
    bool man = mesh.isManifold(), ori = mesh.isOriented(); // checked independently by checkDerived
    std::unique_ptr<ManifoldSurfaceMesh> m;
    std::string msg;
    try { m = mesh.toManifoldMesh(); } catch (const std::exception& x) { threw = true; msg = x.what(); }
    T = snapshotChecked(mesh);
    unchanged("toManifoldMesh()", true);
    bool selfEdge = false; // constructors refuse these loudly
    for (size_t e : S.es) selfEdge = selfEdge || S.vert[S.eHe[e]] == S.tip(S.eHe[e]);
    if (threw && selfEdge) { ctx.count("refused.toManifoldMesh(self-edge)"); break; }
    CHECK(threw == !(man && ori), "to-manifold", "toManifoldMesh() %s", threw ? ("threw on an oriented manifold: " + msg).c_str() : "accepted a surface that is not an oriented manifold");
    if (threw) break;
    Snap M = snapshotChecked(*m, "manifold.");
    CHECK(M.nV == S.nV && M.nE == S.nE && M.nF == S.nF && M.nInt == S.nInt, "to-manifold", "element counts V%zu E%zu F%zu, expected V%zu E%zu F%zu", M.nV, M.nE, M.nF, S.nV, S.nE, S.nF);
    std::map<size_t, size_t> vi;
    size_t k = 0;
    for (size_t v : S.vs) vi[v] = k++;
    // faces in order with matching vertices, and glued alike
    std::map<size_t, size_t> hm; // general halfedge -> manifold halfedge
    for (size_t i = 0; i < S.fs.size(); i++) {
      auto a = S.faceLoop(S.fHe[S.fs[i]]), b = M.faceLoop(M.fHe[M.fs[i]]);
      CHECK(a.size() == b.size(), "to-manifold", "degree of face %zu", i);
      size_t off = 0;
      for (; off < b.size(); off++) {
        bool ok = true;
        for (size_t j = 0; j < a.size() && ok; j++) ok = vi[S.vert[a[j]]] == M.vert[b[(j + off) % b.size()]];
        if (ok) break;
      }
      CHECK(off < b.size(), "to-manifold", "vertices of face %zu", i);
      for (size_t j = 0; j < a.size(); j++) hm[a[j]] = b[(j + off) % b.size()];
    }
    bool simple = true; // repeated vertices in one face make the correspondence ambiguous
    for (size_t f : S.fs) {
      std::set<size_t> s;
      for (size_t h : S.faceLoop(S.fHe[f])) simple = s.insert(S.vert[h]).second && simple;
    }
    if (simple)
      for (size_t h : S.hes) {
        if (S.sib[h] == h) CHECK(!M.interior[M.sib[hm[h]]], "to-manifold", "boundary edge became interior");
        else CHECK(M.sib[hm[h]] == hm[S.sib[h]], "to-manifold", "faces are glued differently");
      }
    ctx.count("ok.toManifoldMesh");
    break;
  }
  case G_copy: {
    auto c = arg(op, 0) % 2 ? mesh.copy() : mesh.copyToSurfaceMesh();
    Snap C = snapshotChecked(*c, "copy.");
    std::string d = S.diff(C);
    CHECK(d.empty(), "copy", "the copy differs: %s", d.c_str());
    CHECK(c->isCompressed() == mesh.isCompressed(), "copy", "isCompressed() differs");
    // mutate the copy, the original must not notice, and the copy must stay valid
    Rng r(arg(op, 1));
    for (int i = 0; i < 3; i++) {
      Snap X = snapshotChecked(*c, "copy.");
      if (r.chance(.5)) c->duplicateFace(Face(c.get(), r.pick(X.fs)));
      else c->invertOrientation(Face(c.get(), r.pick(X.fs)));
    }
    snapshotChecked(*c, "copy.");
    T = snapshotChecked(mesh);
    unchanged("mutating a copy", true);
    break;
  }
  }
  if (applied) {
    ctx.nontrivial = true;
    ctx.count("ok." + gNames[(size_t)op.kind]);
  }
  S = T;
  R.absorb(mesh, S);
}

Register reg([] {
  Scenario s;
  s.name = "general-mesh";
  s.property = "C03";
  s.opNames = gNames;
  s.realComponents = "SurfaceMesh (general halfedge structure): construction, mutation, compression, iteration, conversion; containers (real code)";
  s.stubComponents = "";
  s.rule = "a run builds one of 10 families of nonmanifold / unoriented meshes and applies 6-50 operations; after each the mesh is re-derived through "
           "the public API, compared with the operation's documented effect, and five containers are compared with element identities";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["kind"] = (i64)r.below((u64)nGeneralKinds);
    h.cfg["size"] = r.range(1, tier ? 5 : 3);
    std::vector<double> w = {3, 2, 5, 4, 1, 1.5, 1, 1.5, 1, .7};
    if (r.chance(.6)) for (auto& x : w) x *= .1 + 2 * r.unit() * r.unit();
    size_t n = (size_t)r.range(6, tier ? 80 : 45);
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = (int)r.weighted(w);
      for (int k = 0; k < 4; k++) o.a.push_back(r.next() >> 8);
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Soup soup = makeGeneralSoup((int)h.get("kind"), (int)h.get("size"), h.seed);
    SurfaceMesh mesh(soup.polys);
    Snap S = snapshotChecked(mesh);
    CHECK(S.nF == soup.polys.size() && S.nV == soup.pos.size(), "construct", "counts after construction");
    std::map<std::pair<size_t, size_t>, size_t> und;
    for (size_t f = 0; f < soup.polys.size(); f++) {
      std::vector<size_t> got;
      for (Vertex v : mesh.face(f).adjacentVertices()) got.push_back(v.getIndex());
      CHECK(got == soup.polys[f], "construct", "face %zu does not have its input vertices in order", f);
      for (size_t i = 0; i < got.size(); i++) und[std::minmax({got[i], got[(i + 1) % got.size()]})]++;
    }
    CHECK(S.nE == und.size(), "construct", "%zu edges for %zu distinct vertex pairs", S.nE, und.size());
    for (size_t e : S.es) CHECK(Edge(&mesh, e).degree() == und[std::minmax({S.vert[S.eHe[e]], S.tip(S.eHe[e])})], "construct", "edge %zu degree", e);
    Riders R(mesh);
    R.absorb(mesh, S);
    size_t nth = 0;
    for (auto& op : h.ops) {
      if (S.nF > 250) break;
      ctx.steps++;
      ctx.ev((u64)op.kind);
      step(mesh, op, ctx, S, R);
      if (nth++ % 3 == 0) checkDerived(mesh, S, arg(op, 0));
      ctx.state(S.hash());
      ctx.ev(S.hash());
    }
  };
  return s;
}());
} // namespace
