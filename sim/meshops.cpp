#include "meshops.h"

#include <algorithm>

namespace sim {

const std::vector<std::string>& meshOpNames() {
  static const std::vector<std::string> n = {"insertVertexAlongEdge", "splitEdgeTriangular", "insertVertex", "connectVertices", "flip",
                                             "collapseEdgeTriangular", "removeEdge", "removeVertex", "removeFaceAlongBoundary",
                                             "separateEdge", "switchHalfedgeSides", "triangulate", "compress"};
  return n;
}

Op randomMeshOp(Rng& r, const std::vector<double>& w) {
  Op o;
  o.kind = (int)r.weighted(w);
  for (int i = 0; i < 3; i++) o.a.push_back(r.next() >> (r.below(4) * 12));
  return o;
}

bool hasTinyFace(const Snap& S) {
  for (size_t f : S.fs)
    if (S.degree(S.fHe[f]) < 3) return true;
  return false;
}

typedef std::vector<std::pair<size_t, size_t>> Cyc; // (vertex, edge) around a face

static bool cycEqual(const Cyc& a, const Cyc& b, bool edges) {
  if (a.size() != b.size()) return false;
  size_t n = a.size();
  for (size_t s = 0; s < n; s++) {
    bool ok = true;
    for (size_t i = 0; i < n && ok; i++) {
      auto& x = a[i];
      auto& y = b[(i + s) % n];
      ok = x.first == y.first && (!edges || x.second == y.second);
    }
    if (ok) return true;
  }
  return n == 0;
}
static std::string cycStr(const Cyc& c) {
  std::string r = "(";
  for (auto& p : c) r += " v" + std::to_string(p.first) + "/e" + std::to_string(p.second);
  return r + " )";
}
static Cyc cycleFrom(const Snap& s, size_t he) {
  Cyc c;
  for (size_t h : s.faceLoop(he)) c.push_back({s.vert[h], s.edge[h]});
  return c;
}
static Cyc cycleOf(const Snap& s, size_t key) { return cycleFrom(s, key < Snap::FB ? s.fHe[key] : s.bHe[key - Snap::FB]); }

static std::vector<size_t> minus(const std::vector<size_t>& a, const std::vector<size_t>& b) {
  std::vector<size_t> r;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  return r;
}

struct Judge {
  const Snap &S, &T;
  const char* op;
  std::vector<size_t> nV, nE, nF, nH, nB, dV, dE, dF, dH, dB;
  Judge(const Snap& s, const Snap& t, const char* o) : S(s), T(t), op(o) {
    nV = minus(T.vs, S.vs); nE = minus(T.es, S.es); nF = minus(T.fs, S.fs); nH = minus(T.hes, S.hes); nB = minus(T.bls, S.bls);
    dV = minus(S.vs, T.vs); dE = minus(S.es, T.es); dF = minus(S.fs, T.fs); dH = minus(S.hes, T.hes); dB = minus(S.bls, T.bls);
  }
  void counts(int v, int e, int f, int b, const char* clause) {
    i64 gv = (i64)T.nV - (i64)S.nV, ge = (i64)T.nE - (i64)S.nE, gf = (i64)T.nF - (i64)S.nF, gb = (i64)T.nBL - (i64)S.nBL;
    CHECK(gv == v && ge == e && gf == f && gb == b, clause, "%s: element counts changed by V%+lld E%+lld F%+lld BL%+lld, expected V%+d E%+d F%+d BL%+d",
          op, (long long)gv, (long long)ge, (long long)gf, (long long)gb, v, e, f, b);
    // creations and deletions are disjoint: an operation that adds does not delete and the other way round
    CHECK((v < 0 ? nV.empty() : dV.empty()) && (e < 0 ? nE.empty() : dE.empty()) && (f < 0 ? nF.empty() : dF.empty()), clause,
          "%s: creates and deletes elements of the same kind", op);
  }
  // all halfedges outside the touched faces keep everything
  void frame(const std::set<size_t>& touched, const char* clause) {
    for (size_t h : S.hes) {
      if (touched.count(S.face[h])) continue;
      CHECK(std::binary_search(T.hes.begin(), T.hes.end(), h), clause, "%s: halfedge %zu outside the affected faces disappeared", op, h);
      CHECK(T.next[h] == S.next[h] && T.vert[h] == S.vert[h] && T.edge[h] == S.edge[h] && T.face[h] == S.face[h] && T.sib[h] == S.sib[h],
            clause, "%s: halfedge %zu outside the affected faces changed", op, h);
    }
  }
  void cycle(size_t key, const Cyc& want, bool edges, const char* clause) {
    Cyc got = cycleOf(T, key);
    CHECK(cycEqual(got, want, edges), clause, "%s: face %zu is %s, expected %s", op, key < Snap::FB ? key : key - Snap::FB, cycStr(got).c_str(), cycStr(want).c_str());
  }
};

// all faces around a and b are triangles, and the closed star of {a,b} is a simplicial complex
bool simplicialStar(const Snap& S, size_t a, size_t b) {
  std::set<size_t> verts;
  std::set<std::vector<size_t>> faces;
  std::set<size_t> fset;
  for (size_t h : S.hes) {
    if (!S.interior[h]) continue;
    if (S.vert[h] != a && S.vert[h] != b) continue;
    if (!fset.insert(S.face[h]).second) {
      // same face twice from a and b is fine, twice from the same vertex is not (caught below by distinctness)
    }
    auto L = S.faceLoop(h);
    if (L.size() != 3) return false;
    for (size_t x : L) verts.insert(S.vert[x]);
  }
  for (size_t f : S.fs) {
    auto L = S.faceLoop(S.fHe[f]);
    std::vector<size_t> vv;
    bool all = true;
    for (size_t x : L) {
      vv.push_back(S.vert[x]);
      all = all && verts.count(S.vert[x]);
    }
    if (!all) continue;
    std::sort(vv.begin(), vv.end());
    if (std::unique(vv.begin(), vv.end()) != vv.end()) return false;
    if (!faces.insert(vv).second) return false;
  }
  std::set<std::pair<size_t, size_t>> pairs;
  for (size_t e : S.es) {
    size_t u = S.vert[S.eHe[e]], v = S.tip(S.eHe[e]);
    if (!verts.count(u) || !verts.count(v)) continue;
    if (u == v) return false;
    if (!pairs.insert(std::minmax(u, v)).second) return false;
  }
  return true;
}
static std::set<size_t> neighbours(const Snap& S, size_t v) {
  std::set<size_t> r;
  for (size_t h : S.hes) {
    if (S.vert[h] == v) r.insert(S.tip(h));
    if (S.tip(h) == v) r.insert(S.vert[h]);
  }
  return r;
}
static bool vBoundary(const Snap& S, size_t v) {
  for (size_t h : S.hes)
    if (S.vert[h] == v && !S.interior[h]) return true;
  return false;
}
static size_t vDegree(const Snap& S, size_t v) {
  size_t n = 0;
  for (size_t h : S.hes) n += S.vert[h] == v;
  return n;
}

static void doCompress(ManifoldSurfaceMesh& mesh, Ctx& ctx, Snap& S, MeshOpOutcome& out) {
  std::vector<size_t> pv, pe, pf, ph, pb;
  int order = 0, ov = 0, oe = 0, of = 0, oh = 0, ob = 0, oc = 0;
  auto iv = mesh.vertexPermuteCallbackList.insert(mesh.vertexPermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pv = p; ov = ++order; });
  auto ie = mesh.edgePermuteCallbackList.insert(mesh.edgePermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pe = p; oe = ++order; });
  auto jf = mesh.facePermuteCallbackList.insert(mesh.facePermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pf = p; of = ++order; });
  auto ih = mesh.halfedgePermuteCallbackList.insert(mesh.halfedgePermuteCallbackList.end(), [&](const std::vector<size_t>& p) { ph = p; oh = ++order; });
  auto ib = mesh.boundaryLoopPermuteCallbackList.insert(mesh.boundaryLoopPermuteCallbackList.end(), [&](const std::vector<size_t>& p) { pb = p; ob = ++order; });
  auto ic = mesh.compressCallbackList.insert(mesh.compressCallbackList.end(), [&]() { oc = ++order; });
  bool was = mesh.isCompressed();
  mesh.compress();
  mesh.vertexPermuteCallbackList.erase(iv);
  mesh.edgePermuteCallbackList.erase(ie);
  mesh.facePermuteCallbackList.erase(jf);
  mesh.halfedgePermuteCallbackList.erase(ih);
  mesh.boundaryLoopPermuteCallbackList.erase(ib);
  mesh.compressCallbackList.erase(ic);
  Snap T = snapshotChecked(mesh);
  CHECK(mesh.isCompressed(), "compress", "mesh is not compressed after compress()");
  if (was) {
    std::string d = S.diff(T);
    CHECK(d.empty(), "compress", "compress() on a compressed mesh changed it: %s", d.c_str());
    out.refused = true;
    return;
  }
  auto inv = [&](const std::vector<size_t>& p, size_t n, size_t oldCap, int fired) {
    std::vector<size_t> m(oldCap, NONE);
    if (!fired) { // nothing reported: identity on the live prefix
      for (size_t i = 0; i < n; i++) m[i] = i;
      return m;
    }
    for (size_t i = 0; i < n && i < p.size(); i++)
      if (p[i] < oldCap) m[p[i]] = i;
    return m;
  };
  checkIsomorphic(S, T, inv(ph, T.nHe, S.next.size(), oh), inv(pv, T.nV, S.vHe.size(), ov), inv(pe, T.nE, S.eHe.size(), oe),
                  inv(pf, T.nF, S.fHe.size(), of), inv(pb, T.nBL, S.bHe.size(), ob), "compress");
  S = T;
  out.applied = true;
}

MeshOpOutcome applyMeshOp(ManifoldSurfaceMesh& mesh, const Op& op, Ctx& ctx, bool check, Snap* Sp) {
  MeshOpOutcome out;
  int kind = op.kind % MO_COUNT;
  Snap local;
  if (!Sp) {
    local = snapshotChecked(mesh);
    Sp = &local;
  }
  Snap S = *Sp;
  const char* nm = meshOpNames()[(size_t)kind].c_str();
  out.what = nm;
  ctx.steps++;
  ctx.ev((u64)kind);
  auto pickOf = [](const std::vector<size_t>& v, u64 a) { return v[a % v.size()]; };
  auto skip = [&]() {
    out.skipped = true;
    ctx.count(std::string("skip.") + nm);
    return out;
  };
  if (S.nF == 0) return skip();
  bool threw = false;
  std::string what;
  Snap T;
  auto after = [&]() { T = snapshotChecked(mesh); };
  auto unchanged = [&](const char* how) {
    after();
    std::string d = S.diff(T);
    CHECK(d.empty(), "refused-changed", "%s %s but changed the mesh: %s", nm, how, d.c_str());
    out.refused = true;
    ctx.count(std::string("refused.") + nm);
    ctx.fault("refused-call");
  };
  ctx.note("%s a=%llu,%llu,%llu", nm, (unsigned long long)arg(op, 0), (unsigned long long)arg(op, 1), (unsigned long long)arg(op, 2));

  switch (kind) {
  case MO_compress:
    if (!check) {
      mesh.compress();
      out.applied = true;
      after();
    } else {
      doCompress(mesh, ctx, S, out);
      *Sp = S;
      ctx.state(S.hash());
      ctx.ev(S.hash());
      if (out.applied) { ctx.nontrivial = true; ctx.count("ok.compress"); }
      return out;
    }
    break;

  case MO_insertVertexAlongEdge: {
    size_t e = pickOf(S.es, arg(op, 0));
    size_t h = S.eHe[e], t = S.sib[h], a = S.vert[h], b = S.vert[t];
    Halfedge r = mesh.insertVertexAlongEdge(mesh.edge(e) == Edge(&mesh, e) ? Edge(&mesh, e) : Edge(&mesh, e));
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    J.counts(1, 1, 0, 0, "insertVertexAlongEdge");
    size_t n = J.nV[0], e2 = J.nE[0], rh = r.getIndex();
    CHECK(T.vert[rh] == n, "insertVertexAlongEdge", "returned halfedge does not start at the new vertex");
    CHECK(T.eHe[T.edge[rh]] == rh, "insertVertexAlongEdge", "returned halfedge is not the canonical halfedge of its edge");
    CHECK((T.edge[rh] == e || T.edge[rh] == e2) && T.tip(rh) == b, "insertVertexAlongEdge", "returned halfedge does not point along the split edge");
    CHECK(T.face[rh] == S.face[h], "insertVertexAlongEdge", "returned halfedge is on the wrong side");
    size_t eb = T.edge[rh], ea = eb == e ? e2 : e; // eb: n-b, ea: a-n
    CHECK(T.vert[T.eHe[ea]] == a && T.tip(T.eHe[ea]) == n, "insertVertexAlongEdge", "direction of the other half edge not preserved");
    std::set<size_t> touched{S.face[h], S.face[t]};
    for (size_t k : touched) {
      Cyc w;
      for (size_t x : S.faceLoop(k < Snap::FB ? S.fHe[k] : S.bHe[k - Snap::FB])) {
        if (x == h) { w.push_back({a, ea}); w.push_back({n, eb}); }
        else if (x == t) { w.push_back({b, eb}); w.push_back({n, ea}); }
        else w.push_back({S.vert[x], S.edge[x]});
      }
      J.cycle(k, w, true, "insertVertexAlongEdge");
    }
    J.frame(touched, "insertVertexAlongEdge");
    CHECK(vDegree(T, n) == 2, "insertVertexAlongEdge", "new vertex has degree %zu", vDegree(T, n));
    break;
  }

  case MO_splitEdge: {
    size_t e = pickOf(S.es, arg(op, 0));
    size_t h = S.eHe[e], t = S.sib[h], a = S.vert[h], b = S.vert[t];
    bool bd = !S.interior[t];
    bool tri = S.degree(h) == 3 && (bd || S.degree(t) == 3);
    if (tri && S.face[h] == S.face[t]) return skip();
    Halfedge r;
    try {
      r = mesh.splitEdgeTriangular(Edge(&mesh, e));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    if (!tri) {
      CHECK(threw, "split-edge", "splitEdgeTriangular accepted a non-triangular face");
      unchanged("threw");
      break;
    }
    CHECK(!threw, "split-edge", "splitEdgeTriangular threw: %s", what.c_str());
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    J.counts(1, bd ? 2 : 3, bd ? 1 : 2, 0, "split-edge");
    size_t n = J.nV[0], rh = r.getIndex();
    CHECK(T.vert[rh] == n && T.tip(rh) == b && T.interior[rh] && T.eHe[T.edge[rh]] == rh, "split-edge", "returned halfedge is wrong");
    CHECK(S.es == minus(T.es, J.nE), "split-edge", "existing edge deleted");
    std::set<size_t> touched{S.face[h], S.face[t]};
    J.frame(touched, "split-edge");
    // the two halves of the original edge: e and one new edge
    std::vector<size_t> ne = J.nE;
    ne.push_back(e);
    size_t ea = NONE, eb = T.edge[rh];
    for (size_t x : ne)
      if (x != eb && ((T.vert[T.eHe[x]] == a && T.tip(T.eHe[x]) == n)) && (eb == e ? true : x == e)) {
        // direction preserved a->n; must continue the boundary/straight line: across n from rh
        if (T.face[T.eHe[x]] < Snap::FB) ea = ea == NONE || x == e ? x : ea;
      }
    CHECK(ea != NONE && (ea == e || eb == e), "split-edge", "original edge not repurposed as one of the halves with its direction preserved");
    auto sideFaces = [&](size_t hh, size_t p, size_t q, size_t key) { // original face (p,q,o), hh: p->q
      size_t h1 = S.next[hh], h2 = S.next[h1], o = S.vert[h2];
      std::vector<size_t> cand{key};
      for (size_t f : J.nF) cand.push_back(f);
      int got1 = 0, got2 = 0;
      for (size_t f : cand) {
        Cyc c = cycleOf(T, f);
        if (c.size() != 3) continue;
        bool has1 = false, has2 = false;
        for (auto& x : c) {
          has1 = has1 || x.second == S.edge[h1];
          has2 = has2 || x.second == S.edge[h2];
        }
        auto vs = Cyc{{n, 0}, {q, 0}, {o, 0}};
        auto vs2 = Cyc{{p, 0}, {n, 0}, {o, 0}};
        if (has1 && cycEqual(c, vs, false)) got1++;
        if (has2 && cycEqual(c, vs2, false)) got2++;
      }
      CHECK(got1 >= 1 && got2 >= 1, "split-edge", "triangle (%zu %zu %zu) was not split into two triangles at the new vertex %zu", p, q, o, n);
    };
    sideFaces(h, a, b, S.face[h]);
    if (!bd) sideFaces(t, b, a, S.face[t]);
    else {
      Cyc w;
      for (size_t x : S.faceLoop(t)) {
        if (x == t) { w.push_back({b, eb}); w.push_back({n, T.edge[T.sib[T.next[T.sib[rh]]]]}); }
        else w.push_back({S.vert[x], S.edge[x]});
      }
      J.cycle(S.face[t], w, false, "split-edge");
    }
    CHECK(vDegree(T, n) == (bd ? 3u : 4u), "split-edge", "new vertex has degree %zu", vDegree(T, n));
    break;
  }

  case MO_insertVertex: {
    size_t f = pickOf(S.fs, arg(op, 0));
    auto L = S.faceLoop(S.fHe[f]);
    Vertex v = mesh.insertVertex(Face(&mesh, f));
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    int d = (int)L.size();
    J.counts(1, d, d - 1, 0, "insert-vertex");
    size_t n = v.getIndex();
    CHECK(n == J.nV[0], "insert-vertex", "returned vertex %zu is not the new vertex %zu", n, J.nV[0]);
    CHECK(vDegree(T, n) == (size_t)d, "insert-vertex", "new vertex has degree %zu in a face of degree %d", vDegree(T, n), d);
    J.frame({f}, "insert-vertex");
    std::set<size_t> used;
    for (size_t h : L) {
      size_t nf = T.face[h];
      CHECK(nf == f || std::count(J.nF.begin(), J.nF.end(), nf), "insert-vertex", "ring halfedge %zu in unexpected face", h);
      CHECK(used.insert(nf).second, "insert-vertex", "two ring edges share a triangle");
      CHECK(T.vert[h] == S.vert[h] && T.edge[h] == S.edge[h] && T.sib[h] == S.sib[h], "insert-vertex", "ring halfedge %zu changed", h);
      J.cycle(nf, Cyc{{S.vert[h], 0}, {S.tip(h), 0}, {n, 0}}, false, "insert-vertex");
    }
    break;
  }

  case MO_connectVertices: {
    size_t f = pickOf(S.fs, arg(op, 0));
    // prefer a face that can be cut
    std::vector<size_t> big;
    for (size_t x : S.fs)
      if (S.degree(S.fHe[x]) > 3) big.push_back(x);
    if (!big.empty() && (arg(op, 2) & 3)) f = pickOf(big, arg(op, 0));
    auto L = S.faceLoop(S.fHe[f]);
    size_t hA = pickOf(L, arg(op, 1)), hB = pickOf(L, arg(op, 2) >> 2);
    if ((arg(op, 2) & 31) == 7) { // a halfedge of another face
      size_t g = pickOf(S.fs, arg(op, 2));
      hB = S.fHe[g];
    }
    bool legal = S.face[hA] == S.face[hB] && hA != hB && S.next[hA] != hB && S.next[hB] != hA;
    f = S.face[hA];
    L = S.faceLoop(hA);
    Halfedge r;
    try {
      r = mesh.connectVertices(Halfedge(&mesh, hA), Halfedge(&mesh, hB));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    CHECK(threw != legal, "connect-vertices", "connectVertices %s (%s)", legal ? "rejected a legal pair" : "accepted an illegal pair", what.c_str());
    if (!legal) {
      unchanged("threw");
      break;
    }
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    J.counts(0, 1, 1, 0, "connect-vertices");
    size_t rh = r.getIndex(), ne = J.nE[0], nf = J.nF[0];
    CHECK(T.edge[rh] == ne && T.vert[rh] == S.vert[hA] && T.tip(rh) == S.vert[hB], "connect-vertices", "returned halfedge does not run from heA.vertex() to heB.vertex()");
    CHECK(T.face[T.sib[rh]] == nf && T.face[rh] == f, "connect-vertices", "new face is not he.twin().face()");
    J.frame({f}, "connect-vertices");
    Cyc w1, w2;
    size_t x = hA;
    for (; x != hB; x = S.next[x]) w1.push_back({S.vert[x], S.edge[x]});
    w1.push_back({S.vert[hB], ne});
    for (; x != hA; x = S.next[x]) w2.push_back({S.vert[x], S.edge[x]});
    w2.push_back({S.vert[hA], ne});
    J.cycle(nf, w1, true, "connect-vertices");
    J.cycle(f, w2, true, "connect-vertices");
    for (size_t y : L) CHECK(T.vert[y] == S.vert[y] && T.edge[y] == S.edge[y] && T.sib[y] == S.sib[y], "connect-vertices", "halfedge %zu of the face changed", y);
    break;
  }

  case MO_flip: {
    size_t e = pickOf(S.es, arg(op, 0));
    bool prevent = arg(op, 1) & 1;
    size_t h = S.eHe[e], t = S.sib[h];
    size_t h1 = S.next[h], h2 = S.next[h1], t1 = S.next[t], t2 = S.next[t1];
    bool tri = S.interior[h] && S.interior[t] && S.next[h2] == h && S.next[t2] == t;
    bool can = tri && h1 != t && t1 != h && h2 != t && t2 != h;
    bool ok = mesh.flip(Edge(&mesh, e), prevent);
    if (!ok) {
      if (can) {
        size_t c = S.vert[h2], d = S.vert[t2];
        bool excuse = prevent && (c == d || neighbours(S, c).count(d));
        CHECK(excuse, "flip", "flip refused a flippable edge (vertices %zu %zu | %zu %zu, preventSelfEdges=%d)", S.vert[h], S.vert[t], c, d, (int)prevent);
      }
      unchanged("returned false");
      break;
    }
    after();
    out.applied = true;
    if (!check) break;
    CHECK(can, "flip", "flip reported success on an edge that cannot be flipped");
    Judge J(S, T, nm);
    J.counts(0, 0, 0, 0, "flip");
    CHECK(J.nV.empty() && J.nE.empty() && J.nF.empty() && J.nH.empty(), "flip", "flip created elements");
    size_t a = S.vert[h], b = S.vert[t], c = S.vert[h2], d = S.vert[t2];
    if (prevent) CHECK(c != d, "flip-self-edge", "flip(preventSelfEdges=true) made edge %zu a self edge at vertex %zu", e, c);
    size_t fA = S.face[h], fB = S.face[t];
    J.frame({fA, fB}, "flip");
    Cyc x{{c, e}, {d, S.edge[t2]}, {b, S.edge[h1]}}; // c->d, d->b, b->c
    Cyc y{{d, e}, {c, S.edge[h2]}, {a, S.edge[t1]}}; // d->c, c->a, a->d
    Cyc gA = cycleOf(T, fA), gB = cycleOf(T, fB);
    CHECK((cycEqual(gA, x, true) && cycEqual(gB, y, true)) || (cycEqual(gA, y, true) && cycEqual(gB, x, true)), "flip",
          "faces after the flip are %s and %s, expected %s and %s", cycStr(gA).c_str(), cycStr(gB).c_str(), cycStr(x).c_str(), cycStr(y).c_str());
    CHECK(T.edge[h] == e && T.edge[t] == e, "flip", "halfedges left the flipped edge");
    break;
  }

  case MO_collapse: {
    size_t e = pickOf(S.es, arg(op, 0));
    size_t h = S.eHe[e], t = S.sib[h], a = S.vert[h], b = S.vert[t];
    bool bd = !S.interior[t];
    bool tri = S.degree(h) == 3 && (bd || S.degree(t) == 3);
    if (tri && !simplicialStar(S, a, b)) return skip();
    Vertex v;
    try {
      v = mesh.collapseEdgeTriangular(Edge(&mesh, e));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    if (!tri) {
      CHECK(threw, "collapse", "collapseEdgeTriangular accepted a non-triangular face");
      unchanged("threw");
      break;
    }
    CHECK(!threw, "collapse", "collapseEdgeTriangular threw: %s", what.c_str());
    size_t c = S.vert[S.next[S.next[h]]], d = bd ? NONE : S.vert[S.next[S.next[t]]];
    if (v == Vertex()) {
      auto na = neighbours(S, a), nb = neighbours(S, b);
      std::set<size_t> common;
      for (size_t x : na)
        if (nb.count(x)) common.insert(x);
      common.erase(c);
      if (!bd) common.erase(d);
      bool both = !bd && vBoundary(S, a) && vBoundary(S, b);
      bool tiny = bd && S.degree(t) <= 3;
      bool excuse = !common.empty() || both || tiny;
      CHECK(excuse, "collapse", "collapse of edge %zu (%zu-%zu) refused although the link condition holds", e, a, b);
      unchanged("returned Vertex()");
      break;
    }
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    size_t keep = v.getIndex();
    CHECK(keep == a || keep == b, "collapse", "collapse of edge %zu-%zu returned vertex %zu", a, b, keep);
    J.counts(-1, bd ? -2 : -3, bd ? -1 : -2, 0, "collapse");
    size_t gone = keep == a ? b : a;
    CHECK(J.dV.size() == 1 && J.dV[0] == gone, "collapse", "collapse of edge %zu-%zu returned %zu but deleted vertex %zu", a, b, keep, J.dV[0]);
    std::set<size_t> gf{S.face[h]};
    if (!bd) gf.insert(S.face[t]);
    CHECK(std::set<size_t>(J.dF.begin(), J.dF.end()) == gf, "collapse", "the faces next to the collapsed edge are not the ones deleted");
    std::vector<size_t> keys = T.fs;
    for (size_t l : T.bls) keys.push_back(Snap::FB + l);
    for (size_t k : keys) {
      Cyc w;
      for (size_t x : S.faceLoop(k < Snap::FB ? S.fHe[k] : S.bHe[k - Snap::FB])) {
        if (S.edge[x] == e) continue;
        w.push_back({S.vert[x] == gone ? keep : S.vert[x], S.edge[x]});
      }
      J.cycle(k, w, false, "collapse");
    }
    break;
  }

  case MO_removeEdge: {
    size_t e = pickOf(S.es, arg(op, 0));
    size_t h = S.eHe[e], t = S.sib[h];
    bool bd = !S.interior[t];
    Face f;
    try {
      f = mesh.removeEdge(Edge(&mesh, e));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    if (bd) {
      CHECK(threw, "remove-edge", "removeEdge accepted a boundary edge");
      unchanged("threw");
      break;
    }
    CHECK(!threw, "remove-edge", "removeEdge threw: %s", what.c_str());
    if (f == Face()) {
      CHECK(S.face[h] == S.face[t], "remove-edge", "removeEdge refused an edge between two distinct faces");
      unchanged("returned Face()");
      break;
    }
    after();
    out.applied = true;
    if (!check) break;
    CHECK(S.face[h] != S.face[t], "remove-edge", "removeEdge accepted an edge with the same face on both sides");
    Judge J(S, T, nm);
    J.counts(0, -1, -1, 0, "remove-edge");
    size_t k = f.getIndex();
    CHECK((k == S.face[h] || k == S.face[t]) && J.dF.size() == 1 && J.dF[0] == (k == S.face[h] ? S.face[t] : S.face[h]) && J.dE[0] == e, "remove-edge",
          "removeEdge deleted the wrong elements");
    J.frame({S.face[h], S.face[t]}, "remove-edge");
    Cyc w;
    for (size_t x = S.next[h]; x != h; x = S.next[x]) w.push_back({S.vert[x], S.edge[x]});
    for (size_t x = S.next[t]; x != t; x = S.next[x]) w.push_back({S.vert[x], S.edge[x]});
    J.cycle(k, w, true, "remove-edge");
    break;
  }

  case MO_removeVertex: {
    size_t v = pickOf(S.vs, arg(op, 0));
    bool bd = vBoundary(S, v);
    Face f;
    try {
      f = mesh.removeVertex(Vertex(&mesh, v));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    // ring: walk the outgoing halfedges; faces around v in order
    std::vector<size_t> outs;
    {
      size_t h = S.vHe[v];
      do {
        outs.push_back(h);
        h = S.next[S.sib[h]];
      } while (h != S.vHe[v]);
    }
    if (threw) {
      CHECK(bd, "remove-vertex", "removeVertex threw on an interior vertex: %s", what.c_str());
      unchanged("threw");
      break;
    }
    // clean ring: all faces distinct, every other vertex and edge met once
    bool clean = !bd;
    std::set<size_t> fs, rv, re;
    for (size_t h : outs) {
      clean = clean && fs.insert(S.face[h]).second;
      for (size_t x = S.next[h]; S.next[x] != h && clean; x = S.next[x]) {
        clean = clean && rv.insert(S.vert[x]).second && re.insert(S.edge[x]).second && S.vert[x] != v;
      }
    }
    if (f == Face()) {
      CHECK(!clean || re.size() < 3, "remove-vertex", "removeVertex refused an interior vertex with a simple ring");
      unchanged("returned Face()");
      break;
    }
    after();
    out.applied = true;
    if (!check) break;
    if (bd) break; // validity only
    Judge J(S, T, nm);
    J.counts(-1, -(int)outs.size(), 1 - (int)fs.size(), 0, "remove-vertex");
    size_t k = f.getIndex();
    CHECK(fs.count(k), "remove-vertex", "returned face was not next to the vertex");
    CHECK(J.dV[0] == v, "remove-vertex", "deleted vertex %zu instead of %zu", J.dV[0], v);
    J.frame(fs, "remove-vertex");
    Cyc w;
    for (size_t i = 0; i < outs.size(); i++) {
      // outs is clockwise; the ring counter-clockwise goes through faces in reverse order
      size_t h = outs[outs.size() - 1 - i];
      for (size_t x = S.next[h]; S.next[x] != h; x = S.next[x]) w.push_back({S.vert[x], S.edge[x]});
    }
    J.cycle(k, w, true, "remove-vertex");
    break;
  }

  case MO_removeFaceAlongBoundary: {
    size_t f = pickOf(S.fs, arg(op, 0));
    std::vector<size_t> bf;
    for (size_t x : S.fs) {
      bool b = false;
      for (size_t h : S.faceLoop(S.fHe[x])) b = b || !S.interior[S.sib[h]];
      if (b) bf.push_back(x);
    }
    if (!bf.empty() && (arg(op, 1) & 7)) f = pickOf(bf, arg(op, 0));
    size_t hb = NONE;
    int bc = 0;
    auto L = S.faceLoop(S.fHe[f]);
    for (size_t h : L)
      if (!S.interior[S.sib[h]]) {
        hb = h;
        bc++;
      }
    bool ok = false;
    try {
      ok = mesh.removeFaceAlongBoundary(Face(&mesh, f));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    if (threw) {
      CHECK(bc == 0, "remove-face", "removeFaceAlongBoundary threw on a boundary face: %s", what.c_str());
      unchanged("threw");
      break;
    }
    CHECK(bc > 0, "remove-face", "removeFaceAlongBoundary accepted a face with no boundary edge");
    bool simple = bc == 1; // the other vertices are interior and distinct
    if (bc == 1) {
      std::set<size_t> vs;
      for (size_t x = S.next[hb]; x != hb; x = S.next[x]) {
        if (x != S.next[hb] && vBoundary(S, S.vert[x])) simple = false;
        if (!vs.insert(S.vert[x]).second) simple = false;
        if (S.face[S.sib[x]] == f) simple = false;
      }
    }
    if (!ok) {
      CHECK(!(simple), "remove-face", "removeFaceAlongBoundary refused a removable face");
      unchanged("returned false");
      break;
    }
    after();
    out.applied = true;
    if (!check) break;
    CHECK(simple, "remove-face", "removeFaceAlongBoundary removed a face (%d boundary edges) whose removal is not a manifold operation", bc);
    Judge J(S, T, nm);
    J.counts(0, -1, -1, 0, "remove-face");
    CHECK(J.dF[0] == f && J.dE[0] == S.edge[hb], "remove-face", "deleted face %zu edge %zu instead of face %zu edge %zu", J.dF[0], J.dE[0], f, S.edge[hb]);
    size_t l = S.face[S.sib[hb]];
    // loop: replace the boundary halfedge by the remaining halfedges of the face
    Cyc w;
    for (size_t x : S.faceLoop(S.sib[hb])) {
      if (x == S.sib[hb]) {
        for (size_t y = S.next[hb]; y != hb; y = S.next[y]) w.push_back({S.vert[y], S.edge[y]});
      } else w.push_back({S.vert[x], S.edge[x]});
    }
    J.cycle(l, w, true, "remove-face");
    for (size_t k : T.fs) J.cycle(k, cycleOf(S, k), true, "remove-face");
    for (size_t k : T.bls)
      if (Snap::FB + k != l) J.cycle(Snap::FB + k, cycleOf(S, Snap::FB + k), true, "remove-face");
    break;
  }

  case MO_separateEdge: {
    size_t e = pickOf(S.es, arg(op, 0));
    size_t h = S.eHe[e], t = S.sib[h], a = S.vert[h], b = S.vert[t];
    bool bd = !S.interior[t];
    if (!bd && a == b) return skip();
    bool ba = vBoundary(S, a), bb = vBoundary(S, b);
    std::tuple<Halfedge, Halfedge> r;
    try {
      r = mesh.separateEdge(Edge(&mesh, e));
    } catch (const std::exception& x) { threw = true; what = x.what(); }
    if (threw) {
      CHECK(bd || (ba && bb), "separate-edge", "separateEdge threw on a supported edge: %s", what.c_str());
      unchanged("threw");
      break;
    }
    CHECK(!bd, "separate-edge", "separateEdge accepted a boundary edge");
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    if (ba && bb) { // merging boundaries / splitting off: validity and the returned halfedges only
    } else if (!ba && !bb) J.counts(0, 1, 0, 1, "separate-edge");
    else J.counts(1, 1, 0, 0, "separate-edge");
    size_t r0 = std::get<0>(r).getIndex(), r1 = std::get<1>(r).getIndex();
    CHECK(T.interior[r0] && !T.interior[T.sib[r0]] && T.interior[r1] && !T.interior[T.sib[r1]], "separate-edge", "returned halfedges are not interior halfedges along the new boundary");
    CHECK(T.face[r0] == S.face[h] && T.face[r1] == S.face[t], "separate-edge", "returned halfedges are not where the two sides were (faces %zu,%zu expected %zu,%zu)",
          T.face[r0], T.face[r1], S.face[h], S.face[t]);
    CHECK(T.edge[r0] != T.edge[r1], "separate-edge", "both sides still share an edge");
    // faces keep their shape; a duplicated vertex stands for its original
    if (!(ba && bb)) {
      size_t bv = ba ? a : b;
      for (size_t k : T.fs) {
        Cyc w = cycleOf(S, k), g = cycleOf(T, k);
        for (auto& x : g)
          if (!J.nV.empty() && x.first == J.nV[0]) x.first = bv;
        CHECK(cycEqual(g, w, false), "separate-edge", "face %zu changed from %s to %s", k, cycStr(w).c_str(), cycStr(g).c_str());
      }
      if (J.nB.size() == 1) CHECK(T.degree(T.bHe[J.nB[0]]) == 2, "separate-edge", "new boundary loop does not have two sides");
    }
    break;
  }

  case MO_switchSides: {
    size_t e = pickOf(S.es, arg(op, 0));
    size_t h = S.eHe[e], t = S.sib[h];
    if (!S.interior[t]) return skip(); // would leave e.halfedge() exterior, by its documented role
    if (S.next[h] == t || S.next[t] == h) return skip();
    Halfedge r = mesh.switchHalfedgeSides(Edge(&mesh, e));
    after();
    out.applied = true;
    if (!check) break;
    Judge J(S, T, nm);
    J.counts(0, 0, 0, 0, "switch-sides");
    CHECK(T.eHe[e] == h && r.getIndex() == h && T.sib[h] == t, "switch-sides", "edge's halfedges changed");
    CHECK(T.face[h] == S.face[t] && T.face[t] == S.face[h] && T.vert[h] == S.vert[t] && T.vert[t] == S.vert[h], "switch-sides", "halfedges not mirrored");
    for (size_t k : T.fs) J.cycle(k, cycleOf(S, k), true, "switch-sides");
    for (size_t k : T.bls) J.cycle(Snap::FB + k, cycleOf(S, Snap::FB + k), true, "switch-sides");
    J.frame({S.face[h], S.face[t]}, "switch-sides");
    break;
  }

  case MO_triangulate: {
    size_t f = pickOf(S.fs, arg(op, 0));
    std::vector<size_t> big;
    for (size_t x : S.fs)
      if (S.degree(S.fHe[x]) > 3) big.push_back(x);
    if (!big.empty() && (arg(op, 1) & 7)) f = pickOf(big, arg(op, 0));
    auto L = S.faceLoop(S.fHe[f]);
    if (L.size() < 3) return skip();
    std::vector<Face> r = mesh.triangulate(Face(&mesh, f));
    after();
    out.applied = L.size() > 3;
    if (!check) break;
    Judge J(S, T, nm);
    int d = (int)L.size();
    J.counts(0, d - 3, d - 3, 0, "triangulate");
    std::set<size_t> got, want(J.nF.begin(), J.nF.end());
    want.insert(f);
    for (Face x : r) got.insert(x.getIndex());
    CHECK(got == want && r.size() == want.size(), "triangulate", "returned faces are not exactly the faces of the triangulation");
    for (size_t x : got) CHECK(T.degree(T.fHe[x]) == 3, "triangulate", "returned face %zu has degree %zu", x, T.degree(T.fHe[x]));
    for (size_t h : L)
      CHECK(got.count(T.face[h]) && T.vert[h] == S.vert[h] && T.edge[h] == S.edge[h] && T.sib[h] == S.sib[h], "triangulate", "side %zu of the face changed", h);
    J.frame({f}, "triangulate");
    break;
  }
  }
  if (out.applied) {
    ctx.nontrivial = true;
    ctx.count(std::string("ok.") + nm);
  }
  *Sp = T;
  ctx.state(T.hash());
  ctx.ev(T.hash());
  return out;
}

} // namespace sim
