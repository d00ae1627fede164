// C04: copies of meshes, geometries and containers are exact and fully independent, in every interleaving of copying,
// editing and destroying them. Several meshes live in one world; each operation acts on one of them, and all others must
// not notice.
#include "meshops.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include <algorithm>
using namespace sim;

namespace {
enum Op4 { Q_create, Q_rebuild, Q_copy, Q_toSurface, Q_toManifold, Q_edit, Q_compress, Q_lockstep, Q_write, Q_move, Q_reinterpret, Q_geomCopy, Q_geomTo, Q_require,
           Q_float, Q_floatAssign, Q_floatMove, Q_floatSwap, Q_killMesh, Q_killGeom, Q_killActor, Q_COUNT };
const std::vector<std::string> qNames = {"createMesh", "rebuildFromFaces", "copy", "copyToSurfaceMesh", "toManifoldMesh", "edit", "compress", "lockstepEdit", "writeData", "moveVertices",
                                         "reinterpretData", "copyGeometry", "reinterpretGeometry", "require", "newContainer", "copyAssignContainer",
                                         "moveAssignContainer", "swapContainers", "destroyMesh", "destroyGeometry", "destroyAll"};

template <class T> T val(u64 x);
template <> double val<double>(u64 x) { return (double)(x % 100003) / 7; }
template <> int val<int>(u64 x) { return (int)(x % 100003) + 1; }
template <> size_t val<size_t>(u64 x) { return (size_t)(x % 1000003); }
template <> std::string val<std::string>(u64 x) { return std::string(x % 37, 'a') + std::to_string(x % 9973); }
template <> Vector2 val<Vector2>(u64 x) { return {(double)(x % 977), (double)(x % 53)}; }

template <class E> const std::vector<size_t>& liveOf(const Snap& S);
template <> const std::vector<size_t>& liveOf<Vertex>(const Snap& S) { return S.vs; }
template <> const std::vector<size_t>& liveOf<Edge>(const Snap& S) { return S.es; }
template <> const std::vector<size_t>& liveOf<Face>(const Snap& S) { return S.fs; }
template <> const std::vector<size_t>& liveOf<Halfedge>(const Snap& S) { return S.hes; }
template <> const std::vector<size_t>& liveOf<BoundaryLoop>(const Snap& S) { return S.bls; }

// a container with its reference contents by element index
struct BoxBase {
  virtual ~BoxBase() {}
  virtual void check(SurfaceMesh* m, const Snap& S, const char* clause) = 0;
  virtual void follow(const Snap& before, const Snap& after, bool compressed) = 0;
  virtual void write(const Snap& S, u64 salt) = 0;
  virtual std::unique_ptr<BoxBase> to(SurfaceMesh& m, const Snap& S) const = 0;
  virtual void onMeshGone() = 0;
};
template <class E, class T> struct Box : BoxBase {
  MeshData<E, T> d;
  std::map<size_t, T> ref;
  T def = T();
  bool attached = true;
  Box() : attached(false) {}
  Box(SurfaceMesh& m, const Snap& S, T def_, u64 salt) : d(m, def_), def(def_) { write(S, salt); }
  void write(const Snap& S, u64 salt) override {
    if (!attached) return;
    ref.clear();
    SurfaceMesh* m = d.getMesh();
    for (size_t i : liveOf<E>(S)) {
      T x = val<T>(mix64(salt + i));
      d[E(m, i)] = x;
      ref[i] = x;
    }
  }
  void check(SurfaceMesh* m, const Snap& S, const char* clause) override {
    if (!attached) {
      CHECK(d.getMesh() == nullptr, clause, "a container without mesh claims to have one");
      return;
    }
    CHECK(d.getMesh() == m, clause, "the container is attached to the wrong mesh");
    CHECK(d.getDefault() == def, clause, "the default changed");
    const MeshData<E, T>& c = d;
    for (size_t i : liveOf<E>(S)) {
      auto it = ref.find(i);
      CHECK(it != ref.end(), "harness", "no reference for %zu", i);
      CHECK(c[E(m, i)] == it->second, clause, "value of element %zu changed", i);
    }
  }
  void follow(const Snap& before, const Snap& after, bool compressed) override {
    if (!attached) return;
    std::map<size_t, T> n;
    auto& A = liveOf<E>(before);
    auto& B = liveOf<E>(after);
    if (compressed) {
      for (size_t k = 0; k < B.size(); k++) n[B[k]] = ref.at(A[k]);
    } else {
      for (size_t i : B) {
        auto it = ref.find(i);
        n[i] = it == ref.end() ? def : it->second;
      }
    }
    ref = n;
  }
  std::unique_ptr<BoxBase> to(SurfaceMesh& m, const Snap& S) const override {
    if (!attached) return nullptr;
    std::unique_ptr<Box> b(new Box());
    b->d = d.reinterpretTo(m);
    b->attached = true;
    b->ref = ref;
    b->def = def;
    for (size_t i : liveOf<E>(S))
      if (!b->ref.count(i)) throw Discard{"numberings differ"};
    return std::move(b);
  }
  void onMeshGone() override {
    attached = false;
    ref.clear();
  }
};

struct Actor {
  std::unique_ptr<SurfaceMesh> mesh;
  ManifoldSurfaceMesh* man = nullptr; // set if it is one
  Snap S;
  bool simplicial = false;
  std::vector<std::unique_ptr<BoxBase>> boxes;
  std::unique_ptr<VertexPositionGeometry> vg;
  std::unique_ptr<EdgeLengthGeometry> lg;
  bool geomBroken = false; // the mesh of the geometry is gone
  std::map<size_t, Vector3> pos;
  std::map<size_t, double> len;
  bool reqLen = false, reqIdx = false, stale = true;
  u64 id = 0;
};

bool sameV(Vector3 a, Vector3 b) { return std::memcmp(&a, &b, sizeof a) == 0; }

void followMaps(Actor& A, const Snap& B, const Snap& T, bool compressed) {
  if (A.vg) {
    std::map<size_t, Vector3> n;
    if (compressed) for (size_t k = 0; k < T.vs.size(); k++) n[T.vs[k]] = A.pos.at(B.vs[k]);
    else for (size_t i : T.vs) n[i] = A.pos.count(i) ? A.pos[i] : A.vg->inputVertexPositions.getDefault();
    A.pos = n;
  }
  if (A.lg) {
    std::map<size_t, double> n;
    if (compressed) for (size_t k = 0; k < T.es.size(); k++) n[T.es[k]] = A.len.at(B.es[k]);
    else for (size_t i : T.es) n[i] = A.len.count(i) ? A.len[i] : A.lg->inputEdgeLengths.getDefault();
    A.len = n;
  }
  for (auto& b : A.boxes) b->follow(B, T, compressed);
}

void checkActor(Actor& A, const char* clause) {
  if (A.mesh) {
    Snap T = snapshotChecked(*A.mesh);
    std::string d = A.S.diff(T);
    CHECK(d.empty(), clause, "mesh %llu: %s", (unsigned long long)A.id, d.c_str());
  }
  for (auto& b : A.boxes) b->check(A.mesh.get(), A.S, clause);
  if (A.geomBroken || !A.mesh) return;
  if (A.vg) {
    for (size_t i : A.S.vs) CHECK(sameV(A.vg->inputVertexPositions[Vertex(A.mesh.get(), i)], A.pos.at(i)), clause, "geometry of mesh %llu: position of vertex %zu changed", (unsigned long long)A.id, i);
    if (!A.stale && A.reqLen)
      for (size_t e : A.S.es) {
        double want = norm(A.pos.at(A.S.vert[A.S.eHe[e]]) - A.pos.at(A.S.tip(A.S.eHe[e])));
        double got = A.vg->edgeLengths[Edge(A.mesh.get(), e)];
        CHECK(std::abs(want - got) <= 1e-12 * (1 + want), clause, "geometry of mesh %llu: required edge length %zu is %g instead of %g", (unsigned long long)A.id, e, got, want);
      }
    if (!A.stale && A.reqIdx)
      for (size_t k = 0; k < A.S.vs.size(); k++)
        CHECK(A.vg->vertexIndices[Vertex(A.mesh.get(), A.S.vs[k])] == k, clause, "geometry of mesh %llu: required vertex indices changed", (unsigned long long)A.id);
  }
  if (A.lg)
    for (size_t e : A.S.es) CHECK(A.lg->inputEdgeLengths[Edge(A.mesh.get(), e)] == A.len.at(e), clause, "length geometry of mesh %llu: length of edge %zu changed", (unsigned long long)A.id, e);
}

// an edit of a general mesh
void generalEdit(SurfaceMesh& m, const Snap& S, u64 what, u64 a) {
  switch (what % 5) {
  case 0: m.invertOrientation(Face(&m, S.fs[a % S.fs.size()])); break;
  case 1: m.duplicateFace(Face(&m, S.fs[a % S.fs.size()])); break;
  case 2: m.flip(Edge(&m, S.es[a % S.es.size()]), a % 2 == 0); break;
  case 3: {
    for (size_t k = 0; k < S.es.size(); k++) {
      Edge e(&m, S.es[(a + k) % S.es.size()]);
      if (e.degree() < 3) continue;
      Halfedge h = e.halfedge();
      m.separateToNewEdge(h, h.sibling());
      break;
    }
    break;
  }
  default: m.separateNonmanifoldVertices();
  }
}
bool refusal(const std::exception& e) { return dynamic_cast<const std::bad_alloc*>(&e) == nullptr; }

bool growOnly = false; // only edits which add elements: the mesh then stays compressed
bool edit(SurfaceMesh& m, ManifoldSurfaceMesh* man, const Snap& S, u64 a, u64 b, u64 c, Ctx& ctx) { // true: applied
  if (S.nF == 0 || S.nE == 0) return false;
  if (growOnly && man) a = std::vector<u64>{MO_insertVertex, MO_insertVertexAlongEdge, MO_splitEdge, MO_insertVertex, MO_connectVertices}[a % 5];
  if (growOnly && !man) a = 1 + a % 2;
  if (man) {
    Op o;
    o.kind = (int)(a % MO_COUNT);
    if (o.kind == MO_compress) o.kind = MO_insertVertex;
    o.a = {b, c, mix64(b ^ c)};
    Snap X = S;
    MeshOpOutcome r = applyMeshOp(*man, o, ctx, false, &X);
    return r.applied;
  }
  try {
    generalEdit(m, S, a, b);
  } catch (const std::runtime_error&) {
    return false;
  }
  return true;
}

struct World {
  std::vector<std::unique_ptr<Actor>> as;
  struct Float {
    std::unique_ptr<Box<Vertex, double>> b;
    u64 owner = 0; // actor id or 0
  };
  std::vector<Float> fl;
  u64 nextId = 1;
  Actor* find(u64 id) {
    for (auto& a : as)
      if (a->id == id) return a.get();
    return nullptr;
  }
  void checkAll(const char* clause, u64 except = 0) {
    for (auto& a : as)
      if (a->id != except) checkActor(*a, clause);
    for (auto& f : fl) {
      Actor* o = f.owner ? find(f.owner) : nullptr;
      static const Snap none;
      f.b->check(o ? o->mesh.get() : nullptr, o ? o->S : none, clause);
    }
  }
  void followFloats(u64 id, const Snap& B, const Snap& T, bool comp) {
    for (auto& f : fl)
      if (f.owner == id) f.b->follow(B, T, comp);
  }
};

void giveBoxes(Actor& A, u64 salt) {
  SurfaceMesh& m = *A.mesh;
  A.boxes.emplace_back(new Box<Vertex, double>(m, A.S, 2.5, salt));
  A.boxes.emplace_back(new Box<Edge, int>(m, A.S, -3, salt + 1));
  A.boxes.emplace_back(new Box<Face, std::string>(m, A.S, "default", salt + 2));
  A.boxes.emplace_back(new Box<Halfedge, size_t>(m, A.S, 77, salt + 3));
  if (A.man) A.boxes.emplace_back(new Box<BoundaryLoop, Vector2>(m, A.S, Vector2{1, 2}, salt + 4));
}
void giveGeometry(Actor& A, u64 salt) {
  SurfaceMesh& m = *A.mesh;
  A.vg.reset();
  A.lg.reset();
  A.pos.clear();
  A.len.clear();
  A.reqLen = A.reqIdx = false;
  A.stale = true;
  A.geomBroken = false;
  A.vg.reset(new VertexPositionGeometry(m));
  for (size_t i : A.S.vs) {
    Vector3 p{val<double>(mix64(salt + 3 * i)), val<double>(mix64(salt + 3 * i + 1)), val<double>(mix64(salt + 3 * i + 2))};
    A.vg->inputVertexPositions[Vertex(&m, i)] = p;
    A.pos[i] = p;
  }
  EdgeData<double> L(m, 1.);
  for (size_t e : A.S.es) {
    double x = 1 + val<double>(mix64(salt + 31 * e)) * 1e-5;
    L[Edge(&m, e)] = x;
    A.len[e] = x;
  }
  A.lg.reset(new EdgeLengthGeometry(m, L));
  A.stale = false;
}

Register reg([] {
  Scenario s;
  s.name = "copies";
  s.property = "C04";
  s.opNames = qNames;
  s.realComponents = "SurfaceMesh / ManifoldSurfaceMesh copying and conversion, MeshData assignment and reinterpretTo across meshes, geometry copies (real code)";
  s.stubComponents = "";
  s.rule = "a run holds up to six meshes with containers and geometries which are copied, converted, edited and destroyed in any order; after every "
           "operation everything it does not concern is compared bit for bit with its reference state; copies are also edited in lockstep with their source";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    std::vector<double> w = {1.2, 1, 2, .8, .8, 6, 1.5, 2.5, 1, 1, 2.5, 1, 1, 1, 1, 1.5, 1, .7, .8, .3, .6};
    if (r.chance(.5)) for (auto& x : w) x *= .1 + 2 * r.unit() * r.unit();
    size_t n = (size_t)r.range(8, tier ? 70 : 40);
    h.cfg["grow"] = r.chance(.3);
    Op first;
    first.kind = Q_create;
    for (int k = 0; k < 5; k++) first.a.push_back(r.next() >> 8);
    h.ops.push_back(first);
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = (int)r.weighted(w);
      for (int k = 0; k < 5; k++) o.a.push_back(r.next() >> 8);
      if (fm && r.chance(.25)) {
        o.fault = 1;
        o.fa = r.chance(.5) ? r.below(12) : r.below(120);
      }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    World W;
    growOnly = h.get("grow") == 1;
    for (auto& op : h.ops) {
      ctx.steps++;
      ctx.ev((u64)op.kind);
      if (op.kind != Q_create && W.as.empty()) continue;
      Actor* A = W.as.empty() ? nullptr : W.as[arg(op, 0) % W.as.size()].get();
      if (op.kind != Q_create && op.kind != Q_killActor && op.kind < Q_floatAssign && !A->mesh) continue;
      auto adopt = [&](std::unique_ptr<SurfaceMesh> m, ManifoldSurfaceMesh* man) {
        std::unique_ptr<Actor> n(new Actor);
        n->mesh = std::move(m);
        n->man = man;
        n->id = W.nextId++;
        n->S = snapshotChecked(*n->mesh, "copy.");
        W.as.push_back(std::move(n));
        return W.as.back().get();
      };
      auto makeRoom = [&] {
        while (W.as.size() >= 6) { // the oldest goes away, containers after or before their mesh
          u64 id = W.as[0]->id;
          for (auto& f : W.fl)
            if (f.owner == id) { f.owner = 0; f.b->onMeshGone(); }
          W.as.erase(W.as.begin());
        }
      };
      // runs a copying call, possibly with an allocation failing inside; returns false if it failed (then nothing happened)
      auto attempt = [&](const std::function<void()>& f) {
        if (op.fault) seam::allocArm((i64)op.fa);
        try {
          f();
          if (op.fault) seam::allocDisarm();
          return true;
        } catch (const std::bad_alloc&) {
          bool hit = seam::allocDisarm();
          CHECK(hit, "bad-alloc", "bad_alloc without an injected failure");
          ctx.fault("alloc-failure");
          return false;
        } catch (...) {
          seam::allocDisarm();
          throw;
        }
      };
      switch (op.kind) {
      case Q_create: {
        makeRoom();
        bool gen = arg(op, 1) % 3 == 0;
        int size = 1 + (int)(arg(op, 2) % 3);
        Soup soup = gen ? makeGeneralSoup((int)(arg(op, 3) % (u64)nGeneralKinds), size, arg(op, 4)) : makeManifoldSoup((int)(arg(op, 3) % (u64)nManifoldKinds), size, arg(op, 4), arg(op, 2) % 2);
        std::unique_ptr<SurfaceMesh> m;
        ManifoldSurfaceMesh* man = nullptr;
        if (gen) m.reset(new SurfaceMesh(soup.polys));
        else m.reset(man = new ManifoldSurfaceMesh(soup.polys));
        A = adopt(std::move(m), man);
        giveBoxes(*A, arg(op, 4) ^ 5);
        giveGeometry(*A, arg(op, 4));
        break;
      }
      case Q_rebuild: { // a mesh of the same size and numbering, but built afresh
        if (!A->mesh->isCompressed() || hasTinyFace(A->S)) break;
        auto polys = A->mesh->getFaceVertexList();
        bool toMan = A->man;
        std::unique_ptr<SurfaceMesh> m;
        ManifoldSurfaceMesh* man = nullptr;
        try {
          if (toMan) m.reset(man = new ManifoldSurfaceMesh(polys));
          else m.reset(new SurfaceMesh(polys));
        } catch (const std::runtime_error&) { // eg. multiple edges, which a face list cannot express
          break;
        }
        std::vector<std::unique_ptr<BoxBase>> over;
        Actor* src = A;
        makeRoom();
        bool srcAlive = std::find_if(W.as.begin(), W.as.end(), [&](std::unique_ptr<Actor>& x) { return x.get() == src; }) != W.as.end();
        A = adopt(std::move(m), man);
        giveBoxes(*A, arg(op, 4) ^ 5);
        giveGeometry(*A, arg(op, 4));
        // vertices and faces are numbered alike, so their data can go both ways
        if (srcAlive && A->S.nV == src->S.nV) {
          for (size_t k : {0, 2}) {
            auto there = src->boxes.size() > k && typeid(*src->boxes[k]) == typeid(*A->boxes[k]) ? src->boxes[k]->to(*A->mesh, A->S) : nullptr;
            auto back = A->boxes[k]->to(*src->mesh, src->S);
            if (there) A->boxes.push_back(std::move(there));
            if (back) src->boxes.push_back(std::move(back));
            ctx.count("reinterpret.rebuilt");
          }
        }
        break;
      }
      case Q_copy:
      case Q_toSurface:
      case Q_toManifold: {
        std::unique_ptr<SurfaceMesh> m;
        ManifoldSurfaceMesh* man = nullptr;
        bool ok = attempt([&] {
          if (op.kind == Q_copy) {
            if (A->man) {
              auto c = A->man->copy();
              man = c.get();
              m = std::move(c);
            } else m = A->mesh->copy();
          } else if (op.kind == Q_toSurface) {
            // through a base class reference; a manifold mesh stays one
            const SurfaceMesh& base = *A->mesh;
            m = base.copyToSurfaceMesh();
            man = dynamic_cast<ManifoldSurfaceMesh*>(m.get());
            CHECK((man != nullptr) == (A->man != nullptr), "copy", "copyToSurfaceMesh() changed the kind of the mesh");
          } else {
            if (A->man || !A->mesh->isManifold() || !A->mesh->isOriented()) return;
            try {
              auto c = A->mesh->toManifoldMesh();
              man = c.get();
              m = std::move(c);
            } catch (const std::runtime_error&) { // eg. self edges, which are refused
              ctx.fault("refused-call");
            }
          }
        });
        checkActor(*A, ok ? "source-unchanged" : "source-unchanged-on-failure");
        if (!ok || !m) break;
        ctx.nontrivial = true;
        makeRoom();
        if (!W.as.size() || std::find_if(W.as.begin(), W.as.end(), [&](std::unique_ptr<Actor>& x) { return x.get() == A; }) == W.as.end()) break; // the source was retired
        bool exact = op.kind != Q_toManifold;
        bool comp = A->mesh->isCompressed();
        Actor* C = adopt(std::move(m), man);
        if (exact) {
          std::string d = A->S.diff(C->S);
          CHECK(d.empty(), "copy", "the copy differs: %s", d.c_str());
          CHECK(C->mesh->isCompressed() == comp, "copy", "isCompressed() differs");
          CHECK(C->mesh->usesImplicitTwin() == A->mesh->usesImplicitTwin(), "copy", "the representation differs");
        } else {
          CHECK(C->S.nV == A->S.nV && C->S.nF == A->S.nF && C->S.nE == A->S.nE, "convert", "element counts differ");
          CHECK(C->mesh->getFaceVertexList() == A->mesh->getFaceVertexList(), "convert", "faces differ");
        }
        // containers go over with reinterpretTo when the numbering is the same
        if (exact && arg(op, 1) % 4) {
          for (auto& b : A->boxes) {
            std::unique_ptr<BoxBase> nb;
            if (!A->man && C->man) continue;
            nb = b->to(*C->mesh, C->S);
            if (nb) C->boxes.push_back(std::move(nb));
          }
        } else giveBoxes(*C, arg(op, 2));
        if (exact && comp && A->vg && !A->geomBroken && arg(op, 3) % 3) {
          C->vg = A->vg->reinterpretTo(*C->mesh);
          C->pos = A->pos;
          CHECK(C->vg->edgeLengths.size() == 0 && C->vg->vertexIndices.size() == 0, "copy-geometry", "a copied geometry already stores quantities");
          C->stale = false;
          if (A->lg) {
            C->lg = A->lg->reinterpretTo(*C->mesh);
            C->len = A->len;
          }
        } else giveGeometry(*C, arg(op, 4));
        break;
      }
      case Q_edit:
      case Q_compress: {
        size_t times = op.kind == Q_edit ? 1 + arg(op, 4) % 8 : 1;
        for (size_t k = 0; k < times; k++) {
          if (A->S.nF > 160 || hasTinyFace(A->S)) break;
          Snap B = A->S;
          bool comp = op.kind == Q_compress;
          if (comp) A->mesh->compress();
          else if (!edit(*A->mesh, A->man, B, mix64(arg(op, 1) + k), mix64(arg(op, 2) + k), mix64(arg(op, 3) + k), ctx)) continue;
          A->S = snapshotChecked(*A->mesh);
          if (comp) CHECK(A->S.vs.size() == B.vs.size() && A->S.hes.size() == B.hes.size() && A->S.es.size() == B.es.size(), "compress", "counts changed");
          followMaps(*A, B, A->S, comp);
          W.followFloats(A->id, B, A->S, comp);
          A->stale = true;
          ctx.nontrivial = true;
        }
        break;
      }
      case Q_lockstep: {
        // a copy carries the whole state: the same edits lead to the same mesh
        if (hasTinyFace(A->S) || A->S.nF > 160) break;
        std::unique_ptr<SurfaceMesh> c = A->mesh->copyToSurfaceMesh();
        ManifoldSurfaceMesh* cm = dynamic_cast<ManifoldSurfaceMesh*>(c.get());
        Snap X = A->S;
        for (size_t k = 0; k < 1 + arg(op, 4) % 6; k++) {
          if (hasTinyFace(A->S) || A->S.nF > 160) break;
          u64 a = mix64(arg(op, 1) + k), b = mix64(arg(op, 2) + k), d = mix64(arg(op, 3) + k);
          if (a % 9 == 0) {
            A->mesh->compress();
            c->compress();
            Snap T = snapshotChecked(*A->mesh);
            followMaps(*A, A->S, T, true);
            W.followFloats(A->id, A->S, T, true);
            A->S = T;
          } else {
            bool r1 = edit(*A->mesh, A->man, A->S, a, b, d, ctx);
            bool r2 = edit(*c, cm, X, a, b, d, ctx);
            CHECK(r1 == r2, "lockstep", "the same edit was accepted by one and refused by the other");
            Snap T = snapshotChecked(*A->mesh);
            if (r1) {
              followMaps(*A, A->S, T, false);
              W.followFloats(A->id, A->S, T, false);
            }
            A->S = T;
          }
          X = snapshotChecked(*c, "copy.");
          A->stale = true;
          std::string diff = A->S.diff(X);
          CHECK(diff.empty(), "lockstep", "mesh and copy differ after the same edits: %s", diff.c_str());
          CHECK(c->isCompressed() == A->mesh->isCompressed(), "lockstep", "isCompressed() differs");
        }
        ctx.nontrivial = true;
        break;
      }
      case Q_write:
        if (!A->boxes.empty()) A->boxes[arg(op, 1) % A->boxes.size()]->write(A->S, arg(op, 2));
        break;
      case Q_move: {
        if (!A->vg || A->geomBroken) break;
        for (size_t i : A->S.vs)
          if (mix64(i + arg(op, 1)) % 3 == 0) {
            Vector3 p{val<double>(mix64(arg(op, 2) + i)), (double)(i % 7), 3.};
            A->vg->inputVertexPositions[Vertex(A->mesh.get(), i)] = p;
            A->pos[i] = p;
          }
        A->vg->refreshQuantities();
        A->stale = false;
        if (A->lg) {
          for (size_t e : A->S.es) {
            double x = 1 + (double)(mix64(e + arg(op, 3)) % 1000) * 1e-4;
            A->lg->inputEdgeLengths[Edge(A->mesh.get(), e)] = x;
            A->len[e] = x;
          }
          A->lg->refreshQuantities();
        }
        break;
      }
      case Q_reinterpret: {
        // from any mesh to any other one with the same numbers of elements
        Actor* B = W.as[arg(op, 1) % W.as.size()].get();
        if (!B->mesh || A->boxes.empty() || !A->mesh->isCompressed() || !B->mesh->isCompressed()) break;
        if (A->man && !B->man) break;
        auto& b = A->boxes[arg(op, 2) % A->boxes.size()];
        std::unique_ptr<BoxBase> nb;
        bool ok = attempt([&] {
          try {
            nb = b->to(*B->mesh, B->S);
          } catch (const std::runtime_error&) { // refused: different numbers of elements
          } catch (const Discard&) {
          }
        });
        if (!ok || !nb) break;
        ctx.nontrivial = true;
        ctx.count(A == B ? "reinterpret.self" : "reinterpret.other");
        if (B->boxes.size() > 12) B->boxes.erase(B->boxes.begin());
        B->boxes.push_back(std::move(nb));
        break;
      }
      case Q_geomCopy: {
        if (!A->vg || A->geomBroken || !A->mesh->isCompressed()) break;
        std::unique_ptr<VertexPositionGeometry> c;
        if (!attempt([&] { c = A->vg->copy(); })) break;
        for (size_t i : A->S.vs) CHECK(sameV(c->inputVertexPositions[Vertex(A->mesh.get(), i)], A->pos.at(i)), "copy-geometry", "position %zu differs in the copy", i);
        if (arg(op, 1) % 2) { // the copy takes over
          A->vg = std::move(c);
          A->reqLen = A->reqIdx = false;
          A->stale = false;
        } else {
          c->requireEdgeLengths();
          for (size_t i : A->S.vs) c->inputVertexPositions[Vertex(A->mesh.get(), i)] *= 3;
          c->refreshQuantities();
        }
        break;
      }
      case Q_geomTo: {
        Actor* B = W.as[arg(op, 1) % W.as.size()].get();
        if (!A->vg || A->geomBroken || !B->mesh || !A->mesh->isCompressed() || !B->mesh->isCompressed() || A->S.nV != B->S.nV) break;
        if (A->S.vs != B->S.vs) break;
        std::unique_ptr<VertexPositionGeometry> g;
        auto pos = A->pos;
        if (!attempt([&] { g = A->vg->reinterpretTo(*B->mesh); })) break;
        B->vg = std::move(g);
        B->pos = pos;
        B->reqLen = B->reqIdx = false;
        B->stale = false;
        B->geomBroken = false;
        ctx.nontrivial = true;
        if (!B->lg) {
          giveGeometry(*B, arg(op, 2));
        }
        break;
      }
      case Q_require:
        if (!A->vg || A->geomBroken) break;
        if (arg(op, 1) % 2) {
          if (!A->reqLen) A->vg->requireEdgeLengths();
          A->reqLen = true;
        } else {
          if (!A->reqIdx) A->vg->requireVertexIndices();
          A->reqIdx = true;
        }
        A->vg->refreshQuantities();
        if (A->lg) A->lg->refreshQuantities();
        A->stale = false;
        break;
      case Q_float: {
        if (W.fl.size() > 7) W.fl.erase(W.fl.begin() + (i64)(arg(op, 1) % W.fl.size()));
        World::Float f;
        f.b.reset(new Box<Vertex, double>(*A->mesh, A->S, val<double>(arg(op, 2)), arg(op, 3)));
        f.owner = A->id;
        W.fl.push_back(std::move(f));
        break;
      }
      case Q_floatAssign:
      case Q_floatMove:
      case Q_floatSwap: {
        if (W.fl.size() < 2) break;
        World::Float& x = W.fl[arg(op, 1) % W.fl.size()];
        World::Float& y = W.fl[arg(op, 2) % W.fl.size()];
        if (&x == &y && op.kind != Q_floatAssign) break;
        ctx.count(x.owner == y.owner ? "assign.same-mesh" : "assign.other-mesh");
        if (op.kind == Q_floatAssign) {
          if (!attempt([&] { x.b->d = y.b->d; })) break; // strong guarantee: x keeps its contents
          x.b->ref = y.b->ref; x.b->def = y.b->def; x.b->attached = y.b->attached; x.owner = y.owner;
          if (!y.b->attached) x.b->def = y.b->d.getDefault();
        } else if (op.kind == Q_floatMove) {
          x.b->d = std::move(y.b->d);
          x.b->ref = y.b->ref; x.b->def = y.b->def; x.b->attached = y.b->attached; x.owner = y.owner;
          y.b->attached = false;
          y.b->d = VertexData<double>();
          y.b->ref.clear(); y.b->def = 0; y.owner = 0;
        } else {
          std::swap(x.b->d, y.b->d);
          std::swap(x.b->ref, y.b->ref); std::swap(x.b->def, y.b->def); std::swap(x.b->attached, y.b->attached); std::swap(x.owner, y.owner);
        }
        ctx.nontrivial = true;
        break;
      }
      case Q_killMesh: {
        // containers and geometries may outlive the mesh (they are only destroyed afterwards)
        for (auto& f : W.fl)
          if (f.owner == A->id) { f.owner = 0; f.b->onMeshGone(); }
        A->mesh.reset();
        A->man = nullptr;
        for (auto& b : A->boxes) b->onMeshGone();
        A->geomBroken = true;
        break;
      }
      case Q_killGeom:
        A->vg.reset();
        A->lg.reset();
        A->pos.clear();
        A->len.clear();
        break;
      case Q_killActor: {
        u64 id = A->id;
        for (auto& f : W.fl)
          if (f.owner == id) { f.owner = 0; f.b->onMeshGone(); }
        if (arg(op, 1) % 2) A->mesh.reset(); // before its containers and geometry
        W.as.erase(W.as.begin() + (i64)(arg(op, 0) % W.as.size()));
        break;
      }
      }
      if (&op == &h.ops.back() || ctx.steps % 3 == 0) W.checkAll("independent");
      u64 st = W.as.size();
      for (auto& a : W.as) st = hcomb(st, a->mesh ? hcomb(a->S.nHe, a->S.nV + 1000 * a->S.nF) : 0);
      ctx.state(st);
      ctx.ev(st);
    }
  };
  return s;
}());
} // namespace
