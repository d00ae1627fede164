// C02: containers attached to a mesh follow their elements through every interleaving of container operations, mesh
// mutation, storage growth, compression and mesh destruction.
#include "meshops.h"
#include <algorithm>
using namespace sim;

namespace {

enum Kind { KV, KH, KC, KE, KF, KB, NKIND };
const char* kindName[] = {"VertexData", "HalfedgeData", "CornerData", "EdgeData", "FaceData", "BoundaryLoopData"};
template <class E> struct KindOf;
template <> struct KindOf<Vertex> { static const int k = KV; };
template <> struct KindOf<Halfedge> { static const int k = KH; };
template <> struct KindOf<Corner> { static const int k = KC; };
template <> struct KindOf<Edge> { static const int k = KE; };
template <> struct KindOf<Face> { static const int k = KF; };
template <> struct KindOf<BoundaryLoop> { static const int k = KB; };

template <class T> T mk(u64 code);
template <> double mk<double>(u64 c) { return (double)(i64)(c % 2001) - 1000 + 0.25; }
template <> int mk<int>(u64 c) { return (int)(c % 1000) + 1; }
template <> bool mk<bool>(u64 c) { return c % 3 == 1; }
template <> std::string mk<std::string>(u64 c) { return std::string(c % 40, 'x') + std::to_string(c % 100000); }
template <> Vector3 mk<Vector3>(u64 c) { return Vector3{(double)(c % 97), (double)(c % 89) - 40, (double)(c % 83) / 8}; }
template <class T> std::string str(const T& t) { return std::to_string(t); }
template <> std::string str(const std::string& t) { return "\"" + t + "\""; }
template <> std::string str(const Vector3& t) { return "(" + std::to_string(t.x) + "," + std::to_string(t.y) + "," + std::to_string(t.z) + ")"; }

// The simulated world: one mesh at a time, stable identities for every element of each kind.
struct World {
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::vector<size_t> idOf[NKIND]; // raw index -> id (NONE when dead)
  size_t nextId = 1;
  u64 epoch = 0;
  Snap S;
  const std::vector<size_t>& live(int k) const {
    static thread_local std::vector<size_t> cs;
    switch (k) {
    case KV: return S.vs;
    case KH: return S.hes;
    case KC:
      cs.clear();
      for (size_t h : S.hes)
        if (S.interior[h]) cs.push_back(h);
      return cs;
    case KE: return S.es;
    case KF: return S.fs;
    default: return S.bls;
    }
  }
  size_t capacity(int k) const {
    switch (k) {
    case KV: return mesh->nVerticesCapacity();
    case KH: case KC: return mesh->nHalfedgesCapacity();
    case KE: return mesh->nEdgesCapacity();
    case KF: return mesh->nFacesCapacity();
    default: return mesh->nBoundaryLoopsCapacity();
    }
  }
  void hook() {
    auto perm = [this](int k) {
      return [this, k](const std::vector<size_t>& p) {
        std::vector<size_t> n(p.size(), NONE);
        for (size_t i = 0; i < p.size(); i++)
          if (p[i] < idOf[k].size()) n[i] = idOf[k][p[i]];
        idOf[k] = n;
      };
    };
    mesh->vertexPermuteCallbackList.push_back(perm(KV));
    mesh->halfedgePermuteCallbackList.push_back(perm(KH));
    mesh->halfedgePermuteCallbackList.push_back(perm(KC));
    mesh->edgePermuteCallbackList.push_back(perm(KE));
    mesh->facePermuteCallbackList.push_back(perm(KF));
    mesh->boundaryLoopPermuteCallbackList.push_back(perm(KB));
  }
  void sync() {
    for (int k = 0; k < NKIND; k++) {
      auto& L = live(k);
      std::vector<size_t> n;
      for (size_t i : L) {
        if (n.size() <= i) n.resize(i + 1, NONE);
        n[i] = i < idOf[k].size() && idOf[k][i] != NONE ? idOf[k][i] : nextId++;
      }
      idOf[k] = n;
    }
  }
};

struct SlotBase {
  int kind = 0, type = 0;
  bool attached = false, movedFrom = false;
  virtual ~SlotBase() {}
  virtual void sync(World& w) = 0;
  virtual void check(World& w, const char* clause, bool detach) = 0;
  virtual void act(World& w, const Op& op, std::vector<std::unique_ptr<SlotBase>>& slots, Ctx& ctx) = 0;
  virtual void onMeshGone() = 0;
};

enum COp {
  CO_mesh, CO_create, CO_set, CO_setIndex, CO_fill, CO_setDefault, CO_copyCtor, CO_copyAssign, CO_moveCtor, CO_moveAssign, CO_clear,
  CO_vector, CO_indexer, CO_arith, CO_reinterpret, CO_destroy, CO_meshDeath, CO_swap, CO_COUNT
};
const std::vector<std::string> cOpNames = {"meshMutation", "create", "set", "setByIndex", "fill", "setDefault", "copyConstruct", "copyAssign",
                                           "moveConstruct", "moveAssign", "clear", "vectorRoundTrip", "indexer", "arithmetic",
                                           "reinterpretTo", "destroyContainer", "destroyMesh", "swap"};

template <class E, class T> struct Slot : SlotBase {
  typedef MeshData<E, T> D;
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vec;
  std::unique_ptr<D> d;
  std::map<size_t, T> model; // id -> value
  T def = T();
  Slot(int t) { kind = KindOf<E>::k; type = t; }
  static E el(World& w, size_t i) { return E(w.mesh.get(), i); }
  void sync(World& w) override {
    if (!attached) return;
    std::map<size_t, T> n;
    for (size_t i : w.live(kind)) {
      size_t id = w.idOf[kind][i];
      auto it = model.find(id);
      n[id] = it == model.end() ? def : it->second;
    }
    model = n;
  }
  void check(World& w, const char* clause, bool detach) override {
    if (movedFrom) return;
    if (!attached) {
      if (detach) {
        CHECK(d->getMesh() == nullptr && d->size() == 0, "detached", "%s: %s that is not on a mesh reports a mesh or a size", clause, kindName[kind]);
      }
      return;
    }
    CHECK(d->getMesh() == w.mesh.get(), clause, "%s: container is on the wrong mesh", kindName[kind]);
    CHECK(d->size() == w.capacity(kind), clause, "%s: size() is %zu, capacity is %zu", kindName[kind], d->size(), w.capacity(kind));
    CHECK((size_t)d->raw().size() >= d->size(), clause, "%s: buffer has %zu slots, size() is %zu", kindName[kind], (size_t)d->raw().size(), d->size());
    CHECK(d->getDefault() == def, clause, "%s: default is %s, expected %s", kindName[kind], str(d->getDefault()).c_str(), str(def).c_str());
    const D& cd = *d;
    bool comp = w.mesh->isCompressed();
    for (size_t i : w.live(kind)) {
      size_t id = w.idOf[kind][i];
      const T& want = model.at(id);
      CHECK(cd[el(w, i)] == want, clause, "%s: entry of element %zu (identity %zu) is %s, expected %s", kindName[kind], i, id, str<T>(cd[el(w, i)]).c_str(), str<T>(want).c_str());
      if (comp) CHECK(cd[i] == want, clause, "%s: index access %zu differs from element access", kindName[kind], i);
    }
  }
  void onMeshGone() override {
    if (!attached) return;
    attached = false;
    model.clear();
  }
  // whole-mesh reads used by several operations
  Vec expectVec(World& w) {
    auto L = w.live(kind);
    Vec v((Eigen::Index)L.size());
    for (size_t i = 0; i < L.size(); i++) v((Eigen::Index)i) = model.at(w.idOf[kind][L[i]]);
    return v;
  }
  void copyModel(const Slot& o) { attached = o.attached; movedFrom = false; model = o.model; def = o.def; }

  template <class F> void binary(World& w, Slot& o, std::vector<std::unique_ptr<SlotBase>>& slots, F f, const D& result, const char* nm) {
    auto s = std::make_unique<Slot>(type);
    s->d = std::make_unique<D>(result);
    s->attached = true;
    for (auto& p : model) s->model[p.first] = f(p.second, o.model.at(p.first));
    s->check(w, nm, true);
    slots.push_back(std::move(s));
  }
  void arith(World&, const Op&, Slot&, std::vector<std::unique_ptr<SlotBase>>&, Ctx&, ...) {}
  template <class U = T> typename std::enable_if<std::is_same<U, double>::value>::type doArith(World& w, const Op& op, Slot& o, std::vector<std::unique_ptr<SlotBase>>& slots) {
    double c = mk<double>(arg(op, 3));
    switch (arg(op, 2) % 9) {
    case 0: binary(w, o, slots, [](double a, double b) { return a + b; }, *d + *o.d, "arith.+"); break;
    case 1: binary(w, o, slots, [](double a, double b) { return a - b; }, *d - *o.d, "arith.-"); break;
    case 2: binary(w, o, slots, [](double a, double b) { return a * b; }, *d * *o.d, "arith.*"); break;
    case 3: binary(w, o, slots, [c](double a, double) { return a * c; }, *d * c, "arith.*s"); break;
    case 4: binary(w, o, slots, [c](double a, double) { return c - a; }, c - *d, "arith.s-"); break;
    case 5: binary(w, o, slots, [](double a, double) { return -a; }, -*d, "arith.neg"); break;
    case 6: { D& r = (*d += *o.d); CHECK(&r == d.get(), "arith.+=", "does not return itself"); std::map<size_t, T> om = o.model; for (auto& p : model) p.second += om.at(p.first); break; }
    case 7: *d /= c; for (auto& p : model) p.second /= c; break;
    default: *d -= c; for (auto& p : model) p.second -= c; break;
    }
    for (auto& p : model) if (!(std::abs(p.second) < 1e100)) p.second = 0; // keep values finite: also in the container
    for (size_t i : w.live(kind)) if (!(std::abs((*d)[el(w, i)]) < 1e100)) (*d)[el(w, i)] = 0;
  }
  template <class U = T> typename std::enable_if<std::is_same<U, int>::value>::type doArith(World& w, const Op& op, Slot& o, std::vector<std::unique_ptr<SlotBase>>& slots) {
    int c = mk<int>(arg(op, 3));
    bool nz = true;
    for (auto& p : o.model) nz = nz && p.second != 0;
    switch (arg(op, 2) % 10) {
    case 0: if (nz) binary(w, o, slots, [](int a, int b) { return a % b; }, *d % *o.d, "arith.%"); break;
    case 1: if (nz) binary(w, o, slots, [](int a, int b) { return a / b; }, *d / *o.d, "arith./"); break;
    case 2: binary(w, o, slots, [](int a, int b) { return a & b; }, *d & *o.d, "arith.&"); break;
    case 3: binary(w, o, slots, [](int a, int b) { return a | b; }, *d | *o.d, "arith.|"); break;
    case 4: binary(w, o, slots, [](int a, int b) { return a ^ b; }, *d ^ *o.d, "arith.^"); break;
    case 5: binary(w, o, slots, [](int a, int) { return ~a; }, ~*d, "arith.~"); break;
    case 6: if (nz) { *d %= *o.d; std::map<size_t, T> om = o.model; for (auto& p : model) p.second %= om.at(p.first); } break;
    case 7: *d ^= c; for (auto& p : model) p.second ^= c; break;
    case 8: binary(w, o, slots, [](int a, int) { return a >> 2; }, *d >> 2, "arith.>>"); break;
    default: *d %= c; for (auto& p : model) p.second %= c; break;
    }
  }
  template <class U = T> typename std::enable_if<std::is_same<U, bool>::value>::type doArith(World& w, const Op& op, Slot& o, std::vector<std::unique_ptr<SlotBase>>& slots) {
    switch (arg(op, 2) % 3) {
    case 0: binary(w, o, slots, [](bool a, bool b) { return a && b; }, *d && *o.d, "arith.&&"); break;
    case 1: binary(w, o, slots, [](bool a, bool b) { return a || b; }, *d || *o.d, "arith.||"); break;
    default: binary(w, o, slots, [](bool a, bool) { return !a; }, !*d, "arith.!"); break;
    }
  }
  template <class U = T> typename std::enable_if<std::is_same<U, Vector3>::value>::type doArith(World& w, const Op& op, Slot& o, std::vector<std::unique_ptr<SlotBase>>& slots) {
    double c = 1 + (double)(arg(op, 3) % 4);
    switch (arg(op, 2) % 4) {
    case 0: binary(w, o, slots, [](Vector3 a, Vector3 b) { return a + b; }, *d + *o.d, "arith.v+"); break;
    case 1: binary(w, o, slots, [](Vector3 a, Vector3 b) { return a - b; }, *d - *o.d, "arith.v-"); break;
    case 2: binary(w, o, slots, [c](Vector3 a, Vector3) { return a / c; }, *d / c, "arith.v/s"); break;
    default: *d += *o.d; { std::map<size_t, T> om = o.model; for (auto& p : model) p.second += om.at(p.first); } break;
    }
  }
  template <class U = T> typename std::enable_if<std::is_same<U, std::string>::value>::type doArith(World& w, const Op& op, Slot& o, std::vector<std::unique_ptr<SlotBase>>& slots) {
    size_t n = 0;
    for (auto& p : model) n = std::max(n, p.second.size());
    if (n > 200) return;
    binary(w, o, slots, [](std::string a, std::string b) { return a + b; }, *d + *o.d, "arith.str+");
  }

  void act(World& w, const Op& op, std::vector<std::unique_ptr<SlotBase>>& slots, Ctx& ctx) override {
    auto L = w.live(kind);
    // a partner of the same type
    auto partner = [&](bool needLive) -> Slot* {
      std::vector<Slot*> c;
      for (auto& s : slots)
        if (s->kind == kind && s->type == type && (!needLive || (s->attached && !s->movedFrom))) c.push_back((Slot*)s.get());
      return c.empty() ? nullptr : c[arg(op, 1) % c.size()];
    };
    bool usable = attached && !movedFrom;
    switch (op.kind) {
    case CO_set:
      if (!usable || L.empty()) break;
      for (size_t k = 0; k < 1 + arg(op, 2) % 4; k++) {
        size_t i = L[mix64(arg(op, 1) + k) % L.size()];
        T v = mk<T>(mix64(arg(op, 3) + k));
        (*d)[el(w, i)] = v;
        model[w.idOf[kind][i]] = v;
      }
      break;
    case CO_setIndex:
      if (!usable || L.empty() || !w.mesh->isCompressed()) break;
      {
        size_t i = L[arg(op, 1) % L.size()];
        T v = mk<T>(arg(op, 3));
        (*d)[i] = v;
        model[w.idOf[kind][i]] = v;
      }
      break;
    case CO_fill:
      if (!usable) break;
      {
        T v = mk<T>(arg(op, 3));
        d->fill(v);
        for (auto& p : model) p.second = v;
      }
      break;
    case CO_setDefault:
      if (!usable) break;
      def = mk<T>(arg(op, 3));
      d->setDefault(def);
      break;
    case CO_copyCtor: {
      if (movedFrom) break;
      auto s = std::make_unique<Slot>(type);
      s->d = std::make_unique<D>(*d);
      s->copyModel(*this);
      slots.push_back(std::move(s));
      break;
    }
    case CO_moveCtor: {
      if (movedFrom) break;
      auto s = std::make_unique<Slot>(type);
      s->d = std::make_unique<D>(std::move(*d));
      s->copyModel(*this);
      movedFrom = true;
      slots.push_back(std::move(s));
      break;
    }
    case CO_copyAssign: {
      Slot* o = partner(false);
      if (!o || o->movedFrom) break;
      *d = *o->d;
      if (o != this) copyModel(*o);
      break;
    }
    case CO_moveAssign: {
      Slot* o = partner(false);
      if (!o || o->movedFrom || o == this) break;
      *d = std::move(*o->d);
      copyModel(*o);
      o->movedFrom = true;
      break;
    }
    case CO_swap: {
      Slot* o = partner(false);
      if (!o || o->movedFrom || movedFrom || o == this) break;
      std::swap(*d, *o->d);
      std::swap(model, o->model);
      std::swap(def, o->def);
      std::swap(attached, o->attached);
      break;
    }
    case CO_clear:
      d->clear();
      attached = false;
      movedFrom = false;
      model.clear();
      def = T();
      CHECK(d->getMesh() == nullptr && d->size() == 0 && d->getDefault() == T(), "clear", "container not reset by clear()");
      break;
    case CO_vector: {
      if (!usable) break;
      Vec v = d->toVector();
      Vec want = expectVec(w);
      CHECK(v.size() == want.size(), "toVector", "%s: %zu entries for %zu elements", kindName[kind], (size_t)v.size(), (size_t)want.size());
      for (Eigen::Index i = 0; i < v.size(); i++) CHECK(v(i) == want(i), "toVector", "%s: entry %zu wrong", kindName[kind], (size_t)i);
      Vec nv(v.size());
      for (Eigen::Index i = 0; i < nv.size(); i++) nv(i) = mk<T>(mix64(arg(op, 3) + (u64)i));
      if (arg(op, 2) % 3 == 0) { // wrong length
        Vec bad(v.size() + 1 + (Eigen::Index)(arg(op, 1) % 3));
        for (Eigen::Index i = 0; i < bad.size(); i++) bad(i) = mk<T>(i);
        bool threw = false;
        try { d->fromVector(bad); } catch (const std::exception&) { threw = true; }
        CHECK(threw, "fromVector", "%s: a vector of the wrong length was accepted", kindName[kind]);
      } else if (arg(op, 2) % 3 == 1) {
        d->fromVector(nv);
        for (size_t i = 0; i < L.size(); i++) model[w.idOf[kind][L[i]]] = nv((Eigen::Index)i);
      } else {
        auto s = std::make_unique<Slot>(type);
        s->d = std::make_unique<D>(*w.mesh, nv);
        s->attached = true;
        for (size_t i = 0; i < L.size(); i++) s->model[w.idOf[kind][L[i]]] = nv((Eigen::Index)i);
        slots.push_back(std::move(s));
      }
      break;
    }
    case CO_indexer: {
      if (!usable) break;
      // an arbitrary dense numbering of a random subset
      std::vector<size_t> sub;
      for (size_t i : L)
        if (mix64(arg(op, 2) + i) % 3) sub.push_back(i);
      for (size_t i = sub.size(); i > 1; i--) std::swap(sub[i - 1], sub[mix64(arg(op, 3) + i) % i]);
      MeshData<E, size_t> ind(*w.mesh, INVALID_IND);
      for (size_t i = 0; i < sub.size(); i++) ind[el(w, sub[i])] = i;
      Vec v = d->toVector(ind);
      CHECK((size_t)v.size() == sub.size(), "toVector(indexer)", "%s: %zu entries for %zu indexed elements", kindName[kind], (size_t)v.size(), sub.size());
      for (size_t i = 0; i < sub.size(); i++) CHECK(v((Eigen::Index)i) == model.at(w.idOf[kind][sub[i]]), "toVector(indexer)", "%s: entry %zu wrong", kindName[kind], i);
      for (size_t i = 0; i < sub.size(); i++) v((Eigen::Index)i) = mk<T>(mix64(arg(op, 1) + i));
      if (arg(op, 1) % 2) {
        d->fromVector(v, ind);
        for (size_t i = 0; i < sub.size(); i++) model[w.idOf[kind][sub[i]]] = v((Eigen::Index)i);
      } else {
        auto s = std::make_unique<Slot>(type);
        s->d = std::make_unique<D>(*w.mesh, v, ind);
        s->attached = true;
        for (size_t i : L) s->model[w.idOf[kind][i]] = T();
        for (size_t i = 0; i < sub.size(); i++) s->model[w.idOf[kind][sub[i]]] = v((Eigen::Index)i);
        slots.push_back(std::move(s));
      }
      break;
    }
    case CO_arith: {
      Slot* o = partner(true);
      if (!usable || !o) break;
      doArith(w, op, *o, slots);
      break;
    }
    case CO_reinterpret: {
      if (!usable || !w.mesh->isCompressed()) break;
      // to a copy, or (when the numbering agrees) to a mesh built afresh
      std::unique_ptr<ManifoldSurfaceMesh> other;
      bool fresh = (kind == KV || kind == KF) && arg(op, 1) % 2;
      if (fresh) {
        // after edits the mesh may have several edges between two vertices, which a face list cannot express
        try { other.reset(new ManifoldSurfaceMesh(w.mesh->getFaceVertexList())); } catch (const std::exception&) {}
        if (other && (other->nVertices() != w.mesh->nVertices() || other->nFaces() != w.mesh->nFaces())) other.reset();
      }
      if (!other) other = w.mesh->copy();
      D r = d->reinterpretTo(*other);
      CHECK(r.getMesh() == other.get() && r.getDefault() == def, "reinterpretTo", "%s: wrong mesh or default", kindName[kind]);
      std::map<size_t, T> want;
      for (size_t i : L) want[i] = model.at(w.idOf[kind][i]);
      auto verify = [&](const char* when) {
        for (E e : iterateElements<E>(other.get())) {
          auto it = want.find(e.getIndex());
          T x = it == want.end() ? def : it->second;
          CHECK(r[e] == x, "reinterpretTo", "%s: entry %zu is %s, expected %s %s", kindName[kind], e.getIndex(), str<T>(r[e]).c_str(), str<T>(x).c_str(), when);
        }
      };
      verify("right after");
      // the result is a full container of its own mesh: it follows growth there
      size_t n0 = other->nFaces();
      for (size_t k = 0; k < n0 && k < 12; k++) {
        other->insertVertex(other->face(mix64(arg(op, 3) + k) % n0));
        verify("after inserting vertices");
      }
      if (arg(op, 2) % 2) other.reset();
      break;
    }
    default: break;
    }
    (void)ctx;
  }
};

template <class T> std::unique_ptr<SlotBase> makeSlotT(World& w, int kind, int type, const Op& op) {
  auto go = [&](auto tag) -> std::unique_ptr<SlotBase> {
    typedef typename decltype(tag)::E E;
    auto s = std::make_unique<Slot<E, T>>(type);
    switch (arg(op, 2) % 4) {
    case 0:
      s->d = std::make_unique<MeshData<E, T>>(*w.mesh);
      s->attached = true;
      break;
    case 1:
      s->d = std::make_unique<MeshData<E, T>>();
      break;
    default:
      s->def = mk<T>(arg(op, 3));
      s->d = std::make_unique<MeshData<E, T>>(*w.mesh, s->def);
      s->attached = true;
    }
    s->sync(w);
    return std::move(s);
  };
  struct TV { typedef Vertex E; }; struct TH { typedef Halfedge E; }; struct TC { typedef Corner E; };
  struct TE { typedef Edge E; }; struct TF { typedef Face E; }; struct TB { typedef BoundaryLoop E; };
  switch (kind) {
  case KV: return go(TV());
  case KH: return go(TH());
  case KC: return go(TC());
  case KE: return go(TE());
  case KF: return go(TF());
  default: return go(TB());
  }
}
std::unique_ptr<SlotBase> makeSlot(World& w, const Op& op) {
  int kind = (int)(arg(op, 0) % NKIND), type = (int)(arg(op, 1) % 5);
  switch (type) {
  case 0: return makeSlotT<double>(w, kind, type, op);
  case 1: return makeSlotT<int>(w, kind, type, op);
  case 2: return makeSlotT<std::string>(w, kind, type, op);
  case 3: return makeSlotT<Vector3>(w, kind, type, op);
  default: return makeSlotT<bool>(w, kind, type, op);
  }
}

Register reg([] {
  Scenario s;
  s.name = "containers";
  s.property = "C02";
  s.opNames = cOpNames;
  s.realComponents = "MeshData containers, element access, expansion/permutation/deletion callbacks, ManifoldSurfaceMesh mutation and compression (real code)";
  s.stubComponents = "";
  s.rule = "a run interleaves 10-80 container and mesh operations; after each, every entry of every container is compared with a reference map keyed by element identity";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["kind"] = (i64)r.below((u64)nManifoldKinds);
    h.cfg["size"] = r.range(1, 3);
    h.cfg["tri"] = (i64)r.below(3);
    std::vector<double> w = {9, 2, 4, 1, .5, 1, 1, 1, 1, 1, .3, 1, .7, 2, .5, .5, fm ? .25 : 0, .4};
    if (r.chance(.4)) for (auto& x : w) x *= .2 + 2 * r.unit();
    std::vector<double> mw(MO_COUNT, 1.0);
    if (r.chance(.5)) for (auto& x : mw) x = r.unit() * r.unit();
    mw[MO_compress] += .7;
    int focusKind = r.chance(.5) ? (int)r.below(NKIND) : -1, focusType = r.chance(.5) ? (int)r.below(5) : -1;
    size_t n = (size_t)r.range(10, tier ? 110 : 70);
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = i < 3 ? (int)CO_create : (int)r.weighted(w);
      if (o.kind == CO_mesh) {
        Op m = randomMeshOp(r, mw);
        o.a = {(u64)m.kind, m.a[0], m.a[1], m.a[2]};
      } else {
        for (int k = 0; k < 4; k++) o.a.push_back(r.next() >> 8);
        if (o.kind == CO_create) {
          if (focusKind >= 0 && r.chance(.8)) o.a[0] = (u64)focusKind;
          if (focusType >= 0 && r.chance(.8)) o.a[1] = (u64)focusType;
        }
        if (o.kind == CO_meshDeath) o.fault = 1;
      }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    World w;
    std::vector<std::unique_ptr<SlotBase>> slots;
    u64 gen = 0;
    auto newMesh = [&]() {
      Soup soup = makeManifoldSoup((int)(h.get("kind") + (i64)gen * 5), (int)h.get("size"), h.seed + gen, h.get("tri") > 0);
      gen++;
      w.mesh.reset(new ManifoldSurfaceMesh(soup.polys));
      for (auto& v : w.idOf) v.clear();
      w.hook();
      w.S = snapshotChecked(*w.mesh);
      w.sync();
    };
    newMesh();
    bool tiny = false;
    for (auto& op : h.ops) {
      ctx.steps++;
      ctx.ev((u64)op.kind);
      std::string clause = "track." + cOpNames[(size_t)op.kind];
      if (op.kind == CO_mesh) {
        if (tiny || w.S.nF > 150) continue;
        Op m;
        m.kind = (int)(arg(op, 0) % MO_COUNT);
        m.a = {arg(op, 1), arg(op, 2), arg(op, 3)};
        auto o = applyMeshOp(*w.mesh, m, ctx, false, &w.S);
        w.sync();
        for (auto& s : slots) s->sync(w);
        tiny = hasTinyFace(w.S);
        clause = "track." + meshOpNames()[(size_t)m.kind];
        if (o.applied) { ctx.count("mesh-op-applied"); ctx.nontrivial = true; }
      } else if (op.kind == CO_create) {
        if (slots.size() < 14) slots.push_back(makeSlot(w, op));
      } else if (op.kind == CO_meshDeath) {
        ctx.fault("mesh destroyed under live containers");
        w.mesh.reset();
        for (auto& s : slots) s->onMeshGone();
        for (auto& s : slots) s->check(w, "mesh-destroyed", true);
        if (arg(op, 0) % 2)
          for (size_t i = 0; i + 1 < slots.size(); i++)
            if (mix64(arg(op, 1) + i) % 2) { slots.erase(slots.begin() + (long)i); }
        newMesh();
        tiny = false;
      } else if (op.kind == CO_destroy) {
        if (!slots.empty()) slots.erase(slots.begin() + (long)(arg(op, 0) % slots.size()));
      } else if (!slots.empty()) {
        size_t i = arg(op, 0) % slots.size();
        slots[i]->act(w, op, slots, ctx);
        if (slots.size() > 20) slots.erase(slots.begin());
      }
      for (auto& s : slots) s->check(w, clause.c_str(), true);
      u64 hs = slots.size();
      for (auto& s : slots) hs = hcomb(hs, (u64)(s->kind * 64 + s->type * 4 + s->attached * 2 + s->movedFrom));
      ctx.state(hcomb(hs, w.mesh->isCompressed()));
      ctx.ev(hs);
      ctx.ev(w.S.hash());
    }
  };
  return s;
}());
} // namespace
