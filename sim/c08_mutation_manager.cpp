// C08: a MutationManager performs exactly the mutation asked for, tells every registered policy exactly once and in
// order (before with the old state, after with the new one), obeys and maintains its constraints, and places vertices.
#include "meshops.h"
#include "geometrycentral/surface/mutation_manager.h"
#include "geometrycentral/utilities/elementary_geometry.h"
#include <algorithm>
using namespace sim;

namespace {
enum Op8 { M_create, M_destroy, M_policy, M_remove, M_reposition, M_flip, M_splitT, M_splitP, M_splitTP, M_collapseT, M_collapseP, M_collapseTP, M_faceB, M_faceBP, M_faceP,
           M_constrain, M_unconstrain, M_compress, M_external, M_COUNT };
const std::vector<std::string> mNames = {"createManager", "destroyManager", "registerPolicy", "removePolicy", "repositionVertex", "flipEdge", "splitEdgeAt", "splitEdgeNear",
                                         "splitEdgeAtPosition", "collapseEdgeAt", "collapseEdgeNear", "collapseEdgeToPosition", "splitFaceAt", "splitFaceAtPosition",
                                         "splitFaceNear", "setConstraint", "clearConstraint", "compress", "directMutation"};

struct PolicyFault {};

enum Kind { K_repos, K_flip, K_split, K_collapse, K_face, K_N };

struct World;
struct Event {
  int policy;
  Kind kind;
  bool after;
};

// What the operation in progress should look like to the policies
struct Expect {
  bool active = false;
  int manager = -1;
  Kind kind = K_repos;
  size_t elem = 0;    // raw index of the vertex, edge or face
  double t = 0;
  Vector3 vec{0, 0, 0};
  std::vector<double> b;
  // after
  size_t tailV = NONE, tipV = NONE; // of the split edge
  Vector3 newPos{0, 0, 0};
  bool haveNewPos = false;
  double tol = 0;
  std::vector<Event> events;
  size_t gotHe1 = NONE, gotHe2 = NONE, gotV = NONE;
};

struct Spy;
struct Managed { // one manager and everything it is known to hold
  std::unique_ptr<MutationManager> mm;
  bool geom = true;
  struct Pol {
    int id;
    bool kinds[K_N];
    std::unique_ptr<MutationPolicyHandle> handle;
    Spy* spy = nullptr;
    int lambda = 0;
  };
  std::vector<Pol> pols; // in registration order
  // constraints: 0 reposition, 1 split, 2 collapse, 3 flip, 4 face
  bool set[5] = {0, 0, 0, 0, 0};
  bool def[5] = {1, 1, 1, 1, 1};
  std::map<size_t, bool> val[5];
  // data maintained through lambda handlers
  std::unique_ptr<VertexData<double>> lin;
  std::unique_ptr<EdgeData<int>> lab;
  std::map<size_t, double> linRef;
  std::map<size_t, int> labRef;
};

struct World {
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geo;
  Snap S;
  std::map<size_t, Vector3> pos;
  std::vector<std::unique_ptr<Managed>> ms;
  Expect ex;
  int nextPolicy = 1;
  std::set<int> alive; // spies not yet destroyed
  int throwPolicy = 0;
  bool throwAfter = false;
  bool thrown = false;
  int snapEvery = 1;

  void checkPositions(const std::map<size_t, Vector3>& want, const char* clause) {
    for (auto& p : want) {
      Vector3 q = geo->vertexPositions[Vertex(mesh.get(), p.first)];
      CHECK(std::memcmp(&q, &p.second, sizeof q) == 0, clause, "vertex %zu is at (%g %g %g), expected (%g %g %g)", p.first, q.x, q.y, q.z, p.second.x, p.second.y, p.second.z);
    }
  }
  void called(int policy, Kind k, bool after, int manager) {
    CHECK(ex.active, "callback-order", "policy %d called outside any operation", policy);
    CHECK(manager == ex.manager, "callback-order", "policy %d of another manager called", policy);
    CHECK(k == ex.kind, "callback-order", "policy %d got a callback of kind %d during an operation of kind %d", policy, (int)k, (int)ex.kind);
    ex.events.push_back({policy, k, after});
    if (after) {
      // a valid mesh, new positions in place
      if (ex.events.size() <= 2 || ex.events.size() % 4 == 0) snapshotChecked(*mesh, "after-callback: ");
    } else {
      Snap now = snapshotChecked(*mesh, "before-callback: ");
      Snap a = S;
      now.vHe = a.vHe; // which halfedge represents a vertex or face may vary
      if (k == K_flip) now.fHe = a.fHe;
      CHECK(now == a, "before-state", "the before-callback sees a changed mesh: %s", now.diff(a).c_str());
      checkPositions(pos, "before-state");
    }
    if (policy == throwPolicy && after == throwAfter) {
      thrown = true;
      throw PolicyFault();
    }
  }
  void same(size_t a, size_t b, const char* what) { CHECK(a == b, "callback-args", "callback got %s %zu, expected %zu", what, a, b); }
  void same(double a, double b) { CHECK(std::fabs(a - b) <= ex.tol, "callback-args", "callback got t = %.17g, expected %.17g", a, b); }
  void newVertexThere(size_t v) {
    CHECK(v < NONE, "callback-args", "callback got an invalid vertex");
    if (ex.haveNewPos) {
      Vector3 q = geo->vertexPositions[Vertex(mesh.get(), v)];
      double d = (q - ex.newPos).norm();
      CHECK(d <= 1e-12 * (1 + ex.newPos.norm()), "after-state", "the after-callback sees vertex %zu at (%g %g %g), expected (%g %g %g)", v, q.x, q.y, q.z, ex.newPos.x, ex.newPos.y, ex.newPos.z);
    }
  }
  void halves(Halfedge h1, Halfedge h2) {
    if (ex.gotHe1 == NONE) {
      ex.gotHe1 = h1.getIndex();
      ex.gotHe2 = h2.getIndex();
    }
    same(h1.getIndex(), ex.gotHe1, "halfedge");
    same(h2.getIndex(), ex.gotHe2, "halfedge");
    CHECK(h1.tailVertex() == h2.tailVertex(), "callback-args", "the halves of a split edge do not start at the same vertex");
    CHECK(h1.edge() != h2.edge(), "callback-args", "the halves of a split edge are the same edge");
    same(h1.tipVertex().getIndex(), ex.tipV, "first half with tip");
    same(h2.tipVertex().getIndex(), ex.tailV, "second half with tip");
    newVertexThere(h1.vertex().getIndex());
  }
};

struct Spy : public virtual MutationPolicy {
  World* w;
  int id, manager;
  Spy(World* w_, int id_, int m) : w(w_), id(id_), manager(m) { w->alive.insert(id); }
  ~Spy() override {
    w->alive.erase(id);
  }
};
struct SpyR : public virtual Spy, public VertexRepositionPolicy {
  SpyR(World* w, int id, int m) : Spy(w, id, m) {}
  void beforeVertexReposition(const Vertex& v, const Vector3& vec) override {
    w->called(id, K_repos, false, manager);
    w->same(v.getIndex(), w->ex.elem, "vertex");
    CHECK(std::memcmp(&vec, &w->ex.vec, sizeof vec) == 0, "callback-args", "reposition callback got another offset");
  }
};
struct SpyF : public virtual Spy, public EdgeFlipPolicy {
  SpyF(World* w, int id, int m) : Spy(w, id, m) {}
  void beforeEdgeFlip(const Edge& e) override {
    w->called(id, K_flip, false, manager);
    w->same(e.getIndex(), w->ex.elem, "edge");
  }
  void afterEdgeFlip(const Edge& e) override {
    w->called(id, K_flip, true, manager);
    w->same(e.getIndex(), w->ex.elem, "edge");
  }
};
struct SpyS : public virtual Spy, public EdgeSplitPolicy {
  SpyS(World* w, int id, int m) : Spy(w, id, m) {}
  void beforeEdgeSplit(const Edge& e, const double& t) override {
    w->called(id, K_split, false, manager);
    w->same(e.getIndex(), w->ex.elem, "edge");
    w->same(t, w->ex.t);
  }
  void afterEdgeSplit(const Halfedge& h1, const Halfedge& h2, const double& t) override {
    w->called(id, K_split, true, manager);
    w->same(t, w->ex.t);
    w->halves(h1, h2);
  }
};
struct SpyC : public virtual Spy, public EdgeCollapsePolicy {
  SpyC(World* w, int id, int m) : Spy(w, id, m) {}
  void beforeEdgeCollapse(const Edge& e, const double& t) override {
    w->called(id, K_collapse, false, manager);
    w->same(e.getIndex(), w->ex.elem, "edge");
    w->same(t, w->ex.t);
  }
  void afterEdgeCollapse(const Vertex& v, const double& t) override {
    w->called(id, K_collapse, true, manager);
    w->same(t, w->ex.t);
    if (w->ex.gotV == NONE) w->ex.gotV = v.getIndex();
    w->same(v.getIndex(), w->ex.gotV, "vertex");
    w->newVertexThere(v.getIndex());
  }
};
struct SpyI : public virtual Spy, public FaceSplitPolicy {
  SpyI(World* w, int id, int m) : Spy(w, id, m) {}
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override {
    w->called(id, K_face, false, manager);
    w->same(f.getIndex(), w->ex.elem, "face");
    CHECK(b == w->ex.b, "callback-args", "face split callback got other coordinates");
  }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override {
    w->called(id, K_face, true, manager);
    CHECK(b == w->ex.b, "callback-args", "face split callback got other coordinates");
    if (w->ex.gotV == NONE) w->ex.gotV = v.getIndex();
    w->same(v.getIndex(), w->ex.gotV, "vertex");
    w->newVertexThere(v.getIndex());
  }
};
struct SpyAll : public SpyR, public SpyF, public SpyS, public SpyC, public SpyI {
  SpyAll(World* w, int id, int m) : Spy(w, id, m), SpyR(w, id, m), SpyF(w, id, m), SpyS(w, id, m), SpyC(w, id, m), SpyI(w, id, m) {}
};
struct SpyFI : public SpyF, public SpyI {
  SpyFI(World* w, int id, int m) : Spy(w, id, m), SpyF(w, id, m), SpyI(w, id, m) {}
};
struct SpySC : public SpyC, public SpyS {
  SpySC(World* w, int id, int m) : Spy(w, id, m), SpyC(w, id, m), SpyS(w, id, m) {}
};

const char* conName[5] = {"repositionable", "splittable", "collapsible", "flippable", "face-splittable"};

bool mayRepos(const Managed& m, size_t v) { return !m.set[0] || m.val[0].at(v); }
bool may(const Managed& m, int c, size_t e) { return !m.set[c] || m.val[c].at(e); }
bool mayCollapse(const Managed& m, const Snap& S, size_t e) {
  size_t h = S.eHe[e];
  return may(m, 2, e) && mayRepos(m, S.vert[h]) && mayRepos(m, S.tip(h));
}

static Register reg([] {
  Scenario s;
  s.name = "mutation-manager";
  s.property = "C08";
  s.opNames = mNames;
  s.realComponents = "MutationManager, its policies and handlers, ManifoldSurfaceMesh mutations, VertexPositionGeometry (real code)";
  s.stubComponents = "user policies (simulated: they observe the state, keep data up to date, or throw when the fault plan says so)";
  s.rule = "a run builds a triangle mesh with positions and up to three managers, then registers and removes policies, sets constraints and mutates; every "
           "callback compares what it sees with the model, and after every operation mesh, positions, constraints and maintained data are compared in full";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["kind"] = (i64)r.below((u64)nManifoldKinds);
    h.cfg["size"] = r.range(1, tier ? 4 : 3);
    std::vector<double> w(M_COUNT, 1.0);
    w[M_create] = .3; w[M_destroy] = .15; w[M_policy] = 2; w[M_remove] = 1; w[M_faceP] = .1; w[M_external] = .7; w[M_compress] = .6; w[M_constrain] = 1.5;
    w[M_flip] = 3; w[M_splitT] = 2;
    if (r.chance(.5))
      for (auto& x : w) x *= r.unit() * 2;
    size_t n = (size_t)r.range(8, tier ? 60 : 36);
    h.ops.push_back({M_create, {r.next(), r.below(5), r.next()}});
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = (int)r.weighted(w);
      for (int k = 0; k < 4; k++) o.a.push_back(r.next() >> (r.below(4) * 12));
      if (fm && r.chance(.15)) {
        o.fault = 1 + (int)r.below(2);
        o.fa = r.next();
      }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Soup soup = makeManifoldSoup((int)h.get("kind"), (int)h.get("size"), h.seed, true);
    World W;
    W.mesh.reset(new ManifoldSurfaceMesh(soup.polys));
    ManifoldSurfaceMesh& mesh = *W.mesh;
    W.geo.reset(new VertexPositionGeometry(mesh));
    W.S = snapshotChecked(mesh);
    for (size_t i : W.S.vs) {
      Vector3 p = soup.pos[i];
      W.geo->vertexPositions[Vertex(&mesh, i)] = p;
      W.pos[i] = p;
    }
    struct Bye { // managers (and their policies) go before the world they report to
      World& w;
      ~Bye() { w.ms.clear(); }
    } bye{W};

    // brings the models of all managers from S to T
    auto follow = [&](const Snap& S, const Snap& T, int by, Kind kind, size_t elem, double t, const std::vector<double>& b, size_t he1, size_t he2, size_t newV, bool maintained) {
      for (size_t k = 0; k < W.ms.size(); k++) {
        Managed& m = *W.ms[k];
        Managed old;
        for (int c = 0; c < 5; c++) old.val[c] = m.val[c];
        auto lin0 = m.linRef;
        auto lab0 = m.labRef;
        auto extend = [&](auto& mp, const std::vector<size_t>& live, auto def) {
          auto n = mp;
          n.clear();
          for (size_t i : live) {
            auto it = mp.find(i);
            n[i] = it == mp.end() ? def : it->second;
          }
          mp = n;
        };
        for (int c = 0; c < 5; c++)
          if (m.set[c]) extend(m.val[c], c == 0 ? T.vs : c == 4 ? T.fs : T.es, (bool)m.def[c]);
        if (m.lin) extend(m.linRef, T.vs, -7.0);
        if (m.lab) extend(m.labRef, T.es, -3);
        if ((int)k != by) continue;
        if (kind == K_split) {
          size_t e1 = T.edge[he1], e2 = T.edge[he2];
          for (int c = 1; c <= 3; c++)
            if (m.set[c]) {
              bool o = old.val[c].at(elem);
              if (c == 2) {
                // whether an edge with a fixed vertex passes on its own flag or the fact that it may not be collapsed is not
                // specified: adopt either
                bool eff = o && mayRepos(old.set[0] ? old : m, W.ex.tailV) && mayRepos(m, W.ex.tipV);
                if (eff != o) {
                  bool a1 = m.mm->collapsibleEdges[Edge(&mesh, e1)], a2 = m.mm->collapsibleEdges[Edge(&mesh, e2)];
                  m.val[c][e1] = a1;
                  m.val[c][e2] = a2;
                  CHECK(a1 == o || a1 == eff, "constraints", "half of a split edge has an unrelated flag");
                  continue;
                }
              }
              m.val[c][e1] = m.val[c][e2] = o;
            }
          if (m.lin && maintained) m.linRef[newV] = (1 - t) * lin0.at(W.ex.tailV) + t * lin0.at(W.ex.tipV);
          if (m.lab && maintained) m.labRef[e1] = m.labRef[e2] = lab0.at(elem);
        } else if (kind == K_collapse && maintained) {
          if (m.lin) m.linRef[newV] = (1 - t) * lin0.at(W.ex.tailV) + t * lin0.at(W.ex.tipV);
        } else if (kind == K_face && maintained) {
          if (m.lin) {
            double x = 0;
            size_t i = 0;
            for (size_t hh : S.faceLoop(S.fHe[elem])) x += b[i++] * lin0.at(S.vert[hh]);
            m.linRef[newV] = x;
          }
        } else if (kind == K_flip && maintained) {
          if (m.lab) m.labRef[elem] = lab0.at(elem) + 1;
        }
      }
    };
    auto checkAll = [&] {
      W.checkPositions(W.pos, "positions");
      Vector3 q;
      (void)q;
      std::set<int> expectAlive;
      for (auto& mp : W.ms) {
        Managed& m = *mp;
        for (auto& p : m.pols)
          if (p.spy) expectAlive.insert(p.id);
        auto cmp = [&](int c, size_t i, bool got) {
          CHECK(got == (bool)m.val[c].at(i), "constraints", "%s[%zu] is %d, expected %d", conName[c], i, (int)got, (int)m.val[c].at(i));
        };
        if (m.set[0]) { for (size_t i : W.S.vs) cmp(0, i, m.mm->repositionableVertices[Vertex(&mesh, i)]); }
        if (m.set[1]) { for (size_t i : W.S.es) cmp(1, i, m.mm->splittableEdges[Edge(&mesh, i)]); }
        if (m.set[2]) { for (size_t i : W.S.es) cmp(2, i, m.mm->collapsibleEdges[Edge(&mesh, i)]); }
        if (m.set[3]) { for (size_t i : W.S.es) cmp(3, i, m.mm->flippableEdges[Edge(&mesh, i)]); }
        if (m.set[4]) { for (size_t i : W.S.fs) cmp(4, i, m.mm->splittableFaces[Face(&mesh, i)]); }
        for (size_t i : W.S.vs) CHECK(m.mm->mayRepositionVertex(Vertex(&mesh, i)) == mayRepos(m, i), "constraints", "mayRepositionVertex(%zu) is wrong", i);
        for (size_t i : W.S.es) {
          Edge e(&mesh, i);
          CHECK(m.mm->maySplitEdge(e) == may(m, 1, i), "constraints", "maySplitEdge(%zu) is wrong", i);
          CHECK(m.mm->mayCollapseEdge(e) == mayCollapse(m, W.S, i), "constraints", "mayCollapseEdge(%zu) is wrong", i);
          CHECK(m.mm->mayFlipEdge(e) == may(m, 3, i), "constraints", "mayFlipEdge(%zu) is wrong", i);
        }
        for (size_t i : W.S.fs) CHECK(m.mm->maySplitFace(Face(&mesh, i)) == may(m, 4, i), "constraints", "maySplitFace(%zu) is wrong", i);
        if (m.lin)
          for (auto& p : m.linRef) {
            double g = (*m.lin)[Vertex(&mesh, p.first)];
            CHECK(std::fabs(g - p.second) <= 1e-9 * (1 + std::fabs(p.second)), "maintained-data", "vertex value %zu kept up by handlers is %g, expected %g", p.first, g, p.second);
          }
        if (m.lab)
          for (auto& p : m.labRef) {
            int g = (*m.lab)[Edge(&mesh, p.first)];
            CHECK(g == p.second, "maintained-data", "edge label %zu kept up by handlers is %d, expected %d", p.first, g, p.second);
          }
      }
      CHECK(expectAlive == W.alive, "policy-lifetime", "%zu policies should be alive, %zu are", expectAlive.size(), W.alive.size());
    };

    for (auto& op : h.ops) {
      if (W.S.nF > 250) break;
      ctx.steps++;
      ctx.ev((u64)op.kind);
      if (op.kind == M_create) {
        if (W.ms.size() >= 3) continue;
        std::unique_ptr<Managed> m(new Managed());
        m->geom = arg(op, 1) % 5 != 0;
        if (m->geom) m->mm.reset(new MutationManager(mesh, *W.geo));
        else m->mm.reset(new MutationManager(mesh));
        if (arg(op, 2) % 3) {
          m->lin.reset(new VertexData<double>(mesh, -7.0));
          m->lab.reset(new EdgeData<int>(mesh, -3));
          for (size_t i : W.S.vs) (*m->lin)[Vertex(&mesh, i)] = m->linRef[i] = (double)(mix64(arg(op, 2) + i) % 1000) / 37.;
          for (size_t i : W.S.es) (*m->lab)[Edge(&mesh, i)] = m->labRef[i] = (int)(mix64(arg(op, 2) + i) % 1000);
          VertexData<double>* lin = m->lin.get();
          EdgeData<int>* lab = m->lab.get();
          typedef std::array<double, 3> A;
          m->mm->registerEdgeSplitHandlers(
              [lin, lab](Edge e, double t) -> A { return A{(*lin)[e.halfedge().tailVertex()], (*lin)[e.halfedge().tipVertex()], (double)(*lab)[e]}; },
              [lin, lab](Halfedge h1, Halfedge h2, double t, A a) {
                (*lin)[h1.vertex()] = (1 - t) * a[0] + t * a[1];
                (*lab)[h1.edge()] = (*lab)[h2.edge()] = (int)a[2];
              });
          m->mm->registerEdgeCollapseHandlers(
              [lin](Edge e, double t) -> A { return A{(*lin)[e.halfedge().tailVertex()], (*lin)[e.halfedge().tipVertex()], 0}; },
              [lin](Vertex v, double t, A a) { (*lin)[v] = (1 - t) * a[0] + t * a[1]; });
          m->mm->registerFaceSplitHandlers(
              [lin](Face f, const std::vector<double>& b) -> double {
                double x = 0;
                size_t i = 0;
                for (Vertex v : f.adjacentVertices()) x += b[i++] * (*lin)[v];
                return x;
              },
              [lin](Vertex v, double x) { (*lin)[v] = x; });
          m->mm->registerEdgeFlipHandlers([lab](Edge e) -> int { return (*lab)[e] + 1; }, [lab](Edge e, int x) { (*lab)[e] = x; });
        }
        W.ms.push_back(std::move(m));
        checkAll();
        continue;
      }
      if (W.ms.empty()) continue;
      int mi = (int)(arg(op, 0) % W.ms.size());
      Managed& m = *W.ms[(size_t)mi];
      MutationManager& mm = *m.mm;
      bool judged = true;

      if (op.kind == M_destroy) {
        W.ms.erase(W.ms.begin() + mi);
        // spies refer to managers by position
        if (!W.ms.empty()) {
          for (size_t k = (size_t)mi; k < W.ms.size(); k++)
            for (auto& p : W.ms[k]->pols)
              if (p.spy) p.spy->manager = (int)k;
        }
        checkAll();
        continue;
      }
      if (op.kind == M_policy) {
        if (m.pols.size() >= 6) continue;
        m.pols.emplace_back();
        Managed::Pol& p = m.pols.back();
        p.id = W.nextPolicy++;
        for (bool& k : p.kinds) k = false;
        MutationPolicy* reg = nullptr;
        World* w = &W;
        int id = p.id, mgr = mi;
        switch (arg(op, 1) % 9) {
        case 0: { auto x = new SpyR(w, id, mgr); p.spy = x; reg = (VertexRepositionPolicy*)x; p.kinds[K_repos] = true; break; }
        case 1: { auto x = new SpyF(w, id, mgr); p.spy = x; reg = (EdgeFlipPolicy*)x; p.kinds[K_flip] = true; break; }
        case 2: { auto x = new SpyS(w, id, mgr); p.spy = x; reg = (EdgeSplitPolicy*)x; p.kinds[K_split] = true; break; }
        case 3: { auto x = new SpyC(w, id, mgr); p.spy = x; reg = (EdgeCollapsePolicy*)x; p.kinds[K_collapse] = true; break; }
        case 4: { auto x = new SpyI(w, id, mgr); p.spy = x; reg = (FaceSplitPolicy*)x; p.kinds[K_face] = true; break; }
        case 5: { auto x = new SpyFI(w, id, mgr); p.spy = x; reg = (Spy*)x; p.kinds[K_flip] = p.kinds[K_face] = true; break; }
        case 6: { auto x = new SpySC(w, id, mgr); p.spy = x; reg = (Spy*)x; p.kinds[K_split] = p.kinds[K_collapse] = true; break; }
        default: { auto x = new SpyAll(w, id, mgr); p.spy = x; reg = (Spy*)x; for (bool& k : p.kinds) k = true; break; }
        }
        p.handle.reset(new MutationPolicyHandle(mm.registerPolicy(reg)));
        // sometimes one-sided lambda handlers as well
        if (arg(op, 2) % 3 == 0) {
          m.pols.emplace_back();
          Managed::Pol& l = m.pols.back();
          l.id = W.nextPolicy++;
          for (bool& k : l.kinds) k = false;
          int lid = l.id;
          Managed* mp = &m;
          auto mgrNow = [w, mp]() {
            for (size_t k = 0; k < w->ms.size(); k++)
              if (w->ms[k].get() == mp) return (int)k;
            return -1;
          };
          l.lambda = 1 + (int)(arg(op, 3) % 8);
          switch (l.lambda) {
          case 1: mm.registerEdgeFlipPreHandler([=](Edge e) { w->called(lid, K_flip, false, mgrNow()); w->same(e.getIndex(), w->ex.elem, "edge"); }); break;
          case 2: mm.registerEdgeFlipPostHandler([=](Edge e) { w->called(lid, K_flip, true, mgrNow()); w->same(e.getIndex(), w->ex.elem, "edge"); }); break;
          case 3: mm.registerEdgeSplitPreHandler([=](Edge e, double t) { w->called(lid, K_split, false, mgrNow()); w->same(e.getIndex(), w->ex.elem, "edge"); w->same(t, w->ex.t); }); break;
          case 4: mm.registerEdgeSplitPostHandler([=](Halfedge a, Halfedge b, double t) { w->called(lid, K_split, true, mgrNow()); w->same(t, w->ex.t); w->halves(a, b); }); break;
          case 5: mm.registerFaceSplitPreHandler([=](Face f, std::vector<double> b) { w->called(lid, K_face, false, mgrNow()); w->same(f.getIndex(), w->ex.elem, "face"); CHECK(b == w->ex.b, "callback-args", "other coordinates"); }); break;
          case 6: mm.registerFaceSplitPostHandler([=](Vertex v) { w->called(lid, K_face, true, mgrNow()); w->newVertexThere(v.getIndex()); }); break;
          case 7: mm.registerEdgeCollapsePreHandler([=](Edge e, double t) { w->called(lid, K_collapse, false, mgrNow()); w->same(e.getIndex(), w->ex.elem, "edge"); w->same(t, w->ex.t); }); break;
          case 8: mm.registerEdgeCollapsePostHandler([=](Vertex v, double t) { w->called(lid, K_collapse, true, mgrNow()); w->same(t, w->ex.t); w->newVertexThere(v.getIndex()); }); break;
          }
        }
        checkAll();
        continue;
      }
      if (op.kind == M_remove) {
        std::vector<size_t> c;
        for (size_t i = 0; i < m.pols.size(); i++)
          if (m.pols[i].handle) c.push_back(i);
        if (c.empty()) continue;
        size_t i = c[arg(op, 1) % c.size()];
        if (arg(op, 2) % 2) m.pols[i].handle->remove();
        else mm.removePolicy(*m.pols[i].handle);
        m.pols.erase(m.pols.begin() + (i64)i);
        checkAll();
        continue;
      }
      if (op.kind == M_constrain) {
        int c = (int)(arg(op, 1) % 5);
        bool def = arg(op, 2) % 4 != 0;
        double dens = .3 + .7 * argUnit(op, 3);
        u64 salt = arg(op, 3);
        m.set[c] = true;
        m.def[c] = def;
        m.val[c].clear();
        for (size_t i : c == 0 ? W.S.vs : c == 4 ? W.S.fs : W.S.es) m.val[c][i] = (double)(mix64(salt + i * 7) % 1000) / 1000. < dens;
        bool viaDefaultArg = def && arg(op, 2) % 3 == 0;
        auto fill = [&](auto& d, auto mk) {
          for (auto& p : m.val[c]) d[mk(p.first)] = p.second;
        };
        if (c == 0) {
          VertexData<bool> d(mesh, arg(op, 2) % 2);
          fill(d, [&](size_t i) { return Vertex(&mesh, i); });
          if (viaDefaultArg) mm.setRepositionableVertices(d); else mm.setRepositionableVertices(d, def);
          d.fill(false); // the manager has its own copy
        } else if (c == 4) {
          FaceData<bool> d(mesh, arg(op, 2) % 2);
          fill(d, [&](size_t i) { return Face(&mesh, i); });
          if (viaDefaultArg) mm.setSplittableFaces(d); else mm.setSplittableFaces(d, def);
          d.fill(false);
        } else {
          EdgeData<bool> d(mesh, arg(op, 2) % 2);
          fill(d, [&](size_t i) { return Edge(&mesh, i); });
          if (c == 1) { if (viaDefaultArg) mm.setSplittableEdges(d); else mm.setSplittableEdges(d, def); }
          if (c == 2) { if (viaDefaultArg) mm.setCollapsibleEdges(d); else mm.setCollapsibleEdges(d, def); }
          if (c == 3) { if (viaDefaultArg) mm.setFlippableEdges(d); else mm.setFlippableEdges(d, def); }
          d.fill(false);
        }
        checkAll();
        continue;
      }
      if (op.kind == M_unconstrain) {
        int c = (int)(arg(op, 1) % 5);
        m.set[c] = false;
        m.val[c].clear();
        switch (c) {
        case 0: mm.clearRepositionableVertices(); break;
        case 1: mm.clearSplittableEdges(); break;
        case 2: mm.clearCollapsibleEdges(); break;
        case 3: mm.clearFlippableEdges(); break;
        case 4: mm.clearSplittableFaces(); break;
        }
        checkAll();
        continue;
      }
      if (op.kind == M_compress) {
        Snap S = W.S;
        mesh.compress();
        W.S = snapshotChecked(mesh);
        auto ren = [&](auto& mp, const std::vector<size_t>& A, const std::vector<size_t>& B) {
          auto n = mp;
          n.clear();
          CHECK(A.size() == B.size(), "compress", "compress changed the number of elements");
          for (size_t i = 0; i < A.size(); i++)
            if (mp.count(A[i])) n[B[i]] = mp[A[i]];
          mp = n;
        };
        ren(W.pos, S.vs, W.S.vs);
        for (auto& q : W.ms) {
          for (int c = 0; c < 5; c++)
            if (q->set[c]) ren(q->val[c], c == 0 ? S.vs : c == 4 ? S.fs : S.es, c == 0 ? W.S.vs : c == 4 ? W.S.fs : W.S.es);
          ren(q->linRef, S.vs, W.S.vs);
          ren(q->labRef, S.es, W.S.es);
        }
        checkAll();
        continue;
      }
      if (op.kind == M_external) {
        // the same mesh edited behind the managers' backs: no callbacks, new elements get the containers' defaults
        Snap S = W.S;
        Edge e(&mesh, S.es[arg(op, 1) % S.es.size()]);
        W.ex = Expect();
        if (arg(op, 2) % 2) mesh.flip(e);
        else {
          Halfedge hh = mesh.splitEdgeTriangular(e);
          W.pos[hh.vertex().getIndex()] = W.geo->vertexPositions[hh.vertex()] = Vector3{argUnit(op, 3), argUnit(op, 2), 1};
        }
        W.S = snapshotChecked(mesh);
        follow(S, W.S, -1, K_flip, 0, 0, {}, 0, 0, 0, false);
        checkAll();
        continue;
      }

      // --- mutations through the manager
      const Snap S = W.S;
      Expect& ex = W.ex;
      ex = Expect();
      ex.active = true;
      ex.manager = mi;
      // the fault: one of the policies throws
      W.throwPolicy = 0;
      W.thrown = false;
      if (op.fault && !m.pols.empty()) {
        W.throwPolicy = m.pols[op.fa % m.pols.size()].id;
        W.throwAfter = op.fault == 2;
      }
      std::unique_ptr<ManifoldSurfaceMesh> direct = mesh.copy();
      bool allowed = true, directOk = true, directThrew = false;
      bool threw = false;
      std::string threwWhat;
      size_t retV = NONE, retHe = NONE, directV = NONE, directHe = NONE;
      bool ret = false;
      auto call = [&](auto f) {
        try {
          f();
        } catch (PolicyFault&) {
        } catch (std::exception& e) {
          threw = true;
          threwWhat = e.what();
        }
      };
      auto P = [&](size_t v) { return W.pos.at(v); };
      double scale = 1;
      for (auto& p : W.pos) scale = std::max(scale, p.second.norm());
      bool needsGeom = false;

      switch (op.kind) {
      case M_reposition: {
        size_t v = S.vs[arg(op, 1) % S.vs.size()];
        ex.kind = K_repos;
        ex.elem = v;
        ex.vec = Vector3{argUnit(op, 2) - .5, argUnit(op, 3) - .5, argUnit(op, 1) - .5} * .1;
        allowed = mayRepos(m, v);
        needsGeom = true;
        call([&] { ret = mm.repositionVertex(Vertex(&mesh, v), ex.vec); });
        break;
      }
      case M_flip: {
        size_t e = S.es[arg(op, 1) % S.es.size()];
        ex.kind = K_flip;
        ex.elem = e;
        allowed = may(m, 3, e);
        directOk = direct->flip(Edge(direct.get(), e));
        call([&] { ret = mm.flipEdge(Edge(&mesh, e)); });
        break;
      }
      case M_splitT:
      case M_splitP:
      case M_splitTP:
      case M_collapseT:
      case M_collapseP:
      case M_collapseTP: {
        bool split = op.kind == M_splitT || op.kind == M_splitP || op.kind == M_splitTP;
        size_t e = S.es[arg(op, 1) % S.es.size()];
        ex.kind = split ? K_split : K_collapse;
        ex.elem = e;
        ex.tailV = S.vert[S.eHe[e]];
        ex.tipV = S.tip(S.eHe[e]);
        if (!split && !simplicialStar(S, ex.tailV, ex.tipV)) { ctx.count("skip.collapse-not-simplicial"); ex.active = false; continue; }
        Vector3 a = P(ex.tailV), b = P(ex.tipV);
        double t = argUnit(op, 2);
        if (arg(op, 2) % 5 == 0) t = (arg(op, 2) / 5) % 3 * .5;
        Vector3 p = a + t * (b - a) + Vector3{argUnit(op, 3) - .5, argUnit(op, 1) - .5, 0} * (arg(op, 3) % 3 ? .2 : 3.) * (b - a).norm();
        bool byPos = op.kind == M_splitP || op.kind == M_collapseP;
        ex.t = t;
        ex.haveNewPos = m.geom;
        ex.newPos = (1 - t) * a + t * b;
        if (op.kind == M_splitTP || op.kind == M_collapseTP) ex.newPos = p;
        if (byPos) {
          needsGeom = true;
          ex.newPos = p;
          // nearest parameter on the segment
          double L = (b - a).norm2();
          ex.t = L > 0 ? dot(p - a, b - a) / L : 0;
          if (ex.t < 0) ex.t = 0;
          if (ex.t > 1) ex.t = 1;
          ex.tol = 1e-9 + 1e-12 * scale * scale / (L > 0 ? L : 1);
          if (L < 1e-12 * scale * scale) { ctx.count("skip.degenerate-edge"); ex.active = false; continue; }
        }
        allowed = split ? may(m, 1, e) : mayCollapse(m, S, e);
        try {
          if (split) {
            Halfedge hh = direct->splitEdgeTriangular(Edge(direct.get(), e));
            directHe = hh.getIndex();
          } else {
            Vertex v = direct->collapseEdgeTriangular(Edge(direct.get(), e));
            directOk = v != Vertex();
            if (directOk) directV = v.getIndex();
          }
        } catch (std::exception& x) {
          directThrew = true;
        }
        call([&] {
          Edge ee(&mesh, e);
          Halfedge hh;
          Vertex v;
          switch (op.kind) {
          case M_splitT: hh = mm.splitEdge(ee, t); break;
          case M_splitP: hh = mm.splitEdge(ee, p); break;
          case M_splitTP: hh = mm.splitEdge(ee, t, p); break;
          case M_collapseT: v = mm.collapseEdge(ee, t); break;
          case M_collapseP: v = mm.collapseEdge(ee, p); break;
          case M_collapseTP: v = mm.collapseEdge(ee, t, p); break;
          }
          if (split && hh != Halfedge()) { ret = true; retHe = hh.getIndex(); }
          if (!split && v != Vertex()) { ret = true; retV = v.getIndex(); }
        });
        break;
      }
      case M_faceB:
      case M_faceBP:
      case M_faceP: {
        size_t f = S.fs[arg(op, 1) % S.fs.size()];
        ex.kind = K_face;
        ex.elem = f;
        std::vector<size_t> vs;
        for (size_t hh : S.faceLoop(S.fHe[f])) vs.push_back(S.vert[hh]);
        double sum = 0;
        for (size_t i = 0; i < vs.size(); i++) {
          double x = .05 + (double)(mix64(arg(op, 2) + i) % 1000) / 1000.;
          ex.b.push_back(x);
          sum += x;
        }
        for (double& x : ex.b) x /= sum;
        for (size_t i = 0; i < vs.size(); i++) ex.newPos = ex.newPos + ex.b[i] * P(vs[i]);
        ex.haveNewPos = m.geom;
        if (op.kind != M_faceB) ex.newPos = ex.newPos + Vector3{.1, -.2, .3};
        allowed = may(m, 4, f);
        if (op.kind == M_faceP) {
          // documented as not implemented: must refuse without doing anything
          call([&] { ret = mm.splitFace(Face(&mesh, f), ex.newPos) != Vertex(); });
          CHECK(!ret, "refusal", "splitFace by position claims success");
          judged = false;
          break;
        }
        directV = direct->insertVertex(Face(direct.get(), f)).getIndex();
        call([&] {
          Vertex v = op.kind == M_faceB ? mm.splitFace(Face(&mesh, f), ex.b) : mm.splitFace(Face(&mesh, f), ex.b, ex.newPos);
          if (v != Vertex()) { ret = true; retV = v.getIndex(); }
        });
        break;
      }
      }
      ex.active = false;
      Snap T = snapshotChecked(mesh);
      if (directThrew) {
        CHECK(!allowed || threw || W.thrown, "refusal", "%s succeeded where the mesh operation throws", mNames[(size_t)op.kind].c_str());
        ctx.count("left-domain.mesh-operation-throws");
        break;
      }
      if (W.thrown) ctx.fault(W.throwAfter ? "policy-throws-after" : "policy-throws-before");
      bool happens = judged && allowed && directOk && !(needsGeom && !m.geom);
      if (threw) {
        CHECK(!happens, "refusal", "%s threw: %s", mNames[(size_t)op.kind].c_str(), threwWhat.c_str());
      }
      // --- who was called
      std::vector<Event> want;
      if (happens) {
        bool stop = false;
        for (int after = 0; after < 2 && !stop; after++) {
          if (after && ex.kind == K_repos) break;
          for (auto& p : m.pols) {
            bool gets = p.kinds[ex.kind];
            if (p.lambda) {
              static const Kind lk[] = {K_N, K_flip, K_flip, K_split, K_split, K_face, K_face, K_collapse, K_collapse};
              gets = lk[p.lambda] == ex.kind && (p.lambda % 2 == 0) == (bool)after;
            }
            if (!gets) continue;
            want.push_back({p.id, ex.kind, (bool)after});
            if (p.id == W.throwPolicy && W.throwAfter == (bool)after) {
              stop = true;
              break;
            }
          }
        }
      }
      if (!happens && allowed && ex.kind == K_collapse && !directOk) {
        // a collapse which turns out to be impossible may have been announced (documented), but never confirmed
        for (auto& e : ex.events) CHECK(!e.after, "callback-order", "policy %d told about a collapse which did not happen", e.policy);
      } else {
        bool eq = want.size() == ex.events.size();
        for (size_t i = 0; eq && i < want.size(); i++) eq = want[i].policy == ex.events[i].policy && want[i].after == ex.events[i].after;
        if (!eq) {
          std::string a, b;
          for (auto& e : want) a += " " + std::to_string(e.policy) + (e.after ? "+" : "-");
          for (auto& e : ex.events) b += " " + std::to_string(e.policy) + (e.after ? "+" : "-");
          CHECK(false, "callback-order", "%s: callbacks (policy, - before, + after) were%s, expected%s", mNames[(size_t)op.kind].c_str(), b.c_str(), a.c_str());
        }
      }
      // --- what happened to the mesh
      bool changed = happens && !(W.thrown && !W.throwAfter);
      if (!changed) {
        Snap a = S;
        a.vHe = T.vHe;
        if (ex.kind == K_flip) a.fHe = T.fHe;
        CHECK(T == a, "refusal", "%s was refused but changed the mesh: %s", mNames[(size_t)op.kind].c_str(), T.diff(a).c_str());
        CHECK(!ret, "refusal", "%s reports success although it %s", mNames[(size_t)op.kind].c_str(), allowed ? "is impossible" : "is forbidden by a constraint");
        W.S = T;
        ctx.count(allowed ? "refused.impossible" : "refused.constraint");
        checkAll();
        continue;
      }
      Snap D = ex.kind == K_repos ? S : snapshotChecked(*direct, "direct: ");
      D.vHe = T.vHe;
      CHECK(T == D, "same-mutation", "%s differs from the mesh operation: %s", mNames[(size_t)op.kind].c_str(), T.diff(D).c_str());
      if (!W.thrown) {
        CHECK(ret, "return-value", "%s happened but reports failure", mNames[(size_t)op.kind].c_str());
        if (directHe != NONE) CHECK(retHe == directHe, "return-value", "%s returned halfedge %zu, expected %zu", mNames[(size_t)op.kind].c_str(), retHe, directHe);
        if (directV != NONE) CHECK(retV == directV, "return-value", "%s returned vertex %zu, expected %zu", mNames[(size_t)op.kind].c_str(), retV, directV);
      }
      // positions
      size_t newV = directV != NONE ? directV : directHe != NONE ? T.vert[directHe] : NONE;
      size_t he2 = NONE;
      if (ex.kind == K_split) {
        CHECK(T.tip(directHe) == ex.tipV, "return-value", "the halfedge returned by splitEdge does not point along the old edge");
        // the other half, from the new vertex back
        for (size_t hh : T.hes)
          if (T.vert[hh] == newV && T.tip(hh) == ex.tailV && T.edge[hh] != T.edge[directHe]) he2 = hh;
        CHECK(he2 != NONE, "same-mutation", "no second half after the split");
        if (ex.gotHe1 != NONE) {
          CHECK(ex.gotHe1 == directHe, "callback-args", "callback got halfedge %zu, the result is %zu", ex.gotHe1, directHe);
        }
      }
      if ((ex.kind == K_collapse || ex.kind == K_face) && ex.gotV != NONE) CHECK(ex.gotV == newV, "callback-args", "callback got vertex %zu, the result is %zu", ex.gotV, newV);
      std::map<size_t, Vector3> np;
      for (size_t v : T.vs)
        if (W.pos.count(v)) np[v] = W.pos[v];
      if (ex.kind == K_repos) {
        np[ex.elem] = W.pos[ex.elem] + ex.vec;
      } else if (newV != NONE) {
        Vector3 q = W.geo->vertexPositions[Vertex(&mesh, newV)];
        if (m.geom) {
          double d = (q - ex.newPos).norm();
          CHECK(d <= 1e-12 * scale, "positions", "%s put the vertex at (%g %g %g), expected (%g %g %g)", mNames[(size_t)op.kind].c_str(), q.x, q.y, q.z, ex.newPos.x, ex.newPos.y, ex.newPos.z);
          np[newV] = q;
        } else {
          if (!np.count(newV)) { // a connectivity-only manager leaves placing it to the user
            np[newV] = W.geo->vertexPositions[Vertex(&mesh, newV)] = ex.newPos;
          }
        }
      }
      W.pos = np;
      W.S = T;
      follow(S, T, mi, ex.kind, ex.elem, ex.t, ex.b, directHe, he2, newV, true);
      ctx.nontrivial = true;
      ctx.count(std::string("done.") + mNames[(size_t)op.kind]);
      checkAll();
      u64 st = hcomb(W.S.hash(), m.pols.size() * 8 + W.ms.size());
      for (int c = 0; c < 5; c++) st = hcomb(st, m.set[c]);
      ctx.state(st);
      ctx.ev(st);
      if (hasTinyFace(W.S)) break;
    }
  };
  return s;
}());
} // namespace
