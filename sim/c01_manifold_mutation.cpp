// C01: every history of mutations of a ManifoldSurfaceMesh keeps it a valid oriented manifold, with documented effects.
#include "meshops.h"
using namespace sim;

static std::vector<double> mix(Rng& r) {
  std::vector<double> w(MO_COUNT, 1.0);
  switch (r.below(6)) {
  case 0: break;
  case 1: for (auto& x : w) x = r.unit() * r.unit(); break;
  case 2: w = {1, 2, 2, 0, 4, 3, 0, 1, 0, 0, 0, 1, 1}; break;           // triangle remeshing style
  case 3: w = {2, 0, 1, 4, 1, 0, 4, 2, 1, 0, 1, 1, 1}; break;           // polygon surgery
  case 4: w = {0, 1, 1, 0, 2, 2, 0, 0, 5, 5, 1, 1, 1}; break;           // boundary surgery
  default: w = {1, 1, 1, 2, 2, 6, 3, 4, 2, 1, 0, 1, 2}; break;          // deletion heavy
  }
  return w;
}

static Register reg([] {
  Scenario s;
  s.name = "manifold-mutation";
  s.property = "C01";
  s.opNames = meshOpNames();
  s.realComponents = "ManifoldSurfaceMesh / SurfaceMesh construction, mutation, compression, iteration, validateConnectivity (real code)";
  s.stubComponents = "";
  s.rule = "a run builds one of 16 mesh families and applies 6-60 operations; after every operation the whole mesh is re-derived through the public "
           "API and compared with the operation's documented effect";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    h.cfg["kind"] = (i64)r.below((u64)nManifoldKinds);
    h.cfg["size"] = r.range(1, tier ? 5 : 4);
    h.cfg["tri"] = (i64)r.below(3);
    size_t n = (size_t)r.range(6, tier ? 60 : 36);
    auto w = mix(r);
    for (size_t i = 0; i < n; i++) {
      if (r.chance(.05)) w = mix(r);
      h.ops.push_back(randomMeshOp(r, w));
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Soup soup = makeManifoldSoup((int)h.get("kind"), (int)h.get("size"), h.seed, h.get("tri") > 0);
    CHECK(soupIsManifold(soup), "harness", "generator made a nonmanifold soup %s", soup.name.c_str());
    ManifoldSurfaceMesh mesh(soup.polys);
    Snap S = snapshotChecked(mesh);
    // construction: faces in input order with the input's vertices
    CHECK(S.nF == soup.polys.size() && S.nV == soup.pos.size(), "construct", "counts after construction");
    for (size_t f = 0; f < soup.polys.size(); f++) {
      std::vector<size_t> got;
      for (Vertex v : mesh.face(f).adjacentVertices()) got.push_back(v.getIndex());
      CHECK(got == soup.polys[f], "construct", "face %zu does not have its input vertices in order", f);
    }
    size_t nth = 0;
    for (auto& op : h.ops) {
      if (S.nF > 400) break;
      applyMeshOp(mesh, op, ctx, true, &S);
      if (nth++ % 3 == 0 && S.nF > 0) checkDerived(mesh, S, op.a.empty() ? 1 : op.a[0]);
      if (hasTinyFace(S)) { ctx.count("left-domain.tiny-face"); break; }
    }
  };
  return s;
}());
