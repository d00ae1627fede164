// Mutation operations on a ManifoldSurfaceMesh, scheduled by (kind, args), with their documented effects as oracles.
#pragma once
#include "meshlib.h"
namespace sim {

enum MeshOp {
  MO_insertVertexAlongEdge, MO_splitEdge, MO_insertVertex, MO_connectVertices, MO_flip, MO_collapse, MO_removeEdge,
  MO_removeVertex, MO_removeFaceAlongBoundary, MO_separateEdge, MO_switchSides, MO_triangulate, MO_compress, MO_COUNT
};
const std::vector<std::string>& meshOpNames();

struct MeshOpOutcome {
  bool applied = false;  // changed the mesh
  bool refused = false;  // the library declined (return value or exception)
  bool skipped = false;  // outside the documented domain, not called
  std::string what;
};
// Runs one operation. With `check`, verifies the documented effect against snapshots (clauses), and `S` (in: snapshot
// before, out: snapshot after). Without, just applies it.
MeshOpOutcome applyMeshOp(ManifoldSurfaceMesh& mesh, const Op& op, Ctx& ctx, bool check, Snap* S = nullptr);
// generation helper: a weighted op mix; args are 3 raw 64-bit values
Op randomMeshOp(Rng& r, const std::vector<double>& weights);
// faces with fewer than three sides are outside what the library accepts as a mesh; histories stop there
bool hasTinyFace(const Snap& S);
// all faces around a and b are triangles, and the closed star of {a,b} is a simplicial complex: the meshes edge
// collapses are defined for
bool simplicialStar(const Snap& S, size_t a, size_t b);
} // namespace sim
