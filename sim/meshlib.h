// Mesh generators, snapshots of connectivity through the public API, and an independent validity oracle.
#pragma once
#include "core.h"

#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "geometrycentral/surface/vertex_position_geometry.h"

namespace sim {
using namespace geometrycentral;
using namespace geometrycentral::surface;

struct Soup {
  std::vector<std::vector<size_t>> polys;
  std::vector<Vector3> pos;
  std::string name;
};

// families of manifold inputs; `kind` modulo nManifoldKinds
extern const int nManifoldKinds;
Soup makeManifoldSoup(int kind, int size, u64 seed, bool triangles = false);
// general (possibly nonmanifold, unoriented) inputs
Soup makeGeneralSoup(int kind, int size, u64 seed);
extern const int nGeneralKinds;
void triangulateSoup(Soup& s);
void compactSoup(Soup& s); // drop unused vertices
bool soupIsManifold(const Soup& s);

const size_t NONE = (size_t)-1;

// Everything observable about connectivity, keyed by raw element index
struct Snap {
  size_t nHe = 0, nInt = 0, nExt = 0, nC = 0, nE = 0, nV = 0, nF = 0, nBL = 0;
  std::vector<size_t> hes, vs, es, fs, bls; // live indices in iteration order
  std::vector<size_t> next, sib, vert, edge, face; // by halfedge index; face: index, or FB + boundary loop index
  std::vector<char> orient, interior;
  std::vector<size_t> vHe, eHe, fHe, bHe;
  static const size_t FB = (size_t)1 << 40;
  u64 hash() const;
  bool operator==(const Snap& o) const;
  std::string diff(const Snap& o) const;
  size_t tip(size_t he) const { return vert[next[he]]; }
  std::vector<size_t> faceLoop(size_t he) const { // halfedges around, starting at he
    std::vector<size_t> r;
    size_t h = he;
    do {
      r.push_back(h);
      h = next[h];
    } while (h != he && r.size() < 100000);
    return r;
  }
  size_t degree(size_t he) const { return faceLoop(he).size(); }
  i64 euler() const { return (i64)nV - (i64)nE + (i64)nF; }
  size_t components() const;
};

// Takes the snapshot and checks every structural rule of the mesh on the way (clauses prefixed by `pre`).
Snap snapshotChecked(SurfaceMesh& mesh, const char* pre = "");
// canonical form independent of indices: for comparing across compress/copies given explicit maps
void checkIsomorphic(const Snap& a, const Snap& b, const std::vector<size_t>& heMap, const std::vector<size_t>& vMap,
                     const std::vector<size_t>& eMap, const std::vector<size_t>& fMap, const std::vector<size_t>& blMap,
                     const char* clause);
} // namespace sim
namespace sim {
// Derived whole-mesh queries (dense index maps, face lists, status maps, connecting edges), checked against a snapshot
void checkDerived(SurfaceMesh& mesh, const Snap& S, u64 salt);
} // namespace sim
