// A triangle mesh with positions that evolves through edits and is left uncompressed, for running algorithms on it, plus
// equivalent worlds (compressed copy, scaled and rotated, edge lengths only) with a correspondence of their elements.
#pragma once
#include "meshops.h"
#include "quantities.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
namespace sim {

enum AlgShape { AS_grid, AS_disk, AS_sphere, AS_torus, AS_terrain, AS_prism, AS_annulus, AS_COUNT };

// one realization: a mesh, a geometry, and its elements in the common order
struct View {
  ManifoldSurfaceMesh* mesh = nullptr;
  IntrinsicGeometryInterface* geom = nullptr;
  VertexPositionGeometry* vpg = nullptr; // null for an edge-length realization
  std::vector<Vertex> V;
  std::vector<Edge> E;
  std::vector<Face> F;
  std::vector<Halfedge> H;
  double scale = 1;
  std::unique_ptr<ManifoldSurfaceMesh> ownMesh;
  std::unique_ptr<IntrinsicGeometryInterface> ownGeom;
  void index();
  template <class T> std::vector<T> dense(const VertexData<T>& d) const {
    std::vector<T> r;
    for (Vertex v : V) r.push_back(d[v]);
    return r;
  }
};

struct AlgWorld {
  int shape = 0;
  bool flat = false; // in the xy-plane of `frame`
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geom;
  std::vector<int> userReq;
  Vector3 X{1, 0, 0}, Y{0, 1, 0}, N{0, 0, 1};

  void build(const History& h);
  // an edit drawn from (a0,a1,a2), refused when it would spoil the shape of a triangle or leave simplicial meshes
  bool edit(u64 a0, u64 a1, u64 a2, Ctx& ctx);
  bool good(double minAngleDeg = 6) const; // simplicial, no bad triangles
  View self();
  View compressed() const;
  View transformed(u64 salt) const; // compressed, scaled by a power of two and rotated, translated
  View lengthsOnly() const;

  bool requireSome(u64 a, Ctx& ctx);
  void unrequireSome(u64 a);
  void checkHeld(const char* clause, const char* after); // purge, and nothing is kept beyond what the user requires
};
double triMinAngle(Vector3 a, Vector3 b, Vector3 c); // degrees
enum { AE_flip, AE_split, AE_insert, AE_collapse, AE_move, AE_cut, AE_compress, AE_COUNT };
} // namespace sim
