// The table of geometric quantities (c05_geometry.cpp), for scenarios which need to require, drop or probe them.
#pragma once
#include "geometrycentral/surface/intrinsic_geometry_interface.h"
#include <cstddef>
namespace sim {
size_t qCount();
const char* qName(size_t i);
bool qDefined(size_t i, bool positions); // on manifold triangle meshes
void qRequire(size_t i, geometrycentral::surface::IntrinsicGeometryInterface& g);
void qUnrequire(size_t i, geometrycentral::surface::IntrinsicGeometryInterface& g);
bool qHave(size_t i, geometrycentral::surface::IntrinsicGeometryInterface& g);
bool qScalar(size_t i);
} // namespace sim
