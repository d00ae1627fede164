From b64137b026a8b11170c41f4b1c19e0989ddf7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 001/109] fix: separateEdge() left nInteriorHalfedges() and
 nCorners() one too high

---
 src/surface/manifold_surface_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..4a6b2af 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -743,6 +743,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vA.getIndex()] = he.getIndex();
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
 
+    nInteriorHalfedgesCount--; // heT used to be interior, and now lies along the boundary
+
     modificationTick++;
     return std::tuple<Halfedge, Halfedge>{he, heN1};
   }
@@ -789,6 +791,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
     vHalfedgeArr[vN.getIndex()] = he.getIndex();
 
+    nInteriorHalfedgesCount--; // heT used to be interior, and now lies along the boundary
+
     ensureEdgeHasInteriorHalfedge(he.edge());
 
     std::tuple<Halfedge, Halfedge> result{he.edge().halfedge(), heN1};
-- 
2.43.0


From e0fc826be36ff5776d31132ecc663debb147cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 002/109] fix: removeFaceAlongBoundary() left wrong halfedge
 counts, and corrupted the mesh for faces of degree > 3

---
 src/surface/manifold_surface_mesh.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 4a6b2af..b369371 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1360,14 +1360,19 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     Face bLoop = heT.face();
 
 
-    // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
-      return false;
+    // Opposite vertices must be distinct and not boundary vertices or this creates a nonmanifold mesh (imagine
+    // hourglass)
+    std::unordered_set<Vertex> oppVertices;
+    for (Halfedge he = heBNext.next(); he != heB; he = he.next()) {
+      if (he.vertex().isBoundary() || !oppVertices.insert(he.vertex()).second) {
+        return false;
+      }
     }
 
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--;
     }
 
     // Next refs
@@ -1376,7 +1381,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
     // Vertex halfedges
     vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Vertex v : oppVertices) {
+      ensureVertexHasBoundaryHalfedge(v);
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 2edc431d694dc7a74febdd55fa937306c668cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 003/109] fix: genus() was wrong for surfaces with more than
 one boundary loop

---
 src/surface/manifold_surface_mesh.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index b369371..a9a1828 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -519,9 +519,8 @@ int ManifoldSurfaceMesh::eulerCharacteristic() const {
 }
 
 int ManifoldSurfaceMesh::genus() const {
-  int chi = eulerCharacteristic();
-  int boundaryLoops = nBoundaryLoops();
-  return (2 - boundaryLoops - chi) / 2;
+  int chi = eulerCharacteristic(); // note: boundary loops are already counted as faces here
+  return (2 - chi) / 2;
 }
 
 
-- 
2.43.0


From 8b45acda7c698947ab42c8af834591af2f6a3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 004/109] fix: compress() reversed the data of BoundaryLoopData
 on meshes with several boundary loops

---
 src/surface/surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..dd9e064 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1891,6 +1891,8 @@ void SurfaceMesh::compressFaces() {
   for (auto& f : facePermuteCallbackList) {
     f(newIndMap);
   }
+  // boundary loops are stored from the back of the array, so they were visited in decreasing index order above
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end());
   for (auto& f : boundaryLoopPermuteCallbackList) {
     f(newBLIndMap);
   }
-- 
2.43.0


From 21b812f5bad2742e0c6e8491291a3eb48c694fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 005/109] fix: collapseEdgeTriangular() deleted a vertex which
 is not on the collapsed edge when collapsing an ear

---
 src/surface/manifold_surface_mesh.cpp | 36 ++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9a1828..b378bd3 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1057,10 +1057,6 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
   if (e.isBoundary()) {
     // Gather some values
     Halfedge heA0 = e.halfedge();
-    if (heA0.vertex().degree() == 2) {
-      heA0 = heA0.next().next();
-      e = heA0.edge();
-    }
 
     // check if edge is part of a 'pinch' triangle
     if (heA0.twin().next().next().next() == heA0.twin()) {
@@ -1102,6 +1098,38 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     Halfedge heB0next = heB0.next();
     Face fB = heB0.face(); // boundary loop
 
+    // Special case: vA is the tip of an ear, so there is no face across heA2. Keep vA, and remove vB instead.
+    if (!heC2.isInterior()) {
+      Halfedge heD1 = heA1.twin();
+      Halfedge heD2 = heD1.next();
+      Halfedge heD0 = heD1.prevOrbitFace();
+      Face fD = heD1.face();
+
+      // Reassign connections
+      vHalfedgeArr[vA.getIndex()] = heB0prev.twin().getIndex();
+      std::vector<Halfedge> toReassignVertexB;
+      for (Halfedge he : vB.outgoingHalfedges()) {
+        toReassignVertexB.push_back(he);
+      }
+      for (Halfedge he : toReassignVertexB) {
+        heVertexArr[he.getIndex()] = vA.getIndex();
+      }
+      heNextArr[heD0.getIndex()] = heA2.getIndex();
+      heNextArr[heA2.getIndex()] = heD2.getIndex();
+      heNextArr[heB0prev.getIndex()] = heB0next.getIndex();
+      heFaceArr[heA2.getIndex()] = fD.getIndex();
+      fHalfedgeArr[fD.getIndex()] = heA2.getIndex();
+      fHalfedgeArr[fB.getIndex()] = heB0next.getIndex();
+
+      // Actually delete
+      deleteEdgeBundle(e);
+      deleteEdgeBundle(heA1.edge());
+      deleteElement(vB);
+      deleteElement(fA);
+
+      return vA;
+    }
+
     // Reassign connections
     std::vector<Halfedge> toReassignVertex;
     for (Halfedge he : vA.outgoingHalfedges()) {
-- 
2.43.0


From 6a39e7976fb31274b6c1a89b0a3be1089640edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 006/109] fix: separateEdge() corrupted (or looped forever on)
 meshes with non-triangular faces

---
 src/surface/manifold_surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index b378bd3..efcee32 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -776,7 +776,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
-- 
2.43.0


From 94674ccdde2e624571ab93fd59097444a7b370d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 007/109] fix: flip() created self edges even with
 preventSelfEdges=true

---
 src/surface/surface_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index dd9e064..bf79b35 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,6 +878,9 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
+    // If enabled, make sure it would not be a self edge
+    if (vc == vd) return false;
+
     // If enabled, make sure it is not a duplicate
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
-- 
2.43.0


From 66899c0bd4a2fcb2e45bd54d19fd18bae2c9ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 008/109] fix: insertVertexAlongEdge() corrupted the mesh when
 the edge ends at a degree-1 vertex

---
 src/surface/manifold_surface_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index efcee32..be43cfc 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -574,13 +574,16 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
   heFaceArr[heANew.getIndex()] = fA.getIndex();
 
   // New halfedge B
-  heNextArr[heBNew.getIndex()] = heBNext.getIndex();
+  bool bottomIsDangling = (heBNext == heACenter); // oldVBottom is a degree-1 vertex inside of a face
+  heNextArr[heBNew.getIndex()] = bottomIsDangling ? heANew.getIndex() : heBNext.getIndex();
   heVertexArr[heBNew.getIndex()] = newV.getIndex();
   heFaceArr[heBNew.getIndex()] = fB.getIndex();
 
   // Fix pointers for old halfedges
   heNextArr[heBCenter.getIndex()] = heBNew.getIndex();
-  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  if (!bottomIsDangling) {
+    heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  }
   heVertexArr[heACenter.getIndex()] = newV.getIndex();
 
   // Only set this if we broke it, to preseve boundary convention
-- 
2.43.0


From e06ee8e868edcf9d1d3c2c8436fb80ce2aa9e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 009/109] fix: removeVertex() created a face of degree 1 when
 removing a degree-1 vertex inside of a self-edge triangle

---
 src/surface/manifold_surface_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index be43cfc..1da58ff 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1625,6 +1625,9 @@ Face ManifoldSurfaceMesh::removeVertex(Vertex v) {
     std::reverse(ringHalfedges.begin() + iStart, ringHalfedges.begin() + iEnd);
   }
 
+  // The remaining face must have at least two sides
+  if (ringHalfedges.size() < 2) return Face();
+
   Face keepFace = toRemove[0].face();
 
   { // Hook up next for the halfedges along the ring
-- 
2.43.0


From d2609586f93e525d20e1b5d0dd7c311a3d255520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 010/109] fix: moved-from MeshData containers stayed registered
 with the mesh without a buffer

A later compress() read out of bounds of the (empty) buffer of the moved-from container.
---
 include/geometrycentral/utilities/mesh_data.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..9c6b768 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,10 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+
+  // the moved-from container no longer has a buffer which could be kept in sync with the mesh
+  other.deregisterWithMesh();
+  other.mesh = nullptr;
 }
 
 
@@ -64,12 +68,18 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
+
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
 
+  // the moved-from container no longer has a buffer which could be kept in sync with the mesh
+  other.deregisterWithMesh();
+  other.mesh = nullptr;
+
   return *this;
 }
 
-- 
2.43.0


From ce33efbb2ee60035f813998d9708d5f5ae9b752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 011/109] fix: arithmetic on MeshData containers operated on
 unused slots of the buffers

This read/wrote out of bounds where the buffers of the operands have different sizes (BoundaryLoopData on a mesh which
has grown), raised SIGFPE for integer division by a container whose live entries are all nonzero, and made the value of
new elements differ from the default value of the resulting container.
---
 include/geometrycentral/utilities/mesh_data.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.h b/include/geometrycentral/utilities/mesh_data.h
index 70a7555..b2aa53f 100644
--- a/include/geometrycentral/utilities/mesh_data.h
+++ b/include/geometrycentral/utilities/mesh_data.h
@@ -134,7 +134,7 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(OP std::declval<T>())> operator OP(const MeshData<E, T>& lhs) {                                 \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(OP std::declval<T>())> result(*lhs.getMesh());                                                \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = OP lhs.raw()[i];                             \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = OP lhs[e];                                               \
     return result;                                                                                                     \
   }
 
@@ -145,21 +145,21 @@ void checkMeshValid(const MeshData<E, T>& val);
                                                                             const MeshData<E, U>& rhs) {               \
     checkMeshCompatible(lhs, rhs);                                                                                     \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs.raw()[i];                \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs[e];                                        \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const MeshData<E, T>& lhs, const U& rhs) { \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs;                         \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs;                                           \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const T& lhs, const MeshData<E, U>& rhs) { \
     checkMeshValid(rhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*rhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < rhs.raw().rows(); i++) result.raw()[i] = lhs OP rhs.raw()[i];                         \
+    for (E e : iterateElements<E>(rhs.getMesh())) result[e] = lhs OP rhs[e];                                           \
     return result;                                                                                                     \
   }
 
@@ -170,13 +170,13 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs,                   \
                                                                                 const MeshData<E, U>& rhs) {           \
     checkMeshCompatible(lhs, rhs);                                                                                     \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs.raw()[i];                              \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs[e];                                                \
     return lhs;                                                                                                        \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs, const U& rhs) {   \
     checkMeshValid(lhs);                                                                                               \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs;                                       \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs;                                                   \
     return lhs;                                                                                                        \
   }
 
-- 
2.43.0


From c27cd031e25e4d1cca22f94a8cc6b6cc43256962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 012/109] fix: setDefault() on a container without elements did
 not apply to the first element created later

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 9c6b768..7b599ac 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -281,11 +281,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t firstUnused = 0;
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    firstUnused = std::max(firstUnused, e.getIndex() + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = firstUnused; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From 3460929ea89c76488f028b389f4c0fc69612cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 013/109] fix: duplicateFace() did not count the new halfedges
 as interior

nInteriorHalfedges() and nCorners() were too low, nExteriorHalfedges() too high afterwards.
---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index bf79b35..4d8dec3 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From 9269af1b986c973ad9c79a5abdb158009c909fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:40 +0000
Subject: [PATCH 014/109] fix: nConnectedComponents() was wrong on general
 meshes

On boundary edges and edges between inconsistently oriented faces, both halfedges start at the same vertex.
---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d8dec3..4509d3f 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.firstVertex()], vertInd[e.secondVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From cdd558001a3c3024172c26ee42ff137e41cbe5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 015/109] fix: polygonGradientMatrix was the negative gradient,
 which also flipped the sign of polygon signed distances

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..e94c56a 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -882,7 +882,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::polygonPerFaceGradientMatrix(const Fa
   double A = faceAreas[f];
   Vector3 n = faceNormals[f];
   Eigen::Vector3d N = {n[0], n[1], n[2]};
-  return 1. / A * bracket(N) * polygonCoGradientMatrix(f);
+  return -1. / A * bracket(N) * polygonCoGradientMatrix(f);
 }
 
 Eigen::MatrixXd EmbeddedGeometryInterface::polygonCoGradientMatrix(const Face& f) {
-- 
2.43.0


From 9511e648b99741019dd8350f72960240d633cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 016/109] fix: MeshData left dangling callbacks on the mesh
 when an allocation failed during construction or assignment

---
 include/geometrycentral/utilities/mesh_data.h |  6 +-
 .../geometrycentral/utilities/mesh_data.ipp   | 72 +++++++++++++------
 2 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.h b/include/geometrycentral/utilities/mesh_data.h
index b2aa53f..20d3861 100644
--- a/include/geometrycentral/utilities/mesh_data.h
+++ b/include/geometrycentral/utilities/mesh_data.h
@@ -54,7 +54,11 @@ protected:
   std::list<std::function<void(size_t)>>::iterator expandCallbackIt;
   std::list<std::function<void(const std::vector<size_t>&)>>::iterator permuteCallbackIt;
   std::list<std::function<void()>>::iterator deleteCallbackIt;
-  void registerWithMesh();
+  std::function<void(size_t)> makeExpandCallback();
+  std::function<void(const std::vector<size_t>&)> makePermuteCallback();
+  std::function<void()> makeDeleteCallback();
+  void registerWithMesh();                        // if this throws, nothing has been registered
+  void takeRegistrationFrom(MeshData<E, T>& other); // never allocates
   void deregisterWithMesh();
 
 public:
diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 7b599ac..96fe2c6 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -47,21 +47,16 @@ MeshData<E, T>::MeshData(const MeshData<E, T>& other)
 template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
-  registerWithMesh();
-
   // the moved-from container no longer has a buffer which could be kept in sync with the mesh
-  other.deregisterWithMesh();
-  other.mesh = nullptr;
+  takeRegistrationFrom(other);
 }
 
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
-  deregisterWithMesh();
-  mesh = other.mesh;
-  defaultValue = other.defaultValue;
-  data = other.data;
-  registerWithMesh();
+  // Copy first, so this container is untouched if copying fails
+  MeshData<E, T> newData(other);
+  *this = std::move(newData);
 
   return *this;
 }
@@ -74,11 +69,9 @@ MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
-  registerWithMesh();
 
   // the moved-from container no longer has a buffer which could be kept in sync with the mesh
-  other.deregisterWithMesh();
-  other.mesh = nullptr;
+  takeRegistrationFrom(other);
 
   return *this;
 }
@@ -90,13 +83,10 @@ MeshData<E, T>::~MeshData() {
 
 
 template <typename E, typename T>
-void MeshData<E, T>::registerWithMesh() {
-
-  // Used during default initialization
-  if (mesh == nullptr) return;
+std::function<void(size_t)> MeshData<E, T>::makeExpandCallback() {
 
   // Callback function on expansion
-  std::function<void(size_t)> expandFunc = [&](size_t newSize) {
+  return [this](size_t newSize) {
     size_t oldSize = data.size();
     Eigen::Matrix<T, Eigen::Dynamic, 1> newData(newSize);
     for (size_t i = 0; i < oldSize; i++) {
@@ -107,10 +97,13 @@ void MeshData<E, T>::registerWithMesh() {
     }
     data = newData;
   };
+}
 
+template <typename E, typename T>
+std::function<void(const std::vector<size_t>&)> MeshData<E, T>::makePermuteCallback() {
 
   // Callback function on compression
-  std::function<void(const std::vector<size_t>&)> permuteFunc = [this](const std::vector<size_t>& perm) {
+  return [this](const std::vector<size_t>& perm) {
     // inline applyPermutation() for Eigen vectors
     Eigen::Matrix<T, Eigen::Dynamic, 1> newData(perm.size());
     for (size_t i = 0; i < perm.size(); i++) {
@@ -118,17 +111,52 @@ void MeshData<E, T>::registerWithMesh() {
     }
     data = newData;
   };
+}
 
+template <typename E, typename T>
+std::function<void()> MeshData<E, T>::makeDeleteCallback() {
 
   // Callback function on mesh delete
-  std::function<void()> deleteFunc = [this]() {
+  return [this]() {
     // Ensures that we don't try to remove with iterators on deconstruct of this object
     mesh = nullptr;
   };
+}
+
+template <typename E, typename T>
+void MeshData<E, T>::registerWithMesh() {
+
+  // Used during default initialization
+  if (mesh == nullptr) return;
+
+  // Allocate all list nodes before linking any of them in, so the mesh never keeps a callback to a container whose
+  // registration failed
+  std::list<std::function<void(size_t)>> expandNode{makeExpandCallback()};
+  std::list<std::function<void(const std::vector<size_t>&)>> permuteNode{makePermuteCallback()};
+  std::list<std::function<void()>> deleteNode{makeDeleteCallback()};
+
+  expandCallbackIt = expandNode.begin();
+  permuteCallbackIt = permuteNode.begin();
+  deleteCallbackIt = deleteNode.begin();
 
-  expandCallbackIt = getExpandCallbackList<E>(mesh).insert(getExpandCallbackList<E>(mesh).begin(), expandFunc);
-  permuteCallbackIt = getPermuteCallbackList<E>(mesh).insert(getPermuteCallbackList<E>(mesh).end(), permuteFunc);
-  deleteCallbackIt = mesh->meshDeleteCallbackList.insert(mesh->meshDeleteCallbackList.end(), deleteFunc);
+  getExpandCallbackList<E>(mesh).splice(getExpandCallbackList<E>(mesh).begin(), expandNode);
+  getPermuteCallbackList<E>(mesh).splice(getPermuteCallbackList<E>(mesh).end(), permuteNode);
+  mesh->meshDeleteCallbackList.splice(mesh->meshDeleteCallbackList.end(), deleteNode);
+}
+
+template <typename E, typename T>
+void MeshData<E, T>::takeRegistrationFrom(MeshData<E, T>& other) {
+  if (mesh == nullptr) return;
+
+  expandCallbackIt = other.expandCallbackIt;
+  permuteCallbackIt = other.permuteCallbackIt;
+  deleteCallbackIt = other.deleteCallbackIt;
+
+  *expandCallbackIt = makeExpandCallback();
+  *permuteCallbackIt = makePermuteCallback();
+  *deleteCallbackIt = makeDeleteCallback();
+
+  other.mesh = nullptr;
 }
 
 template <typename E, typename T>
-- 
2.43.0


From 5ec99b3512b717b60f76af440419ee81cfc94255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 017/109] fix: purgeQuantities() kept the buffers of quantities
 which had been invalidated by refreshQuantities()

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..ff875c1 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -85,7 +85,8 @@ void clearBuffer(std::pair<A, B>* buffer) {
 
 template <typename D>
 void DependentQuantityD<D>::clearIfNotRequired() {
-  if (clearable && requireCount <= 0 && dataBuffer != nullptr && computed) {
+  // note: the buffer might be populated even if computed==false, because it holds an old value from before a refresh
+  if (clearable && requireCount <= 0 && dataBuffer != nullptr) {
     clearBuffer(dataBuffer);
     computed = false;
   }
-- 
2.43.0


From cda70f7a72ce28a061fad02c6801b6449c3e1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 018/109] fix: a rejected unrequire() left the require count of
 the quantity negative

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index ff875c1..adef4ed 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From b43c91a30327ff5bccc5f06bae23aa9480d063c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:51 +0000
Subject: [PATCH 019/109] fix: SurfacePoint::inEdge() reversed the position of
 the vertices along the edge

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 include/geometrycentral/surface/surface_point.ipp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..cdbe8ad 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a};
     return;
   }
 
diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..c82a2aa 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
+      return SurfacePoint(targetEdge, 0.);
     } else if (vertex == targetEdge.halfedge().tipVertex()) {
-      return SurfacePoint(targetEdge, 0);
+      return SurfacePoint(targetEdge, 1.);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From a75b8e7c9b462bd1e0f584d60f5f6aa50b5a4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 020/109] fix: inserting a vertex in a face of an integer
 coordinates triangulation kept a stale common subdivision

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 6902916..288b7ae 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1230,6 +1230,7 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitFace(Face f, Vector3 bary,
   vertexAngleSums[newVertex] = 2 * M_PI;
   updateHalfedgeVectorsInVertex(newVertex);
 
+  triangulationChanged();
   invokeFaceInsertionCallbacks(f, newVertex);
 
   return newVertex;
-- 
2.43.0


From 65bf662a3a4568379f0abfd4c30ea230b50d447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 021/109] fix: splitEdge(Halfedge) of intrinsic triangulations
 returned the wrong half for reversed halfedges, and left a wrong angle sum on
 boundaries

---
 src/surface/flip_geodesics.cpp                |  4 ++-
 ...er_coordinates_intrinsic_triangulation.cpp | 28 +++++++++----------
 .../signpost_intrinsic_triangulation.cpp      |  8 +++++-
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index a9abbcb..4d94492 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -1730,7 +1730,9 @@ void FlipPathSegment::splitEdge(double tSplit) {
   std::tie(he, prevID, nextID) = path->pathHeInfo[id];
   Halfedge origHe = he;
 
-  Halfedge newHeFront = path->network.tri->splitEdge(he, tSplit);
+  // updatePathAfterEdgeSplit() expects the new halfedge which points along e.halfedge()
+  bool forwardDir = (he == he.edge().halfedge());
+  Halfedge newHeFront = path->network.tri->splitEdge(he.edge().halfedge(), forwardDir ? tSplit : 1. - tSplit);
   path->network.updatePathAfterEdgeSplit(origHe, newHeFront);
 }
 
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 288b7ae..b341c3a 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1247,6 +1247,11 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitEdge(Edge e, double bary,
 
 Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he, double bary, bool verbose) {
   Edge e = he.edge();
+  bool reversed = (he != e.halfedge());
+  if (reversed) { // work along the interior halfedge
+    he = e.halfedge();
+    bary = 1 - bary;
+  }
 
   auto heBary = [&](Halfedge he, double t) -> Vector3 {
     int i = halfedgeIndexInTriangle(he);
@@ -1402,19 +1407,15 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       updateHalfedgeVectorsInVertex(v);
     }
 
-    vertexAngleSums[newVertex] = 2 * M_PI;
+    vertexAngleSums[newVertex] = M_PI;
     updateHalfedgeVectorsInVertex(newVertex);
 
     triangulationChanged();
 
     Halfedge otherNewHalfedge = newHalfedge.next().next().twin().next().next().twin();
-    if (e == he.edge()) {
-      invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
-    } else {
-      invokeEdgeSplitCallbacks(e, otherNewHalfedge, newHalfedge);
-    }
+    invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
 
-    return newHalfedge;
+    return reversed ? otherNewHalfedge : newHalfedge;
   }
 }
 
@@ -1472,7 +1473,8 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   }
 
   // fix orientation
-  if (he != e.halfedge()) {
+  bool reversed = (he != e.halfedge());
+  if (reversed) {
     bary = 1 - bary;
     iSeg = normalCoordinates[e] - iSeg;
   }
@@ -1562,13 +1564,9 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   triangulationChanged();
 
   Halfedge otherNewHalfedge = newHalfedge.next().next().twin().next().next().twin();
-  if (e == he.edge()) {
-    invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
-    return newHalfedge;
-  } else {
-    invokeEdgeSplitCallbacks(e, otherNewHalfedge, newHalfedge);
-    return otherNewHalfedge;
-  }
+  invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
+
+  return reversed ? otherNewHalfedge : newHalfedge;
 }
 
 Face IntegerCoordinatesIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9ab4aee..220bf48 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -578,7 +578,13 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 }
 
 Halfedge SignpostIntrinsicTriangulation::splitEdge(Halfedge he, double tSplit) {
-  return insertVertex_edge(SurfacePoint(he, tSplit));
+  Edge e = he.edge();
+  bool reversed = (he != e.halfedge());
+  Halfedge newHeFront = insertVertex_edge(SurfacePoint(he, tSplit));
+  if (!reversed) return newHeFront;
+
+  // the other half of the edge, which points in the direction of he
+  return newHeFront.next().next().twin().next().next().twin();
 }
 
 
-- 
2.43.0


From d123417ff0bf58b388a30867a0a6fd8bfbdc2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 022/109] fix: the signpost common subdivision did not record
 edges shared with the input

---
 src/surface/common_subdivision.cpp              |  9 +++++----
 .../signpost_intrinsic_triangulation.cpp        | 17 +++++++++++------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index 0cf727c..c9687e4 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -298,11 +298,12 @@ std::tuple<size_t, size_t, size_t> CommonSubdivision::elementCounts() const {
 }
 
 size_t CommonSubdivision::intersectionsA(Edge eA) const {
-  if (pointsAlongA[eA].size() == 3 && pointsAlongA[eA][1]->intersectionType == CSIntersectionType::EDGE_PARALLEL) {
-    return 0; // shared edge;
-  } else {
-    return pointsAlongA[eA].size() - 2; // trim off endpoints
+  size_t n = pointsAlongA[eA].size() - 2; // trim off endpoints
+  for (CommonSubdivisionPoint* p : pointsAlongA[eA]) {
+    // shared segments are recorded in the list, but are not intersections
+    if (p->intersectionType == CSIntersectionType::EDGE_PARALLEL) n--;
   }
+  return n;
 }
 
 size_t CommonSubdivision::intersectionsB(Edge eB) const {
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 220bf48..4e5847b 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -876,7 +876,7 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
 
     // Walk along the edge, any time we see two consecutive vertex points, there must be a
     // parallel edge there.
-    for (size_t iP = 1; iP + 1 < vec.size(); iP++) {
+    for (size_t iP = 1; iP < vec.size(); iP++) {
 
       if (vec[iP - 1]->posB.type == SurfacePointType::Vertex && vec[iP]->posB.type == SurfacePointType::Vertex) {
 
@@ -889,15 +889,20 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
         csPoint.orientation = false; // TODO not properly populated. We don't propagate this info.
 
         // Find the matching edge on meshB
-        // Note: I'm 90% sure that this is fine, and this search should always find exactly one matching edge.
-        // The reasoning why is that the common subdivision is always a simplicial complex, and this segment is
-        // and edge of the common subdivision, so it must be unique between its endpoints.
+        // There may be several edges between these vertices, skip those which cross other edges (or have been matched
+        // already), and use the one whose length matches best.
+        double tPrev = (iP == 1) ? 0. : vec[iP - 1]->posA.tEdge;
+        double tNext = (iP + 1 == vec.size()) ? 1. : vec[iP]->posA.tEdge;
+        double segmentLength = (tNext - tPrev) * inputGeom.edgeLengths[e];
+        double bestError = std::numeric_limits<double>::infinity();
         bool found = false;
         for (Halfedge he : vec[iP - 1]->posB.vertex.outgoingHalfedges()) {
-          if (he.tipVertex() == vec[iP]->posB.vertex) {
+          if (he.tipVertex() != vec[iP]->posB.vertex || cs.pointsAlongB[he.edge()].size() != 2) continue;
+          double error = std::fabs(edgeLengths[he.edge()] - segmentLength);
+          if (error < bestError) {
             csPoint.posB = SurfacePoint(he.edge(), 0.5);
+            bestError = error;
             found = true;
-            break;
           }
         }
         GC_SAFETY_ASSERT(found, "could not align shared edges in common subdivision");
-- 
2.43.0


From 0191c9b34b50a5c93083578b85de7e35288df9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:33 +0000
Subject: [PATCH 023/109] fix: removeInsertedVertex() accessed a null face when
 the mesh refused to remove the vertex

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 src/surface/signpost_intrinsic_triangulation.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index b341c3a..23aa272 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1669,6 +1669,7 @@ Face IntegerCoordinatesIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // ==== Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // could not be removed, eg. because the ring around it is not simple
 
   // ==== Update cached data
   // Edge lengths, normal coordinates, and roundabouts should be okay
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 4e5847b..dfb0b6f 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -572,6 +572,7 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // could not be removed, eg. because the ring around it is not simple
   updateFaceBasis(newF);
   triangulationChanged();
   return newF;
-- 
2.43.0


From d6b3c7e455c54dc3558db70de2a1ac6b44642118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 024/109] fix: tracing input edges yielded the wrong vertex
 after a shared edge which points the other way

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 23aa272..0e9a5a1 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -267,7 +267,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
         cs.pointsAlongA[eA].push_back(crPt);
-        cs.pointsAlongA[eA].push_back(bVtx[dst(eB)]);
+        cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]); // heB may point against eB.halfedge()
 
         cs.pointsAlongB[eB][1] = crPt;
       } else {
-- 
2.43.0


From a23383d111b76584b56d6e360deb6a57e1497d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 025/109] fix: tracing an input edge through a vertex inserted
 along it gave up at the first corner without a curve

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 0e9a5a1..8132361 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1902,10 +1902,6 @@ IntegerCoordinatesIntrinsicTriangulation::traceNextCurve(const NormalCoordinates
           GC_SAFETY_ASSERT(c == incomingCorner, "there can only be one");
 
           return {true, normalCoordinates.topologicalTrace(c.halfedge().next(), finalPos)};
-
-        } else {
-          throw std::runtime_error("this shouldn't be possible");
-          return {false, NormalCoordinatesCurve{}};
         }
       }
     } else {
-- 
2.43.0


From bd9673ccd1935a0e9478d3bb70dfc50624915546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 026/109] fix: tracing input edges over a signpost
 triangulation used stale edge indices, vertices of the wrong mesh, and failed
 along split boundary edges

---
 .../signpost_intrinsic_triangulation.cpp      | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index dfb0b6f..100092c 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -102,22 +102,35 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
 std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlongIntrinsic(Halfedge inputHe,
                                                                                            bool trimEnd) {
 
-  // Optimization: don't bother tracing original edges, just report them directly
-  // Here we need to check if the corresponding intrinsic edge is original
-  Halfedge origHe = intrinsicMesh->halfedge(inputHe.getIndex()); // as usual, safe by dense construction
-  if (edgeIsOriginal[origHe.edge()]) {
-    Vertex vA = inputHe.tailVertex();
-    Vertex vB = inputHe.tipVertex();
-    std::vector<SurfacePoint> result{SurfacePoint(vA), SurfacePoint(vB)};
-    return result;
-  }
-
-
   Vertex vTail = inputHe.tailVertex();
   Vertex vTip = inputHe.tipVertex();
 
-  // Get the corresponding tail vertex on the intrinsic triangulation
+  // Get the corresponding vertices on the intrinsic triangulation
   Vertex vTailIntrinsic = intrinsicMesh->vertex(vTail.getIndex()); // as usual, safe by dense construction
+  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex());   // as usual, safe by dense construction
+
+  // Optimization: don't bother tracing original edges, just report them directly
+  // Here we need to check if the corresponding intrinsic edge is original. The indices of edges change when the
+  // triangulation is mutated and compressed, so search for it.
+  for (Halfedge he : vTailIntrinsic.outgoingHalfedges()) {
+    if (edgeIsOriginal[he.edge()] && he.tipVertex() == vTipIntrinsic) {
+      return {SurfacePoint(vTailIntrinsic), SurfacePoint(vTipIntrinsic)};
+    }
+  }
+
+  // The boundary of the intrinsic triangulation runs along the boundary of the input, so walk along it rather than
+  // tracing through the vertices which have been inserted there
+  if (inputHe.edge().isBoundary()) {
+    Vertex vEnd = inputHe.isInterior() ? vTipIntrinsic : vTailIntrinsic;
+    Vertex vCurr = inputHe.isInterior() ? vTailIntrinsic : vTipIntrinsic;
+    std::vector<SurfacePoint> result{SurfacePoint(vCurr)};
+    do {
+      vCurr = vCurr.halfedge().tipVertex(); // always points along the boundary
+      result.push_back(SurfacePoint(vCurr));
+    } while (vCurr != vEnd);
+    if (!inputHe.isInterior()) std::reverse(result.begin(), result.end());
+    return result;
+  }
 
   // Gather values to trace
   SurfacePoint startP = SurfacePoint(vTailIntrinsic);
@@ -130,7 +143,6 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
   TraceGeodesicResult result = traceGeodesic(*this, startP, traceVec, options);
 
   // Trim off end crumbs if applicable
-  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex()); // as usual, safe by dense construction
   if (trimEnd) {
     bool success = trimTraceResult(result, vTipIntrinsic);
     if (success) {
-- 
2.43.0


From fc50ec49e850cf779382f8ee2b1155242309d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 027/109] fix: geodesics traced from a vertex left in a wrong
 direction when a wedge spans more than pi in its tangent space

---
 src/surface/trace_geodesic.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..ef04953 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -535,6 +535,9 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
   Halfedge minCrossHalfedge;
   Vector2 minCrossHalfedgeDir; // the trace vector in this closest halfedge
 
+  // The range of angles in the tangent space of the vertex
+  double tangentAngleSum = currVert.isBoundary() ? M_PI : 2. * M_PI;
+
   Halfedge currHe = currVert.halfedge();
   do {
 
@@ -564,9 +567,22 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
     // Check if our trace vector lies within the interval
     double crossStart = cross(intervalStart, currVecDir);
     double crossEnd = cross(intervalEnd, currVecDir);
-    if (crossStart > 0. && crossEnd <= 0.) {
+    bool inWedge = crossStart > 0. && crossEnd <= 0.;
+    double relativeAngle = (currVecDir / intervalStart).arg();
+
+    // The test above does not apply to wedges of more than pi radians in the tangent space of the vertex, which occur
+    // at vertices with few neighbors or a small angle sum
+    double cornerAngle = (-geom.halfedgeVectorsInFace[currHe.next().next()] / geom.halfedgeVectorsInFace[currHe]).arg();
+    double wedgeAngle = cornerAngle * tangentAngleSum / geom.vertexAngleSums[currVert];
+    if (wedgeAngle > M_PI) {
+      if (relativeAngle < 0.) relativeAngle += 2. * M_PI;
+      inWedge = relativeAngle > 0. && relativeAngle <= wedgeAngle;
+    }
+
+    if (inWedge) {
       wedgeHe = currHe;
-      traceDirRelativeToStart = currVecDir / intervalStart;
+      // Need to convert from "powered" representation to flat vector in face
+      traceDirRelativeToStart = Vector2::fromAngle(relativeAngle * geom.vertexAngleSums[currVert] / tangentAngleSum);
       if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceDirRelativeToStart << endl;
       if (TRACE_PRINT) cout << "    cross start = " << crossStart << " cross end = " << crossEnd << endl;
       break;
@@ -601,11 +617,6 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
   Face startFace = wedgeHe.face();
   int iHe = halfedgeIndexInTriangle(wedgeHe);
 
-  // Need to convert from "powered" representation to flat vector in face
-  double sum = currVert.isBoundary() ? M_PI : 2. * M_PI;
-  traceDirRelativeToStart = traceDirRelativeToStart.pow(geom.vertexAngleSums[currVert] / sum);
-  traceDirRelativeToStart = traceDirRelativeToStart.normalize();
-
   // Compute the starting vector
   Vector2 startDirInFace = geom.halfedgeVectorsInFace[wedgeHe].normalize();
   Vector2 traceDirInFace = traceDirRelativeToStart * startDirInFace;
-- 
2.43.0


From 2b72f2c77651dfc501d2ab29591f564a13b500cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 028/109] fix: edge lengths of the common subdivision were
 taken from a wrong face when several faces share the endpoints

---
 src/surface/common_subdivision.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index c9687e4..b5ab64a 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -193,8 +193,8 @@ EdgeData<double> CommonSubdivision::interpolateEdgeLengthsA(const EdgeData<doubl
   for (Edge e : mesh->edges()) {
     SurfacePoint tail = sourcePoints[e.halfedge().tailVertex()]->posA;
     SurfacePoint tip = sourcePoints[e.halfedge().tipVertex()]->posA;
-    Face f = sharedFace(tail, tip);
-    GC_SAFETY_ASSERT(f != Face(), "common subdivision edges must be contained in a face");
+    // the endpoints may share several faces, so take the one which contains this edge
+    Face f = sourceFaceA[e.halfedge().face()];
     tail = tail.inFace(f);
     tip = tip.inFace(f);
 
@@ -216,8 +216,8 @@ EdgeData<double> CommonSubdivision::interpolateEdgeLengthsB(const EdgeData<doubl
   for (Edge e : mesh->edges()) {
     SurfacePoint tail = sourcePoints[e.halfedge().tailVertex()]->posB;
     SurfacePoint tip = sourcePoints[e.halfedge().tipVertex()]->posB;
-    Face f = sharedFace(tail, tip);
-    GC_SAFETY_ASSERT(f != Face(), "common subdivision edges must be contained in a face");
+    // the endpoints may share several faces, so take the one which contains this edge
+    Face f = sourceFaceB[e.halfedge().face()];
     tail = tail.inFace(f);
     tip = tip.inFace(f);
 
-- 
2.43.0


From abc2b6d837c429bb526d6f4f4361deba7d94167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 029/109] fix: geodesics traced from a boundary vertex along
 the boundary could leave in the opposite direction

---
 src/surface/trace_geodesic.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index ef04953..8e65cef 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -531,9 +531,9 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
   // Normally, one of the interval tests below will return positive and we'll simply launch the trace in to that
   // interval. However, due to numerical misfortune, it is possible that none of the intervals will test positive. In
   // that case, we'll simply launch along whichever halfedge was closest.
-  double minCross = std::numeric_limits<double>::infinity();
-  Halfedge minCrossHalfedge;
-  Vector2 minCrossHalfedgeDir; // the trace vector in this closest halfedge
+  double minDist = std::numeric_limits<double>::infinity();
+  Halfedge minDistHalfedge;
+  Vector2 minDistHalfedgeDir; // the trace vector in this closest halfedge
 
   // The range of angles in the tangent space of the vertex
   double tangentAngleSum = currVert.isBoundary() ? M_PI : 2. * M_PI;
@@ -589,15 +589,17 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
     }
 
     // Keep track of the closest halfedge, as described above
-    if (std::fabs(crossStart) < minCross) {
-      minCross = std::fabs(crossStart);
-      minCrossHalfedge = currHe;
-      minCrossHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
+    double distStart = norm(intervalStart - currVecDir);
+    double distEnd = norm(intervalEnd - currVecDir);
+    if (distStart < minDist) {
+      minDist = distStart;
+      minDistHalfedge = currHe;
+      minDistHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
     }
-    if (std::fabs(crossEnd) < minCross) {
-      minCross = std::fabs(crossEnd);
-      minCrossHalfedge = nextHe;
-      minCrossHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
+    if (distEnd < minDist) {
+      minDist = distEnd;
+      minDistHalfedge = nextHe;
+      minDistHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
     }
 
     currHe = nextHe;
@@ -606,10 +608,10 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
   // None of the interval tests passed (probably due to unfortunate numerics), so just trace along the closest
   // halfedge
   if (wedgeHe == Halfedge()) {
-    if (TRACE_PRINT) cout << "  no wedge worked. following closest edge with dir " << minCrossHalfedgeDir << endl;
+    if (TRACE_PRINT) cout << "  no wedge worked. following closest edge with dir " << minDistHalfedgeDir << endl;
     // Convert to edge coordinates
-    currVecDir = convertVecToEdge(minCrossHalfedge, minCrossHalfedgeDir);
-    return traceGeodesic_fromEdge(geom, minCrossHalfedge.edge(), convertTToEdge(minCrossHalfedge, 0.), currVecDir,
+    currVecDir = convertVecToEdge(minDistHalfedge, minDistHalfedgeDir);
+    return traceGeodesic_fromEdge(geom, minDistHalfedge.edge(), convertTToEdge(minDistHalfedge, 0.), currVecDir,
                                   currVecLen, traceOptions);
   }
 
-- 
2.43.0


From bdefe055954ba2aa51951305e6b4058f0a4164a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 030/109] fix: signpost traces of boundary edges could end
 immediately at the boundary

---
 src/surface/signpost_intrinsic_triangulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 100092c..e49ef27 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -66,6 +66,11 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceIntrinsicHalfedge
     return result;
   }
 
+  // Boundary edges lie along the boundary of the input, where a trace could leave the surface immediately
+  if (he.edge().isBoundary()) {
+    return {vertexLocations[he.tailVertex()], vertexLocations[he.tipVertex()]};
+  }
+
   // Gather values to trace
   SurfacePoint startP = vertexLocations[he.vertex()];
   Vector2 traceVec = halfedgeVector(he);
-- 
2.43.0


From ed2f4480fa66c94c5929c43afbd2448fe8eec81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 031/109] fix: normal coordinate curves which cross an edge
 twice were taken for closed loops

---
 src/surface/normal_coordinates.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..ffaf443 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -335,6 +335,7 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
   int startIndex = index;
 
   NormalCoordinatesCurve path;
+  bool endedAtVertex;
 
   do {
     int n = edgeCoords[he.edge()];
@@ -347,11 +348,12 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
     path.crossings.push_back(std::make_pair(index, he));
 
-  } while (!stepTopologicalCurve(he, index) && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
+    endedAtVertex = stepTopologicalCurve(he, index);
+  } while (!endedAtVertex && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
 
   // If we made a complete loop, record the starting point (also the ending
   // point) again
-  if ((he == startHe && index == startIndex) || he.edge().isBoundary())
+  if (!endedAtVertex && ((he == startHe && index == startIndex) || he.edge().isBoundary()))
     path.crossings.push_back(std::make_pair(index, he));
 
   return path;
@@ -391,7 +393,7 @@ std::tuple<NormalCoordinatesCurve, int> NormalCoordinates::topologicalTraceBidir
   // Case where the curve is a cycle
   // TODO this may be wrong
   if (forwardTrace.crossings.size() > 1 &&
-      forwardTrace.crossings.front().second == forwardTrace.crossings.back().second) {
+      forwardTrace.crossings.front() == forwardTrace.crossings.back()) {
     throw std::runtime_error("encountered a loop while tracing normal coordinates");
   }
 
-- 
2.43.0


From 40a6d7912de9996c365a46c797ed01491322f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:43 +0000
Subject: [PATCH 032/109] fix: crossings along a split input edge had positions
 relative to a part of the edge in the common subdivision

---
 ...er_coordinates_intrinsic_triangulation.cpp | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 8132361..94effab 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -234,9 +234,27 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
     cs.pointsAlongB[eB][n + 1] = bVtx[dst(eB)];
   }
 
+  // Position along an edge of mesh A of a vertex of mesh B which was inserted along it
+  auto positionAlongA = [&](Edge eA, Vertex vB) -> double {
+    const SurfacePoint& pA = vertexLocations[vB];
+    if (pA.type == SurfacePointType::Edge && pA.edge == eA) return pA.tEdge;
+    SurfacePoint pFace = pA.inSomeFace();
+    size_t iV = 0;
+    for (Halfedge he : pFace.face.adjacentHalfedges()) {
+      if (he.edge() == eA) {
+        double cTail = pFace.faceCoords[iV];
+        double cTip = pFace.faceCoords[(iV + 1) % 3];
+        return (he == eA.halfedge() ? cTip : cTail) / (cTail + cTip);
+      }
+      iV++;
+    }
+    throw std::runtime_error("vertex does not lie along the edge");
+  };
+
   // Trace the edges of mesh A (inputMesh) over mesh B (intrinsicMesh)
   for (Edge eA : inputMesh.edges()) {
     NormalCoordinatesCompoundCurve compoundPath = traceInputEdge(eA);
+    double tComponentStart = 0.; // where the current component starts along eA
 
     for (size_t iC = 0; iC < compoundPath.components.size(); iC++) {
 
@@ -270,6 +288,9 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
         cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]); // heB may point against eB.halfedge()
 
         cs.pointsAlongB[eB][1] = crPt;
+
+        bool last = iC + 1 == compoundPath.components.size();
+        tComponentStart = last ? 1. : positionAlongA(eA, heB.tipVertex());
       } else {
         // Indirect path
 
@@ -281,6 +302,11 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
 
+        // The positions along the path are relative to this component, which may be only a part of eA
+        Vertex bDst = path.back().second.twin().next().tipVertex();
+        bool last = iC + 1 == compoundPath.components.size();
+        double tComponentEnd = last ? 1. : positionAlongA(eA, bDst);
+
         Halfedge hB;
         for (size_t iC = 0; iC < path.size(); ++iC) {
           hB = std::get<1>(path[iC]);
@@ -290,7 +316,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           // geodesicPath stores the start and end point, which
           // path doesn't do, so we offset by 1 here
           SurfacePoint ptB = std::get<0>(geodesicPath[iC + 1]);
-          double tA = std::get<1>(geodesicPath[iC + 1]);
+          double tA = tComponentStart + std::get<1>(geodesicPath[iC + 1]) * (tComponentEnd - tComponentStart);
 
           int iB = std::get<0>(path[iC]);
           if (!positiveOrientation) iB = positivePart(normalCoordinates[eB]) - iB - 1;
@@ -304,8 +330,8 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           cs.pointsAlongB[eB][iB + 1] = crPt;
         }
 
-        Vertex bDst = hB.twin().next().tipVertex();
         cs.pointsAlongA[eA].push_back(bVtx[bDst]);
+        tComponentStart = tComponentEnd;
         //
         /* Disabled option: space points evenly
          *
-- 
2.43.0


From b8af07df81cbeff3220a9fac9069133117094fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 033/109] fix: reinterpretTo() between meshes of different
 capacities left a buffer of the wrong size

---
 include/geometrycentral/utilities/mesh_data.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 96fe2c6..baf993a 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -294,7 +294,12 @@ inline MeshData<E, T> MeshData<E, T>::reinterpretTo(ParentMeshT& targetMesh) con
   GC_SAFETY_ASSERT(nElements<E>(mesh) == nElements<E>(&targetMesh),
                    "meshes must have same number of elements to reinterpret");
   MeshData<E, T> newData(targetMesh, defaultValue);
-  newData.data = data;
+
+  // The two meshes may have allocated different capacities, the buffer must always match the mesh it belongs to
+  size_t nCopy = std::min(data.size(), newData.data.size());
+  for (size_t i = 0; i < nCopy; i++) {
+    newData.data[i] = data[i];
+  }
   return newData;
 }
 
-- 
2.43.0


From 49cf0eaa7313ea44f6c1316335c4d24a5b52a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 034/109] fix: MutationManager::flipEdge() showed its
 before-callbacks a reversed edge with swapped faces

---
 src/surface/mutation_manager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..0b077b5 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -120,8 +120,10 @@ bool MutationManager::flipEdge(Edge e) {
     return false;
   }
 
-  // Undo the test flip
-  mesh.flip(e);
+  // Undo the test flip (each flip rotates the edge by a quarter turn, so three more restore exactly what was there before)
+  for (int i = 0; i < 3; i++) {
+    mesh.flip(e, false);
+  }
 
   // Invoke before callbacks
   for (EdgeFlipPolicy* policy : edgeFlipPolicies) {
-- 
2.43.0


From c19fe9e1e96f35b186a1e14dfe88d84af8088558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 035/109] fix: removing a policy with face split callbacks left
 a dangling pointer which the next face split called

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 0b077b5..bc4179e 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -395,6 +395,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From c1407b6ac33067d28549eb79b30a2977c72ab974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 036/109] fix: collapseEdge() with a position always passed t =
 -1 to the callbacks

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index bc4179e..6ee0ab2 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -216,7 +216,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From 821b78a40ba3ff5b7e6347d4abcf20f336c1dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 037/109] fix: repositionVertex() on a connectivity-only
 MutationManager dereferenced a null geometry

---
 src/surface/mutation_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 6ee0ab2..a3da1a5 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -98,6 +98,8 @@ bool MutationManager::maySplitFace(Face f) const { return splittableFaces.size()
 bool MutationManager::repositionVertex(Vertex vert, Vector3 offset) {
   if (!mayRepositionVertex(vert)) return false;
 
+  GC_SAFETY_ASSERT(geometry, "must have geometry to reposition vertices");
+
   // Invoke callbacks
   for (VertexRepositionPolicy* policy : vertexRepositionPolicies) {
     policy->beforeVertexReposition(vert, offset);
-- 
2.43.0


From 72b57b56f4b18c2171902498ae552385fc5a498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 038/109] fix: checkFinite() on a row vector read a row which
 does not exist

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..fd4ad3c 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(0, j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From af15bdbb7dad2dddc0ba08247640c437e27f8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 039/109] fix: saving a matrix to a file did not report that
 writing failed

---
 .../geometrycentral/numerical/linear_algebra_utilities.ipp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index fd4ad3c..f7d0dd1 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -378,6 +378,9 @@ void saveSparseMatrix(std::string filename, SparseMatrix<T>& matrix) {
   }
   saveSparseMatrix(outFile, matrix);
   outFile.close();
+  if (!outFile) {
+    throw std::runtime_error("failed to write output file " + filename);
+  }
 }
 
 template <typename T>
@@ -407,6 +410,9 @@ void saveDenseMatrix(std::string filename, DenseMatrix<T>& matrix) {
 
   saveDenseMatrix(outFile, matrix);
   outFile.close();
+  if (!outFile) {
+    throw std::runtime_error("failed to write output file " + filename);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From c7a308575724d6c2c19edc6e417f39e0b8ee70ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 040/109] fix: loading a damaged or truncated matrix file gave
 uninitialized entries, or wrote past the end of the matrix

---
 .../numerical/linear_algebra_utilities.ipp         | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index f7d0dd1..07d05d2 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -472,23 +472,24 @@ SparseMatrix<T> loadSparseMatrix(std::istream& in) {
     ss >> token;
     if (token == "#") {
       // Parse comment of the form (# sparse rows cols)
-      ss >> token >> rows >> cols;
+      if (!(ss >> token >> rows >> cols) || rows < 0 || cols < 0) rows = cols = -1;
     } else {
       // Read triplet
       int iRow = std::stoi(token);
       int iCol;
       T val;
-      ss >> iCol >> val;
+      if (!(ss >> iCol >> val)) throw std::runtime_error("failed to parse matrix");
       // Shift from 1-indexed to 0-indexed
       iRow -= 1;
       iCol -= 1;
+      if (iRow < 0 || iCol < 0) throw std::runtime_error("failed to parse matrix");
       triplets.emplace_back(iRow, iCol, val);
       maxCol = std::max(maxCol, iCol);
       maxRow = std::max(maxRow, iRow);
     }
   }
 
-  if (cols > 0 && (maxCol >= cols || maxRow >= rows)) {
+  if (cols >= 0 && (maxCol >= cols || maxRow >= rows)) {
     std::cout << "Error: stated cols (" << cols << ") and rows (" << rows << ") are insufficient to fit all entries."
               << std::endl;
     std::cout << "       triplets are present with iRow=" << maxRow << " or iCol=" << maxCol << std::endl;
@@ -528,7 +529,7 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
   getline(in, line);
   std::stringstream ss(line);
   std::string token, matrixType;
-  int rows, cols;
+  int rows = -1, cols = -1;
   ss >> token >> matrixType >> rows >> cols;
   if (token != "#" || matrixType != "dense" || rows < 0 || cols < 0) {
     std::cout << "Error: first line of file must be of the form # dense cols rows." << std::endl;
@@ -540,16 +541,17 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
 
   int iRow = 0;
   // Parse matrix entries
-  while (getline(in, line)) {
+  while (iRow < rows && getline(in, line)) {
     std::stringstream ss(line);
     // Read entries
     T val;
     for (int iCol = 0; iCol < cols; iCol++) {
-      ss >> val;
+      if (!(ss >> val)) throw std::runtime_error("failed to parse matrix");
       M(iRow, iCol) = val;
     }
     iRow++;
   }
+  if (iRow < rows) throw std::runtime_error("failed to parse matrix"); // the file ends early
 
   return M;
 }
-- 
2.43.0


From a273a50774aebd92d03cb8c0d9161fa4070c1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 041/109] fix: unpackMatrixToStdVector() only compiled for
 size_t

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 07d05d2..edfe8fc 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0


From 85bcc4885459467138d0a4d92ce2747dc74c355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 042/109] fix: points inserted next to a crossing with a part
 of a split input edge got a wrong location

---
 ...eger_coordinates_intrinsic_triangulation.h |  4 ++
 ...er_coordinates_intrinsic_triangulation.cpp | 63 +++++++++++--------
 2 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index de85c49..3a48707 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -123,6 +123,10 @@ public:
   // Inverse to traceInputEdge
   Halfedge identifyInputEdge(const NormalCoordinatesCurve& path, bool verbose = false) const;
 
+  // The point which is a fraction t of the way along a traced path (which must cross at least one edge), as a point on
+  // the corresponding edge of the input mesh
+  SurfacePoint pointAlongInputEdge(const NormalCoordinatesCurve& path, double t) const;
+
   // Identify shared halfedge, throw exception if halfedge is not shared
   // (i.e. edgeCoords[he.edge()] must be negative)
   Halfedge identifyInputEdge(Halfedge he) const;
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 94effab..5d0e5fa 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -184,6 +184,22 @@ SurfacePoint IntegerCoordinatesIntrinsicTriangulation::equivalentPointOnInput(co
 
 bool IntegerCoordinatesIntrinsicTriangulation::checkEdgeOriginal(Edge e) const { return normalCoordinates[e] == -1; }
 
+// Position along an edge of a point which lies in its interior, i.e. of a vertex which was inserted along that edge
+static double positionAlongEdge(const SurfacePoint& p, Edge e) {
+  if (p.type == SurfacePointType::Edge && p.edge == e) return p.tEdge;
+  SurfacePoint pFace = p.inSomeFace();
+  size_t iV = 0;
+  for (Halfedge he : pFace.face.adjacentHalfedges()) {
+    if (he.edge() == e) {
+      double cTail = pFace.faceCoords[iV];
+      double cTip = pFace.faceCoords[(iV + 1) % 3];
+      return (he == e.halfedge() ? cTip : cTail) / (cTail + cTip);
+    }
+    iV++;
+  }
+  throw std::runtime_error("vertex does not lie along the edge");
+}
+
 void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
   intrinsicMesh->compress();
@@ -234,23 +250,6 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
     cs.pointsAlongB[eB][n + 1] = bVtx[dst(eB)];
   }
 
-  // Position along an edge of mesh A of a vertex of mesh B which was inserted along it
-  auto positionAlongA = [&](Edge eA, Vertex vB) -> double {
-    const SurfacePoint& pA = vertexLocations[vB];
-    if (pA.type == SurfacePointType::Edge && pA.edge == eA) return pA.tEdge;
-    SurfacePoint pFace = pA.inSomeFace();
-    size_t iV = 0;
-    for (Halfedge he : pFace.face.adjacentHalfedges()) {
-      if (he.edge() == eA) {
-        double cTail = pFace.faceCoords[iV];
-        double cTip = pFace.faceCoords[(iV + 1) % 3];
-        return (he == eA.halfedge() ? cTip : cTail) / (cTail + cTip);
-      }
-      iV++;
-    }
-    throw std::runtime_error("vertex does not lie along the edge");
-  };
-
   // Trace the edges of mesh A (inputMesh) over mesh B (intrinsicMesh)
   for (Edge eA : inputMesh.edges()) {
     NormalCoordinatesCompoundCurve compoundPath = traceInputEdge(eA);
@@ -290,7 +289,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
         cs.pointsAlongB[eB][1] = crPt;
 
         bool last = iC + 1 == compoundPath.components.size();
-        tComponentStart = last ? 1. : positionAlongA(eA, heB.tipVertex());
+        tComponentStart = last ? 1. : positionAlongEdge(vertexLocations[heB.tipVertex()], eA);
       } else {
         // Indirect path
 
@@ -305,7 +304,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
         // The positions along the path are relative to this component, which may be only a part of eA
         Vertex bDst = path.back().second.twin().next().tipVertex();
         bool last = iC + 1 == compoundPath.components.size();
-        double tComponentEnd = last ? 1. : positionAlongA(eA, bDst);
+        double tComponentEnd = last ? 1. : positionAlongEdge(vertexLocations[bDst], eA);
 
         Halfedge hB;
         for (size_t iC = 0; iC < path.size(); ++iC) {
@@ -793,9 +792,8 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
       } else {
         // intermediate crossing
         double tInput = transverseCrossingTimes[heIndex(he)][pos - 1];
-        Halfedge heInput = identifyInputEdge(curves[heIndex(he)][pos - 1]);
         double tIntrinsic = boundaryCrossings[heIndex(he)][pos - 1];
-        return {heBary(he, tIntrinsic), SurfacePoint(heInput, tInput)};
+        return {heBary(he, tIntrinsic), pointAlongInputEdge(curves[heIndex(he)][pos - 1], tInput)};
       }
     };
 
@@ -1116,8 +1114,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTail = vertexLocations[he.tailVertex()];
       tSegmentTail = 0;
     } else {
-      Halfedge tailHedge = identifyInputEdge(curves[crossingSegment - 1]);
-      segmentTail = SurfacePoint(tailHedge, transverseCrossingTimes[crossingSegment - 1]);
+      segmentTail = pointAlongInputEdge(curves[crossingSegment - 1], transverseCrossingTimes[crossingSegment - 1]);
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
     }
 
@@ -1125,8 +1122,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTip = vertexLocations[he.tipVertex()];
       tSegmentTip = 1;
     } else {
-      Halfedge tipHedge = identifyInputEdge(curves[crossingSegment]);
-      segmentTip = SurfacePoint(tipHedge, transverseCrossingTimes[crossingSegment]);
+      segmentTip = pointAlongInputEdge(curves[crossingSegment], transverseCrossingTimes[crossingSegment]);
       tSegmentTip = heCrossingTimes[crossingSegment];
     }
 
@@ -1979,6 +1975,23 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
   }
 }
 
+SurfacePoint IntegerCoordinatesIntrinsicTriangulation::pointAlongInputEdge(const NormalCoordinatesCurve& path,
+                                                                           double t) const {
+  Halfedge inputHe = identifyInputEdge(path);
+
+  // The path covers only a part of the input edge if vertices have been inserted along that edge
+  const SurfacePoint& src = vertexLocations[path.crossings.front().second.next().next().vertex()];
+  const SurfacePoint& dst = vertexLocations[path.crossings.back().second.twin().next().next().vertex()];
+  auto position = [&](const SurfacePoint& p) {
+    double tEdge = positionAlongEdge(p, inputHe.edge());
+    return inputHe == inputHe.edge().halfedge() ? tEdge : 1. - tEdge;
+  };
+  double tSrc = src.type == SurfacePointType::Vertex ? 0. : position(src);
+  double tDst = dst.type == SurfacePointType::Vertex ? 1. : position(dst);
+
+  return SurfacePoint(inputHe, tSrc + t * (tDst - tSrc));
+}
+
 // Identify shared halfedge, throw exception if halfedge is not shared
 // (i.e. edgeCoords[he.edge()] must be negative)
 Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he) const {
-- 
2.43.0


From ee0f4ad14d75d6486dc3c856abdad68f6cf8334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 043/109] fix: the robust heat method left the edge lengths of
 its geometry required for ever

---
 src/surface/heat_method_distance.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/heat_method_distance.cpp b/src/surface/heat_method_distance.cpp
index 13d2f4f..1bb0c0d 100644
--- a/src/surface/heat_method_distance.cpp
+++ b/src/surface/heat_method_distance.cpp
@@ -37,6 +37,8 @@ HeatMethodDistanceSolver::HeatMethodDistanceSolver(IntrinsicGeometryInterface& g
     mollifyIntrinsic(*tuftedMesh, tuftedEdgeLengths, 1e-5);
     size_t nFlips = flipToDelaunay(*tuftedMesh, tuftedEdgeLengths);
     tuftedIntrinsicGeom.reset(new EdgeLengthGeometry(*tuftedMesh, tuftedEdgeLengths));
+
+    geom.unrequireEdgeLengths();
   }
 
   // Compute mean edge length and set shortTime
-- 
2.43.0


From 8d17ae67136b2894c2ce38cba403e3292044327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 044/109] fix: the adaptive affine log map read the frame of
 another vertex on meshes with deleted elements

---
 src/surface/vector_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 081ecbb..54591e9 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -411,7 +411,7 @@ VertexData<Vector2> VectorHeatMethodSolver::computeLogMap_AffineAdaptive(const V
     // Do the translation using the values at i
     // (we could equivalently do it at j)
     Vector2 eij = geom.halfedgeVectorsInVertex[he];
-    Vector2 Xi = parallel_section[iTail];
+    Vector2 Xi = parallel_section[he.vertex()];
     Vector2 t = -eij / Xi;
 
     // The developing connection
-- 
2.43.0


From 4c110d34318b0d2e14624813b8bb0cb0319791bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 045/109] fix: vector heat log maps left quantities required
 for ever

---
 src/surface/vector_heat_method.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 54591e9..1ab8732 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -547,6 +547,14 @@ VertexData<Vector2> VectorHeatMethodSolver::computeLogMap_VectorHeat(const Verte
     result[v] = logCoord;
   }
 
+  geom.unrequireFaceAreas();
+  geom.unrequireEdgeLengths();
+  geom.unrequireCornerAngles();
+  geom.unrequireEdgeCotanWeights();
+  geom.unrequireHalfedgeVectorsInVertex();
+  geom.unrequireTransportVectorsAlongHalfedge();
+  geom.unrequireVertexIndices();
+
   return result;
 }
 
@@ -630,9 +638,6 @@ void VectorHeatMethodSolver::addVertexOutwardBall(Vertex vert, Vector<std::compl
 }
 
 VertexData<Vector2> VectorHeatMethodSolver::computeLogMap(const SurfacePoint& sourceP, LogMapStrategy strategy) {
-  geom.requireHalfedgeVectorsInVertex();
-  geom.requireHalfedgeVectorsInFace();
-
   switch (sourceP.type) {
   case SurfacePointType::Vertex: {
 
-- 
2.43.0


From f036408ce8c26efab60c28fc83914b0a5ad1ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 046/109] fix: the vector heat method took vectors at points in
 faces and along edges for vectors in the bases of the adjacent vertices

---
 src/surface/vector_heat_method.cpp | 46 +++++++++++++++++-------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 1ab8732..526b999 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -247,6 +247,8 @@ VectorHeatMethodSolver::transportTangentVectors(const std::vector<std::tuple<Sur
   }
 
   geom.requireVertexIndices();
+  geom.requireHalfedgeVectorsInVertex();
+  geom.requireHalfedgeVectorsInFace();
 
 
   // === Setup work
@@ -276,29 +278,31 @@ VectorHeatMethodSolver::transportTangentVectors(const std::vector<std::tuple<Sur
     // Add to the list of magnitudes for magnitude interpolation
     magnitudeSources.emplace_back(point, vec.norm());
 
-    SurfacePoint facePoint = point.inSomeFace();
-    Halfedge he = facePoint.face.halfedge();
+    // Express the vector in the tangent spaces of the adjacent vertices
+    auto addSource = [&](Vertex v, double w, Vector2 basisRot) {
+      dirRHS[geom.vertexIndices[v]] += w * (unitVec * static_cast<std::complex<double>>(basisRot));
+    };
 
-    { // First adjacent vertex
-      size_t vInd = geom.vertexIndices[he.vertex()];
-      double w = facePoint.faceCoords.x;
-      dirRHS[vInd] += w * unitVec;
+    switch (point.type) {
+    case SurfacePointType::Vertex: {
+      addSource(point.vertex, 1., Vector2{1., 0.});
+      break;
     }
-    he = he.next();
-
-
-    { // Second adjacent vertex
-      size_t vInd = geom.vertexIndices[he.vertex()];
-      double w = facePoint.faceCoords.y;
-      dirRHS[vInd] += w * unitVec;
+    case SurfacePointType::Edge: {
+      Halfedge he = point.edge.halfedge();
+      addSource(he.vertex(), 1. - point.tEdge, geom.halfedgeVectorsInVertex[he].normalize());
+      addSource(he.twin().vertex(), point.tEdge, -geom.halfedgeVectorsInVertex[he.twin()].normalize());
+      break;
+    }
+    case SurfacePointType::Face: {
+      int iC = 0;
+      for (Halfedge he : point.face.adjacentHalfedges()) {
+        addSource(he.vertex(), point.faceCoords[iC],
+                  (geom.halfedgeVectorsInVertex[he] / geom.halfedgeVectorsInFace[he]).normalize());
+        iC++;
+      }
+      break;
     }
-    he = he.next();
-
-
-    { // Third adjacent vertex
-      size_t vInd = geom.vertexIndices[he.vertex()];
-      double w = facePoint.faceCoords.z;
-      dirRHS[vInd] += w * unitVec;
     }
   }
 
@@ -335,6 +339,8 @@ VectorHeatMethodSolver::transportTangentVectors(const std::vector<std::tuple<Sur
   }
 
 
+  geom.unrequireHalfedgeVectorsInFace();
+  geom.unrequireHalfedgeVectorsInVertex();
   geom.unrequireVertexIndices();
   return result;
 }
-- 
2.43.0


From a14afdff75326399f64e8792831e9a1cee672ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 047/109] fix: the signed heat method left a connection
 Laplacian required for ever

---
 src/surface/signed_heat_method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 4673618..77e7310 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -783,6 +783,8 @@ void SignedHeatSolver::ensureHaveVectorHeatSolver() {
   } else {
     vectorHeatSolver.reset(new SquareSolver<std::complex<double>>(vectorOp));
   }
+
+  geom.unrequireCrouzeixRaviartConnectionLaplacian();
 }
 
 void SignedHeatSolver::ensureHavePoissonSolver() {
-- 
2.43.0


From 000063dffac8695f96c636662c66cd9d71bd1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 048/109] fix: the signed heat method used quantities it did
 not require

---
 src/surface/signed_heat_method.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 77e7310..ed207b4 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -32,8 +32,18 @@ VertexData<double> SignedHeatSolver::computeDistance(const std::vector<Curve>& c
                                                      const std::vector<SurfacePoint>& points,
                                                      const SignedHeatOptions& options) {
 
+  geom.requireEdgeLengths();
+  geom.requireFaceAreas();
+  geom.requireCornerAngles();
+
   Vector<std::complex<double>> Xt = integrateVectorHeatFlow(curves, points, options);
-  return integrateVectorField(Xt, curves, points, options);
+  VertexData<double> phi = integrateVectorField(Xt, curves, points, options);
+
+  geom.unrequireEdgeLengths();
+  geom.unrequireFaceAreas();
+  geom.unrequireCornerAngles();
+
+  return phi;
 }
 
 VertexData<double> SignedHeatSolver::computeDistance(const std::vector<Curve>& curves,
@@ -808,6 +818,7 @@ SparseMatrix<double> SignedHeatSolver::crouzeixRaviartDoubleConnectionLaplacian(
   geom.requireEdgeIndices();
   geom.requireEdgeLengths();
   geom.requireHalfedgeCotanWeights();
+  geom.requireFaceAreas();
 
   size_t E = mesh.nEdges();
   SparseMatrix<double> L(2 * E, 2 * E);
@@ -852,6 +863,7 @@ SparseMatrix<double> SignedHeatSolver::crouzeixRaviartDoubleConnectionLaplacian(
   geom.unrequireEdgeIndices();
   geom.unrequireEdgeLengths();
   geom.unrequireHalfedgeCotanWeights();
+  geom.unrequireFaceAreas();
 
   return L;
 }
-- 
2.43.0


From 8ff2e531241ea77e6b91289571c4168ff9923ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 049/109] fix: signed curve segments along a part of an edge
 were oriented wrongly if they started inside of the edge

---
 src/surface/signed_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index ed207b4..5235ed5 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -223,7 +223,7 @@ void SignedHeatSolver::buildSignedCurveSource(const Curve& curve, Vector<std::co
     if (commonEdge != Edge()) {
       size_t eIdx = geom.edgeIndices[commonEdge];
       std::complex<double> innerProd(0, 1);
-      if (pA.vertex == commonEdge.secondVertex()) innerProd.imag(-1);
+      if (pA.inEdge(commonEdge).tEdge > pB.inEdge(commonEdge).tEdge) innerProd.imag(-1);
       double length = lengthOfSegment(pA, pB);
       std::complex<double> contrib = length * innerProd;
       X0[eIdx] += contrib;
-- 
2.43.0


From e08671262473030040cbe0503906e59d3d30bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 050/109] fix: a failed rebuild of the signed heat solver left
 the one for the previous diffusion time in use

---
 src/surface/signed_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 5235ed5..d1be99c 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -769,7 +769,6 @@ double SignedHeatSolver::computeAverageValueOnSource(const Vector<double>& phi,
 void SignedHeatSolver::ensureHaveVectorHeatSolver() {
 
   if (vectorHeatSolver != nullptr && !timeUpdated) return;
-  timeUpdated = false;
 
   geom.requireCrouzeixRaviartConnectionLaplacian();
 
@@ -794,6 +793,7 @@ void SignedHeatSolver::ensureHaveVectorHeatSolver() {
     vectorHeatSolver.reset(new SquareSolver<std::complex<double>>(vectorOp));
   }
 
+  timeUpdated = false;
   geom.unrequireCrouzeixRaviartConnectionLaplacian();
 }
 
-- 
2.43.0


From 839f6b17430e8df53ebe4a9dcacfca42848e9200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 051/109] fix: the polygon heat solver took element indices for
 dense indices on meshes with deleted elements

---
 src/surface/polygon_mesh_heat_solver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index a75f5c0..75b9fa1 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -102,16 +102,18 @@ VertexData<double> PolygonMeshHeatSolver::extendScalars(const std::vector<std::t
   GC_SAFETY_ASSERT(sources.size() != 0, "must have at least one source");
 
   ensureHaveScalarHeatSolver();
+  geom.requireVertexIndices();
 
   size_t V = mesh.nVertices();
   Vector<double> rhsVals = Vector<double>::Zero(V);
   Vector<double> rhsOnes = Vector<double>::Zero(V);
   for (size_t i = 0; i < sources.size(); i++) {
-    size_t ind = std::get<0>(sources[i]).getIndex();
+    size_t ind = geom.vertexIndices[std::get<0>(sources[i])];
     double val = std::get<1>(sources[i]);
     rhsVals[ind] = val;
     rhsOnes[ind] = 1.;
   }
+  geom.unrequireVertexIndices();
 
   Vector<double> interpVals = scalarHeatSolver->solve(rhsVals);
   Vector<double> interpOnes = scalarHeatSolver->solve(rhsOnes);
@@ -153,7 +155,6 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
       normsAllSame = false;
     }
   }
-  geom.unrequireVertexIndices();
 
   // Transport
   Vector<std::complex<double>> vecSolution = vectorHeatSolver->solve(dirRHS);
@@ -162,14 +163,15 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
   VertexData<Vector2> solution(mesh);
   if (normsAllSame) {
     vecSolution = (vecSolution.array() / vecSolution.array().abs()) * firstNorm;
-    for (size_t i = 0; i < V; i++) solution[i] = Vector2::fromComplex(vecSolution[i]);
+    for (Vertex v : mesh.vertices()) solution[v] = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]);
   } else {
     VertexData<double> interpMags = extendScalars(magnitudeSources);
-    for (size_t i = 0; i < V; i++) {
-      Vector2 dir = Vector2::fromComplex(vecSolution[i]).normalize();
-      solution[i] = dir * interpMags[i];
+    for (Vertex v : mesh.vertices()) {
+      Vector2 dir = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]).normalize();
+      solution[v] = dir * interpMags[v];
     }
   }
+  geom.unrequireVertexIndices();
 
   return solution;
 }
-- 
2.43.0


From ab7530c1fa24c6bd1c911c3568b345b3f81b9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 052/109] fix: flipping to Delaunay refused every mesh with
 boundary

---
 src/surface/simple_idt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..9b22036 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -118,8 +118,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
 
   auto flipEdgeIfNotDelaunay = [&](Edge e) {
     // Can't flip
-    //if (e.isBoundary()) return false;
-    if (e.isBoundary()) throw std::runtime_error("boundary");
+    if (e.isBoundary()) return false;
     if (!e.isManifold()) throw std::runtime_error("nonmanifold");
 
     // Don't want to flip
-- 
2.43.0


From 2ec0cb799371d5206af6db47cadad20c6f27e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 053/109] fix: the vector, signed and polygon heat solvers
 could not factor the singular Laplacian

---
 src/surface/polygon_mesh_heat_solver.cpp | 4 +++-
 src/surface/signed_heat_method.cpp       | 4 +++-
 src/surface/vector_heat_method.cpp       | 5 +++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 75b9fa1..638e044 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -48,7 +48,9 @@ void PolygonMeshHeatSolver::ensureHaveVectorHeatSolver() {
 void PolygonMeshHeatSolver::ensureHavePoissonSolver() {
   if (poissonSolver != nullptr) return;
 
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(laplaceMat));
+  // shifted, since the Laplacian is only positive semidefinite; see HeatMethodDistanceSolver
+  SparseMatrix<double> Ls = laplaceMat + 1e-6 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 }
 
 VertexData<double> PolygonMeshHeatSolver::computeDistance(const Vertex& sourceVert) {
diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index d1be99c..7e078ed 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -804,7 +804,9 @@ void SignedHeatSolver::ensureHavePoissonSolver() {
   geom.requireCotanLaplacian();
 
   SparseMatrix<double>& L = geom.cotanLaplacian;
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // shifted, since L is only positive semidefinite; see HeatMethodDistanceSolver
+  SparseMatrix<double> Ls = L + 1e-6 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 526b999..8b0ddcd 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -151,8 +151,9 @@ void VectorHeatMethodSolver::ensureHavePoissonSolver() {
   geom.requireCotanLaplacian();
   SparseMatrix<double>& L = geom.cotanLaplacian;
 
-  // Build the operator
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // Build the operator (shifted, since L is only positive semidefinite; see HeatMethodDistanceSolver)
+  SparseMatrix<double> Ls = L + 1e-6 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
-- 
2.43.0


From 1ee8ed4c567d6adb7fd157b69df49149a9bf9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 054/109] fix: signed heat distances with level set constraints
 solved singular systems

---
 src/surface/signed_heat_method.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 7e078ed..f0efe5c 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -635,11 +635,13 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
   A.resize(m, V);
   A.setFromTriplets(triplets.begin(), triplets.end());
 
-  // Assemble and solve system.
+  // Assemble and solve system. The constraints do not determine the constant part, so the Laplacian is shifted to keep the
+  // system from being singular; see HeatMethodDistanceSolver.
+  SparseMatrix<double> Ls = geom.cotanLaplacian + 1e-6 * identityMatrix<double>(V);
   Vector<double> phi;
   if (options.softLevelSetWeight < 0.) {
     SparseMatrix<double> Z(m, m);
-    SparseMatrix<double> LHS1 = horizontalStack<double>({geom.cotanLaplacian, A.transpose()});
+    SparseMatrix<double> LHS1 = horizontalStack<double>({Ls, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
     Vector<double> RHS = Vector<double>::Zero(V + m);
@@ -647,7 +649,7 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
     Vector<double> soln = solveSquare(LHS, RHS);
     phi = soln.head(V);
   } else {
-    SparseMatrix<double> LHS = geom.cotanLaplacian + options.softLevelSetWeight * A.transpose() * A;
+    SparseMatrix<double> LHS = Ls + options.softLevelSetWeight * A.transpose() * A;
     phi = solvePositiveDefinite(LHS, rhs);
   }
 
-- 
2.43.0


From dc5d8fb7613ee1b6823bd148f0163c3d4bc9d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 055/109] fix: polygon signed distances with level set
 constraints solved singular systems

---
 src/surface/polygon_mesh_heat_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 638e044..7e8f7a9 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -249,6 +249,7 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
       size_t v0 = geom.vertexIndices[curve[0]];
       for (size_t i = 1; i < nNodes; i++) {
         size_t vIdx = geom.vertexIndices[curve[i]];
+        if (vIdx == v0) continue; // the end of a closed curve
         triplets.emplace_back(m, v0, 1);
         triplets.emplace_back(m, vIdx, -1);
         m++;
@@ -257,7 +258,9 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
     A.resize(m, V);
     A.setFromTriplets(triplets.begin(), triplets.end());
     SparseMatrix<double> Z(m, m);
-    SparseMatrix<double> LHS1 = horizontalStack<double>({laplaceMat, A.transpose()});
+    // The constraints do not determine the constant part, so the Laplacian is shifted; see HeatMethodDistanceSolver.
+    SparseMatrix<double> Ls = laplaceMat + 1e-6 * identityMatrix<double>(V);
+    SparseMatrix<double> LHS1 = horizontalStack<double>({Ls, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
     Vector<double> RHS = Vector<double>::Zero(V + m);
-- 
2.43.0


From bf08c7e4234ca3cc2896e3498d329b8ce36036ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 056/109] fix: quadric error simplification left face normals
 required for ever

---
 src/surface/quadric_error_simplification.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/quadric_error_simplification.cpp b/src/surface/quadric_error_simplification.cpp
index 690095a..690262a 100644
--- a/src/surface/quadric_error_simplification.cpp
+++ b/src/surface/quadric_error_simplification.cpp
@@ -59,6 +59,8 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
     }
   }
 
+  geo.unrequireFaceNormals();
+
   using PotentialEdge = std::tuple<double, Edge>;
 
   auto cmp = [](const PotentialEdge& a, const PotentialEdge& b) -> bool { return std::get<0>(a) > std::get<0>(b); };
-- 
2.43.0


From 4a2b6c4bf274f67e37c6b8942053a7eda34bf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 057/109] fix: circumcenter smoothing left face areas required
 for ever

---
 src/surface/remeshing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index fa73e07..9d4a188 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -311,7 +311,6 @@ double smoothByCircumcenter(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& g
 
 double smoothByCircumcenter(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm,
                             double stepSize, RemeshBoundaryCondition bc) {
-  geom.requireFaceAreas();
   VertexData<Vector3> vertexOffsets(mesh);
   for (Vertex v : mesh.vertices()) {
     Vector3 updateDirection = Vector3::zero();
-- 
2.43.0


From a2b00cec413211f11440bea381e20f8489be3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 058/109] fix: Loop subdivision flipped edges behind the back
 of the mutation manager

---
 src/surface/subdivide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index adfe0f0..e7c667e 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -243,7 +243,7 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   }
 
   for (Edge e : toFlip) {
-    mesh.flip(e);
+    mm.flipEdge(e);
   }
 
   mesh.compress();
-- 
2.43.0


From 43d944108cd911c3ef70390d103132356f0e295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 059/109] fix: Catmull-Clark subdivision used wrong edge points
 and read face points of boundary loops

---
 src/surface/subdivide.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index e7c667e..eaf8635 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -3,6 +3,17 @@
 namespace geometrycentral {
 namespace surface {
 
+namespace {
+// Boundary curves are subdivided as cubic B-splines, independently of the interior of the mesh
+Vector3 boundaryVertexPosition(const VertexData<Vector3>& pos, Vertex v) {
+  Vector3 result = 3. / 4. * pos[v];
+  for (Edge e : v.adjacentEdges()) {
+    if (e.isBoundary()) result += 1. / 8. * pos[e.otherVertex(v)];
+  }
+  return result;
+}
+} // namespace
+
 void linearSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo) {
 
   VertexData<Vector3>& pos = geo.inputVertexPositions;
@@ -101,16 +112,25 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
 
   EdgeData<Vector3> splitEdgePositions(mesh);
   for (Edge e : mesh.edges()) {
-    std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
-    splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+    Vector3 midpoint = (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2.;
+    if (e.isBoundary()) {
+      splitEdgePositions[e] = midpoint;
+    } else {
+      std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
+      splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]] + 2. * midpoint) / 4.;
+    }
   }
 
   for (Vertex v : mesh.vertices()) {
     double D = (double)v.degree();
     Vector3 S = geo.inputVertexPositions[v];
+    if (v.isBoundary()) {
+      newPositions[v] = boundaryVertexPosition(pos, v);
+      continue;
+    }
     Vector3 R = Vector3::zero();
     for (Edge e : v.adjacentEdges()) {
-      R += splitEdgePositions[e] / D;
+      R += (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2. / D;
     }
     Vector3 Q = Vector3::zero();
     for (Face f : v.adjacentFaces()) {
-- 
2.43.0


From 54969336d15cf3ccb81741584e6da46087abbfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 060/109] fix: Loop subdivision applied the mask for interior
 vertices at the boundary

---
 src/surface/subdivide.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index eaf8635..15e84f8 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -214,6 +214,10 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   // Compute new positions for original vertices
   VertexData<Vector3> newPositions(mesh);
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      newPositions[v] = boundaryVertexPosition(pos, v);
+      continue;
+    }
     double n = (double)v.degree();
     double u = (n == 3) ? 3. / 16. : 3. / (8. * n);
     newPositions[v] = (1 - n * u) * pos[v];
-- 
2.43.0


From 0bab5c47785913932ac9e89a7a0390f33d6d0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 061/109] fix: adjustEdgeLengths took relative target lengths
 for absolute ones and split every edge

---
 src/surface/remeshing.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index 9d4a188..7d0e221 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -6,23 +6,28 @@ namespace surface {
 // The default trace options
 const RemeshOptions defaultRemeshOptions;
 
+namespace {
+// Negative target lengths are relative to the mean edge length
+double absoluteTargetLength(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, const RemeshOptions& options) {
+  if (options.targetEdgeLength >= 0) return options.targetEdgeLength;
+
+  double meanLength = 0;
+  for (Edge e : mesh.edges()) {
+    meanLength += geom.edgeLength(e);
+  }
+  meanLength /= mesh.nEdges();
+
+  return std::abs(options.targetEdgeLength * meanLength);
+}
+} // namespace
+
 void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, RemeshOptions options) {
   MutationManager mm(mesh, geom);
   return remesh(mesh, geom, mm, options);
 }
 
 void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm, RemeshOptions options) {
-  if (options.targetEdgeLength < 0) {
-    double meanLength = 0;
-    geom.requireEdgeLengths();
-    for (Edge e : mesh.edges()) {
-      meanLength += geom.edgeLengths[e];
-    }
-    geom.unrequireEdgeLengths();
-    meanLength /= mesh.nEdges();
-
-    options.targetEdgeLength = abs(options.targetEdgeLength * meanLength);
-  }
+  options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
 
   bool doConnectivityChanges = true;
 
@@ -363,6 +368,8 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
 
 bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm,
                        RemeshOptions options) {
+  options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
+
   geom.requireVertexDualAreas();
   geom.requireVertexMeanCurvatures();
 
-- 
2.43.0


From 4739f41591ea8a6ee4fbf529b3f5421aea410c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 062/109] fix: cutAlongEdges returned wrong parents for meshes
 with deleted elements

---
 src/surface/surgery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 74a7020..ce974fb 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -14,8 +14,8 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
   // Initialize parent references
   // The built-in dynamic container updates will automatically keep this container in sync as we modify the mesh
   HalfedgeData<Halfedge> parentHalfedges(*mesh, Halfedge());
-  for (size_t i = 0; i < mesh->nHalfedges(); i++) {
-    parentHalfedges[i] = origMesh.halfedge(i);
+  for (Halfedge he : mesh->halfedges()) {
+    parentHalfedges[he] = origMesh.halfedge(he.getIndex());
   }
 
   // Transfer the cut data to the new mesh.
-- 
2.43.0


From c765b5d3cba1a60d6c02966d23b5450f6782ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 063/109] fix: remeshing with curvature adaptation used
 curvatures from before the mesh changed

---
 src/surface/remeshing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index 7d0e221..a76468d 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -370,6 +370,8 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
                        RemeshOptions options) {
   options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
 
+  // The mesh may have changed since these were last computed
+  if (options.curvatureAdaptation > 0) geom.refreshQuantities();
   geom.requireVertexDualAreas();
   geom.requireVertexMeanCurvatures();
 
-- 
2.43.0


From 5ba54ec22fde0c7ec33859b160b43f7cb1d36a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 064/109] fix: cutAlongEdges left edges uncut beyond a vertex
 which an earlier cut had split

---
 src/surface/surgery.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index ce974fb..e9fef3f 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -66,18 +66,7 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
     Edge e = queue.front();
     queue.pop();
 
-    // Cache to restore after separate
-    Halfedge oldParent = parentHalfedges[e.halfedge()];
-    Halfedge oldParentT = parentHalfedges[e.halfedge().twin()];
-
-    Halfedge newHe, newHeOpp;
-    std::tie(newHe, newHeOpp) = mesh->separateEdge(e); // all the hard works happens here
-
-    // Keep the parent map accurate
-    parentHalfedges[newHe] = oldParent;
-    parentHalfedges[newHeOpp] = oldParentT;
-
-    // Add new neighbors for processing
+    // Add new neighbors for processing (before the separation, which may split the vertices they share with e)
     for (Edge en : e.halfedge().vertex().adjacentEdges()) {
       if (cut[en] && !considered[en]) {
         considered[en] = true;
@@ -90,6 +79,17 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
         queue.emplace(en);
       }
     }
+
+    // Cache to restore after separate
+    Halfedge oldParent = parentHalfedges[e.halfedge()];
+    Halfedge oldParentT = parentHalfedges[e.halfedge().twin()];
+
+    Halfedge newHe, newHeOpp;
+    std::tie(newHe, newHeOpp) = mesh->separateEdge(e); // all the hard works happens here
+
+    // Keep the parent map accurate
+    parentHalfedges[newHe] = oldParent;
+    parentHalfedges[newHeOpp] = oldParentT;
   }
 
   // Clear out any stale boundary parents
-- 
2.43.0


From 1c3e66eae32ceab9228c6de4e6f38754dcce8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 065/109] fix: smoothing moved vertices to NaN next to
 degenerate triangles and where normals cancel out

---
 src/surface/remeshing.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index a76468d..c1a0991 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -56,17 +56,18 @@ void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationMan
 Vector3 vertexNormal(VertexPositionGeometry& geom, Vertex v, MutationManager& mm) {
   Vector3 totalNormal = Vector3::zero();
   for (Corner c : v.adjacentCorners()) {
+    if (!(geom.faceArea(c.face()) > 0)) continue; // degenerate faces have no normal
     Vector3 cornerNormal = geom.cornerAngle(c) * geom.faceNormal(c.face());
     totalNormal += cornerNormal;
   }
-  return normalize(totalNormal);
+  return totalNormal.normalizeCutoff(); // zero if the normals cancel out
 }
 
 Vector3 boundaryVertexTangent(VertexPositionGeometry& geom, Vertex v, MutationManager& mm) {
   if (v.isBoundary()) {
     auto edgeVec = [&](Edge e) -> Vector3 {
       return (geom.vertexPositions[e.halfedge().tipVertex()] - geom.vertexPositions[e.halfedge().tailVertex()])
-          .normalize();
+          .normalizeCutoff();
     };
 
     Vector3 totalTangent = Vector3::zero();
@@ -75,7 +76,7 @@ Vector3 boundaryVertexTangent(VertexPositionGeometry& geom, Vertex v, MutationMa
         totalTangent += edgeVec(e);
       }
     }
-    return totalTangent.normalize();
+    return totalTangent.normalizeCutoff();
   } else {
     return Vector3::zero();
   }
@@ -130,7 +131,9 @@ Vector3 findODTCenter(VertexPositionGeometry& geom, Face f, MutationManager& mm)
       return (p0 + p1 + p2) / 3.;
     }
   }
-  return findCircumcenter(p0, p1, p2);
+  Vector3 circumcenter = findCircumcenter(p0, p1, p2);
+  if (!isfinite(circumcenter)) return (p0 + p1 + p2) / 3.; // degenerate face
+  return circumcenter;
 }
 
 bool isDelaunay(VertexPositionGeometry& geom, Edge e) {
@@ -324,7 +327,8 @@ double smoothByCircumcenter(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& g
       Vector3 circum = findODTCenter(geom, f, mm);
       updateDirection += geom.faceArea(f) * (circum - geom.vertexPositions[v]);
     }
-    updateDirection /= (6 * geom.vertexDualArea(v));
+    double dualArea = geom.vertexDualArea(v);
+    if (dualArea > 0) updateDirection /= 6 * dualArea;
 
     // project updateDirection onto space of allowed movements
     Vector3 stepDir;
-- 
2.43.0


From 894736d44151d4f32514fe72eac06294220279a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 066/109] fix: FMMDistance: propagate the negative side of a
 signed distance by magnitude

The triangle update took the minimum of negative candidates, i.e. the largest magnitude, and compared an
unsigned difference with a signed one, so distances on the negative side differed from those on the positive side.
---
 src/surface/fast_marching_method.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 417e782..1d2838a 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -13,6 +13,10 @@ namespace {
 // TODO parameter c isn't actually defined in paper, so I guessed that it was an error
 double eikonalDistanceSubroutine(double a, double b, double theta, double dA, double dB, int sign) {
 
+  // On the negative side of the source, everything below applies to the magnitudes
+  if (sign < 0) {
+    return -eikonalDistanceSubroutine(a, b, theta, -dA, -dB, 1);
+  }
 
   if (theta <= PI / 2.0) {
     double u = dB - dA;
-- 
2.43.0


From bd51ca90958e183dfb9432aa8ad1f5b57249f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 067/109] fix: FMMDistance: do not update triangles from source
 vertices which have no distance yet

---
 src/surface/fast_marching_method.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 1d2838a..6787b76 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -224,6 +224,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         continue;
       }
 
+      // A source vertex which has not been reached yet has no distance; its triangles are checked once it has
+      if (!finalized[neighVert]) continue;
+
       // Check the third point of the "left" triangle straddling this edge
       if (he.isInterior()) {
         Vertex newVert = he.next().next().vertex();
-- 
2.43.0


From 3fe146381bf8b669c51589357a86c30dbf52abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 068/109] fix: exact geodesic gradients and logarithms at
 vertices ignored the rescaling of the tangent space

The angle within a corner was added to the direction of the halfedge unscaled, so at any vertex whose angles do not
sum to 2 pi (pi on the boundary) the vectors did not point along the geodesic.
---
 src/surface/exact_geodesic_helpers.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesic_helpers.cpp b/src/surface/exact_geodesic_helpers.cpp
index 773fc56..e700e56 100644
--- a/src/surface/exact_geodesic_helpers.cpp
+++ b/src/surface/exact_geodesic_helpers.cpp
@@ -414,8 +414,18 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
     // Transform from face to halfedge
     vTransformed /= geom.halfedgeVectorsInFace[heShared];
 
-    // Transform from halfedge to vertex
+    // Transform from halfedge to vertex. Angles are rescaled in the tangent space at a vertex, so express the line along
+    // v by its direction within the corner of f.
+    geom.requireCornerAngles();
+    geom.requireCornerScaledAngles();
+    double cornerAngle = geom.cornerAngles[heShared.corner()];
+    double scaledAngle = geom.cornerScaledAngles[heShared.corner()];
+    bool pointsInward = dot(vTransformed, Vector2::fromAngle(0.5 * cornerAngle)) >= 0.;
+    double angle = pointsInward ? vTransformed.arg() : (-vTransformed).arg();
+    vTransformed *= Vector2::fromAngle(angle * (scaledAngle / cornerAngle - 1.));
     vTransformed *= geom.halfedgeVectorsInVertex[heShared];
+    geom.unrequireCornerScaledAngles();
+    geom.unrequireCornerAngles();
     break;
   }
   case SurfacePointType::Edge: {
-- 
2.43.0


From edab770ca0ef6fa45ec52133958b0419114a4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 069/109] fix: FMMDistance: find the sign of all vertices
 around a source vertex

The walk around a vertex missed vertices which come before the first known negative one, and continued along the
boundary loop at boundary vertices.
---
 src/surface/fast_marching_method.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 6787b76..7ca445c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -127,15 +127,22 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
       for (size_t i = 0; i < nNodes; i++) {
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
-        Halfedge startHe = p.vertex.halfedge();
-        Halfedge currHe = startHe;
-        while (true) {
-          if (signs[currHe.tipVertex()] != 0 && signs[currHe.tipVertex()] != signs[p.vertex] &&
-              signs[currHe.next().tipVertex()] == 0) {
-            signs[currHe.next().tipVertex()] = -1;
+        // Spread the negative sign to vertices connected to a negative one through the faces around p
+        bool anyChanged = true;
+        while (anyChanged) {
+          anyChanged = false;
+          for (Halfedge he : p.vertex.outgoingHalfedges()) {
+            if (!he.isInterior()) continue;
+            Vertex vA = he.tipVertex();
+            Vertex vB = he.next().tipVertex();
+            if (signs[vA] == -1 && signs[vB] == 0) {
+              signs[vB] = -1;
+              anyChanged = true;
+            } else if (signs[vB] == -1 && signs[vA] == 0) {
+              signs[vA] = -1;
+              anyChanged = true;
+            }
           }
-          currHe = currHe.next().next().twin();
-          if (currHe == startHe) break;
         }
       }
     }
-- 
2.43.0


From f2c7edeab51f28549e4610af73b3ea89936a3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 070/109] fix: exact geodesics: drop windows of no width
 instead of failing an assertion

---
 src/surface/exact_geodesics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index e34237e..385c46d 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -655,6 +655,7 @@ void GeodesicAlgorithmExact::update_list_and_queue(list_pointer list,
                                                    IntervalWithStop* candidates, // up to two candidates
                                                    unsigned num_candidates) {
   assert(num_candidates <= 2);
+  if (num_candidates == 0) return;
   // assert(list->first() != nullptr);
   Edge edge = list->edge();
   double edge_length = geom.edgeLengths[edge];
@@ -999,6 +1000,11 @@ void GeodesicAlgorithmExact::construct_propagated_intervals(bool invert, Halfedg
     second->stop() = edge_length;
   }
 
+  // an interval this narrow would vanish in the rounding errors below
+  if (num_candidates == 1 && first->stop() - first->start() < 1e-12 * edge_length) {
+    num_candidates = 0;
+    return;
+  }
 
   // invert intervals if necessary; fill missing data and set pointers
   // correctly
-- 
2.43.0


From d31e876d4f56adb8b360ff064c6de702cedb08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 071/109] fix: geodesic algorithms left edge lengths and corner
 angles of the geometry required

---
 include/geometrycentral/surface/exact_geodesics.h |  6 +++++-
 src/surface/exact_geodesics.cpp                   |  2 ++
 src/surface/fast_marching_method.cpp              | 10 ++++++++--
 src/surface/mesh_graph_algorithms.cpp             |  1 +
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/exact_geodesics.h b/include/geometrycentral/surface/exact_geodesics.h
index 444aae2..42cef09 100755
--- a/include/geometrycentral/surface/exact_geodesics.h
+++ b/include/geometrycentral/surface/exact_geodesics.h
@@ -22,7 +22,11 @@ VertexData<double> exactGeodesicDistance(SurfaceMesh& mesh, IntrinsicGeometryInt
 class GeodesicAlgorithmExact {
 public:
   GeodesicAlgorithmExact(SurfaceMesh& mesh_, IntrinsicGeometryInterface& geom_);
-  ~GeodesicAlgorithmExact(){};
+  ~GeodesicAlgorithmExact();
+
+  // intervals are linked by pointers, and the geometry is kept required
+  GeodesicAlgorithmExact(const GeodesicAlgorithmExact&) = delete;
+  GeodesicAlgorithmExact& operator=(const GeodesicAlgorithmExact&) = delete;
 
   // propagation algorithm stops after reaching the certain distance from the
   // source or after ensuring that all the stop_points are covered
diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 385c46d..6148851 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -27,6 +27,8 @@ GeodesicAlgorithmExact::GeodesicAlgorithmExact(SurfaceMesh& mesh_, IntrinsicGeom
   vertexIsBoundary = mesh.getVertexBoundaryStatus();
 };
 
+GeodesicAlgorithmExact::~GeodesicAlgorithmExact() { geom.unrequireEdgeLengths(); }
+
 // == Adapters for various input types
 void GeodesicAlgorithmExact::propagate(const std::vector<Vertex>& sources, double max_propagation_distance,
                                        const std::vector<Vertex>& stop_points) {
diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 7ca445c..36412ab 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -60,14 +60,15 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
   typedef std::pair<double, Vertex> Entry;
 
   SurfaceMesh& mesh = geometry.mesh;
-  geometry.requireEdgeLengths();
-  geometry.requireCornerAngles();
 
   // TODO this could handle nonmanifold geometry with a few small tweaks
   if (!mesh.isManifold()) {
     throw std::runtime_error("handling of nonmanifold mesh not yet implemented");
   }
 
+  geometry.requireEdgeLengths();
+  geometry.requireCornerAngles();
+
   // Initialize
   VertexData<double> distances(mesh, std::numeric_limits<double>::infinity());
   VertexData<int> signs(mesh, 1);
@@ -101,6 +102,8 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         } else {
           Face commonFace = sharedFace(pA, pB);
           if (commonFace == Face()) {
+            geometry.unrequireCornerAngles();
+            geometry.unrequireEdgeLengths();
             throw std::logic_error("For signed fast marching distance, each curve segment must share a common face.");
           }
           BarycentricVector tangent(pA, pB);
@@ -277,6 +280,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
     }
   }
 
+  geometry.unrequireCornerAngles();
+  geometry.unrequireEdgeLengths();
+
   return distances;
 }
 
diff --git a/src/surface/mesh_graph_algorithms.cpp b/src/surface/mesh_graph_algorithms.cpp
index d08c106..8c0efff 100644
--- a/src/surface/mesh_graph_algorithms.cpp
+++ b/src/surface/mesh_graph_algorithms.cpp
@@ -125,6 +125,7 @@ std::unordered_map<Vertex, double> vertexDijkstraDistanceWithinRadius(IntrinsicG
     }
   }
 
+  geom.unrequireEdgeLengths();
   return shortestDist;
 }
 
-- 
2.43.0


From 795f3cc887347e1c2faf2a56a6385666f5d660cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 072/109] fix: exact geodesics did not continue beyond
 nonmanifold vertices along all of their edges

Paths through a nonmanifold vertex started only along halfedges pointing away from it, and not into the face of each of
these halfedges, so parts of the mesh were never reached.
---
 src/surface/exact_geodesics.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 6148851..21885f5 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -487,23 +487,24 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       double dy = min_interval->pseudo_y();
       double source_d = min_interval->d() + sqrt(dx * dx + dy * dy);
 
-      for (Halfedge heSpoke : v.outgoingHalfedges()) {
-        double L = geom.edgeLengths[heSpoke.edge()];
+      // The vertex acts as a source for all of its edges and all of their faces (hence there is no incoming halfedge)
+      for (Edge spoke : v.adjacentEdges()) {
+        double L = geom.edgeLengths[spoke];
         candidate.start() = 0;
         candidate.stop() = L;
         candidate.d() = source_d;
-        candidate.pseudo_x() = heSpoke.orientation() ? 0 : L;
+        candidate.pseudo_x() = (spoke.halfedge().tailVertex() == v) ? 0 : L;
         candidate.pseudo_y() = 0;
 
         candidate.next() = nullptr;
-        candidate.edge() = heSpoke.edge();
-        candidate.halfedge() = heSpoke;
+        candidate.edge() = spoke;
+        candidate.halfedge() = Halfedge();
         candidate.edge_length() = L;
         candidate.source_index() = min_interval->source_index();
         candidate.direction() = Interval::DirectionType::FROM_HALFEDGE;
         candidate.min() = candidate.d();
 
-        update_list_and_queue(interval_list(heSpoke.edge()), &candidate, 1);
+        update_list_and_queue(interval_list(spoke), &candidate, 1);
       }
     };
 
-- 
2.43.0


From 4475e7fe565d13c757477b8ec7db2a517b63da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 073/109] fix: FMMDistance: wrong distances from a source in a
 face to two of its vertices

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 36412ab..e35433a 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -184,9 +184,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double u = p.faceCoords[0];
         double v = p.faceCoords[1];
         double w = p.faceCoords[2];
-        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lAB2 * v * w; // squared distance from p to vA
+        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
-        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lBC2 * u * v; // squared distance from p to vC
+        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-- 
2.43.0


From d26cfdca48c392137d6b40f7e8fab07de97df07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 074/109] fix: surface points on nonmanifold edges had the
 wrong orientation, boundary edges of a loop counted as sharing a face

---
 .../geometrycentral/surface/surface_point.ipp    | 14 +++++++-------
 src/surface/surface_point.cpp                    | 16 +++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index c82a2aa..d55636c 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -9,7 +9,8 @@ inline SurfacePoint::SurfacePoint() : type(SurfacePointType::Vertex) {}
 inline SurfacePoint::SurfacePoint(Vertex v) : type(SurfacePointType::Vertex), vertex(v) {}
 inline SurfacePoint::SurfacePoint(Edge e, double tEdge_) : type(SurfacePointType::Edge), edge(e), tEdge(tEdge_) {}
 inline SurfacePoint::SurfacePoint(Halfedge he, double tHalfedge)
-    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he == he.edge().halfedge() ? tHalfedge : (1. - tHalfedge)) {}
+    : type(SurfacePointType::Edge), edge(he.edge()),
+      tEdge(he.orientation() == he.edge().halfedge().orientation() ? tHalfedge : (1. - tHalfedge)) {}
 inline SurfacePoint::SurfacePoint(Face f, Vector3 faceCoords_)
     : type(SurfacePointType::Face), face(f), faceCoords(faceCoords_) {}
 
@@ -110,7 +111,6 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
 
   case SurfacePointType::Edge: {
 
-    double thisT = tEdge;
     for (Halfedge targetHe : edge.adjacentHalfedges()) {
 
       int i = 0;
@@ -118,6 +118,9 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
         if (he == targetHe) {
           // Find the appropriate barycentric coordinate and return
 
+          // Flip the point to be along this halfedge
+          double thisT = targetHe.orientation() == edge.halfedge().orientation() ? tEdge : 1. - tEdge;
+
           Vector3 bary = Vector3::zero();
           bary[i] = 1.0 - thisT;
           bary[(i + 1) % 3] = thisT;
@@ -126,9 +129,6 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
         }
         i++;
       }
-
-      // Flip the point to be along the other halfedge
-      thisT = 1. - thisT;
     }
 
     break;
@@ -178,7 +178,7 @@ inline Vertex SurfacePoint::nearestVertex() const {
   }
   case SurfacePointType::Edge: {
     if (tEdge < .5) return edge.halfedge().vertex();
-    return edge.halfedge().twin().vertex();
+    return edge.halfedge().tipVertex();
     break;
   }
   case SurfacePointType::Face: {
@@ -207,7 +207,7 @@ inline T SurfacePoint::interpolate(const VertexData<T>& data) const {
   }
   case SurfacePointType::Edge: {
     T valTail = data[edge.halfedge().vertex()];
-    T valTip = data[edge.halfedge().twin().vertex()];
+    T valTip = data[edge.halfedge().tipVertex()];
     return (1. - tEdge) * valTail + tEdge * valTip;
     break;
   }
diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..e9c1250 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -19,9 +19,10 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 
 bool checkAdjacent(Vertex vA, Edge eB) {
   bool adjacent = false;
-  for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
-    if (eB == he.edge()) adjacent = true;
+  for (Face f : vA.adjacentFaces()) {
+    for (Edge eN : f.adjacentEdges()) {
+      if (eN == eB) adjacent = true;
+    }
   }
   return adjacent;
 }
@@ -40,10 +41,11 @@ bool checkAdjacent(Edge eA, Edge eB) {
   bool adjacent = false;
 
   // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
+  for (Face fA : eA.adjacentFaces()) {
+    for (Face fB : eB.adjacentFaces()) {
+      if (fA == fB) adjacent = true;
+    }
+  }
 
   return adjacent;
 }
-- 
2.43.0


From 5c762d3c5fc1cc2a8f6f601a450acede17428c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 075/109] fix: exact geodesic paths from a nonmanifold vertex
 missed a source on an edge towards it

---
 src/surface/exact_geodesics.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 21885f5..ea63f5a 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -153,12 +153,11 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       double edgeLength = geom.edgeLengths[e];
-      double position = he.orientation() ? 0.0 : edgeLength;
+      double position = e.halfedge().tailVertex() == v ? 0.0 : edgeLength;
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval && interval->visible_from_source()) {
-- 
2.43.0


From 9c8d9e15f18b5fbe408a115afbcea0adb5806869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 076/109] fix: FMMDistance: signs next to curves with triangles
 which have all of their vertices on them

---
 src/surface/fast_marching_method.cpp | 37 +++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index e35433a..d6375b1 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -87,6 +87,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
   // Initialize signs
   if (sign) {
     for (Vertex v : mesh.vertices()) signs[v] = 0;
+    FaceData<int> faceSigns(mesh, 0); // sides of the faces along the curve
+    EdgeData<char> onCurve(mesh, false);
+    VertexData<char> isCurveVertex(mesh, false);
     for (auto& curve : initialDistances) {
       size_t nNodes = curve.size();
       for (size_t i = 0; i < nNodes - 1; i++) {
@@ -99,6 +102,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           Halfedge he = commonEdge.halfedge();
           signs[he.next().tipVertex()] = (he.vertex() == pA.vertex) ? -1 : 1;
           if (!commonEdge.isBoundary()) signs[he.twin().next().tipVertex()] = -signs[he.next().tipVertex()];
+          onCurve[commonEdge] = true;
+          faceSigns[he.face()] = signs[he.next().tipVertex()];
+          if (!commonEdge.isBoundary()) faceSigns[he.twin().face()] = -faceSigns[he.face()];
         } else {
           Face commonFace = sharedFace(pA, pB);
           if (commonFace == Face()) {
@@ -108,6 +114,7 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           }
           BarycentricVector tangent(pA, pB);
           BarycentricVector normal = -tangent.rotate90(geometry);
+          faceSigns[commonFace] = 2; // the curve passes through
           for (Vertex v : commonFace.adjacentVertices()) {
             BarycentricVector u(pA, SurfacePoint(v));
             signs[v] = (dot(geometry, normal, u) > 0) ? 1 : -1;
@@ -122,6 +129,7 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
         signs[p.vertex] = 1;
+        isCurveVertex[p.vertex] = true;
       }
     }
     // Fill in the signs of faces around the fan of any vertices.
@@ -130,20 +138,27 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
       for (size_t i = 0; i < nNodes; i++) {
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
-        // Spread the negative sign to vertices connected to a negative one through the faces around p
+        // Spread the negative side through the faces around p, across edges which are not on the curve
         bool anyChanged = true;
         while (anyChanged) {
           anyChanged = false;
-          for (Halfedge he : p.vertex.outgoingHalfedges()) {
-            if (!he.isInterior()) continue;
-            Vertex vA = he.tipVertex();
-            Vertex vB = he.next().tipVertex();
-            if (signs[vA] == -1 && signs[vB] == 0) {
-              signs[vB] = -1;
-              anyChanged = true;
-            } else if (signs[vB] == -1 && signs[vA] == 0) {
-              signs[vA] = -1;
-              anyChanged = true;
+          for (Face f : p.vertex.adjacentFaces()) {
+            if (faceSigns[f] == 0) {
+              for (Halfedge he : f.adjacentHalfedges()) {
+                Face fOther = he.twin().face();
+                bool otherIsNegative = he.twin().isInterior() && !onCurve[he.edge()] && faceSigns[fOther] == -1;
+                if (otherIsNegative || (signs[he.vertex()] == -1 && !isCurveVertex[he.vertex()])) {
+                  faceSigns[f] = -1;
+                  anyChanged = true;
+                }
+              }
+            }
+            if (faceSigns[f] != -1) continue;
+            for (Vertex v : f.adjacentVertices()) {
+              if (signs[v] == 0) {
+                signs[v] = -1;
+                anyChanged = true;
+              }
             }
           }
         }
-- 
2.43.0


From eb823d64b025c21257777bcfa19d26c8cb666413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 077/109] fix: exact geodesics took distances of nonmanifold
 vertices from windows which do not reach them

---
 src/surface/exact_geodesics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index ea63f5a..e052aed 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -507,10 +507,10 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       }
     };
 
-    if (!vertexIsManifold[he.tailVertex()]) {
+    if (first_interval && !vertexIsManifold[he.tailVertex()]) {
       propagateNonmanifoldVertex(he.tailVertex(), true);
     }
-    if (!vertexIsManifold[he.tipVertex()]) {
+    if (last_interval && !vertexIsManifold[he.tipVertex()]) {
       propagateNonmanifoldVertex(he.tipVertex(), false);
     }
 
-- 
2.43.0


From 2887fd129c6b28bf26be78e4098c39debfac4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 078/109] fix: findCenter started from a deleted vertex on
 meshes which are not compressed

---
 src/surface/surface_centers.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_centers.cpp b/src/surface/surface_centers.cpp
index 0044f11..fc88b8a 100644
--- a/src/surface/surface_centers.cpp
+++ b/src/surface/surface_centers.cpp
@@ -64,7 +64,14 @@ SurfacePoint findCenter(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInterface& g
   //}
 
   // Random initial guess
-  initialGuess = SurfacePoint(mesh.vertex(randomIndex(mesh.nVertices())));
+  size_t iGuess = randomIndex(mesh.nVertices());
+  for (Vertex v : mesh.vertices()) {
+    if (iGuess == 0) {
+      initialGuess = SurfacePoint(v);
+      break;
+    }
+    iGuess--;
+  }
 
   // Compute an approximate mesh diameter to use as parameter in the p=1 case
   double meshDiameter = 1.;
-- 
2.43.0


From e4b99239a7b778e062c8bae155720e36cb505e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 079/109] fix: traceGeodesic did not set the end point for a
 vector of zero length

---
 src/surface/trace_geodesic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 8e65cef..a191acd 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -718,6 +718,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
 
+    result.endPoint = startP;
     result.endingDir = Vector2::zero();
     result.length = 0;
 
@@ -792,6 +793,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    result.endPoint = SurfacePoint(startFace, startBary);
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From 56edfd7ee1a90019173c2e5dc04e73c7c560d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 080/109] fix: exact geodesics: straight lines through flat
 vertices could be lost to rounding errors

---
 src/surface/exact_geodesics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index e052aed..75ce961 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -471,7 +471,8 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
 
     auto saddleOrBoundary = [&](Vertex v) -> bool {
       geom.requireVertexGaussianCurvatures();
-      bool saddle = geom.vertexGaussianCurvatures[v] < 0;
+      // Straight lines through flat vertices may be lost to rounding errors, so treat them like saddles
+      bool saddle = geom.vertexGaussianCurvatures[v] < 1e-6;
       geom.unrequireVertexGaussianCurvatures();
       return saddle || vertexIsBoundary[v];
     };
-- 
2.43.0


From 856345b6d418254435cfb67c3a1006b2310678c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 081/109] fix: exact geodesic paths could end at a source which
 is not the closest one

---
 src/surface/exact_geodesics.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 75ce961..d008e8f 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -153,6 +153,10 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
+    // Windows on some of the edges may not be the closest ones at v; only consider those which give its distance
+    double bestDistance = GEODESIC_INF;
+    double bestVisibleDistance = GEODESIC_INF;
+    long bestVisibleSource = -1;
     for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
@@ -160,10 +164,17 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
       double position = e.halfedge().tailVertex() == v ? 0.0 : edgeLength;
 
       const_interval_pointer interval = list->covering_interval(position);
-      if (interval && interval->visible_from_source()) {
-        return (long)interval->source_index();
+      if (!interval) continue;
+      double distance = interval->signal(position);
+      bestDistance = std::min(bestDistance, distance);
+      if (interval->visible_from_source() && distance < bestVisibleDistance) {
+        bestVisibleDistance = distance;
+        bestVisibleSource = (long)interval->source_index();
       }
     }
+    if (bestVisibleDistance <= bestDistance + SMALLEST_INTERVAL_RATIO * geom.edgeLengths[v.halfedge().edge()]) {
+      return bestVisibleSource;
+    }
     return -1;
   }
   case SurfacePointType::Edge: {
@@ -1292,7 +1303,8 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
 
     // while this point is not in the direct visibility of some
     // source (if we are inside the FACE, we obviously hit the source)
-    while (visible_from_source(path.back()) < 0) {
+    long visible_source;
+    while ((visible_source = visible_from_source(path.back())) < 0) {
       SurfacePoint& q = path.back();
 
       possible_traceback_edges(q, possible_edges);
@@ -1320,6 +1332,7 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
         path.push_back(SurfacePoint(edge, normalized_position));
       }
     }
+    source_index = (unsigned)visible_source;
   }
 
   SurfacePoint source = static_cast<SurfacePoint>(m_sources[source_index]);
-- 
2.43.0


From 5e6bb791258ea2dfa9fab102569605ceb28c6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 082/109] fix: exact geodesics: wrong intersection of windows
 in the case of a linear equation

---
 src/surface/exact_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index d008e8f..5b03829 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -327,7 +327,7 @@ unsigned GeodesicAlgorithmExact::intersect_intervals(interval_pointer zero, Inte
 
     if (std::abs(A) < local_small_epsilon) { // if A == 0, linear equation
       if (std::abs(B) > local_small_epsilon) {
-        inter[0] = -C / B; // one solution
+        inter[0] = -0.5 * C / B; // one solution (of A x^2 + 2 B x + C)
         Ninter = 1;
       }
     } else {
-- 
2.43.0


From e6722404276301f8d4aab2f0a18a1add6af07884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 083/109] fix: point cloud connection Laplacian: wrong sign of
 rotations between points with opposite normals

---
 src/pointcloud/point_position_geometry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..0915289 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -350,7 +350,6 @@ std::tuple<Vector2, bool> PointPositionGeometry::transportBetweenOriented(Point
   bool inverted = false;
   if (dot(sourceN, targetN) < 0.) {
     targetN *= -1;
-    targetBasisY *= -1;
     inverted = true;
   }
 
-- 
2.43.0


From 0a330fb75f51aa9426548d54e90186f6989c59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 084/109] fix: point cloud containers which outlive their cloud
 accessed freed memory

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..902126e 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From 20fe71e90b5b65755bb190b01d0f3d828a53748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 085/109] fix: signed distance on point clouds: only one
 segment per curve node was used

---
 src/pointcloud/point_cloud_heat_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index 60a1c9b..f5d6798 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -298,8 +298,8 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
       size_t vIdxA = geom.pointIndices[vA];
       size_t vIdxB = geom.pointIndices[vB];
       for (int j = 0; j < 2; j++) {
-        X0[2 * vIdxA + j] = curveNormalA[j];
-        X0[2 * vIdxB + j] = curveNormalB[j];
+        X0[2 * vIdxA + j] += curveNormalA[j];
+        X0[2 * vIdxB + j] += curveNormalB[j];
       }
       if (options.preserveSourceNormals) {
         if (curveIndices[vA] < 0) {
-- 
2.43.0


From 99b445cf88c08fa62b879769a10cceb27283b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 086/109] fix: signed distance on point clouds: soft zero set
 constraint skipped the first node of curves

---
 src/pointcloud/point_cloud_heat_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index f5d6798..b3c9752 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -429,7 +429,7 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
         size_t nNodes = curve.size();
         bool isClosed = (curve[0] == curve[nNodes - 1]);
         size_t uB = isClosed ? nNodes - 1 : nNodes;
-        for (size_t i = 1; i < uB; i++) {
+        for (size_t i = 0; i < uB; i++) {
           triplets.emplace_back(m, geom.pointIndices[curve[i]], 1);
           m++;
         }
-- 
2.43.0


From 3845d755000a36e392a7b562aa54636fa8b9b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 087/109] fix: point cloud connection Laplacian did not make
 sure that it has tangent bases

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 0915289..b830e3e 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 2c491a55620b8a2cd9a2993390b2590acd25aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 088/109] fix: signed distance on point clouds: singular system
 when several level sets are preserved

---
 src/pointcloud/point_cloud_heat_solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index b3c9752..3615835 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -443,7 +443,9 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
   }
   case (LevelSetConstraint::Multiple): {
     geom.tuftedGeom->requireCotanLaplacian();
-    SparseMatrix<double>& L = geom.tuftedGeom->cotanLaplacian;
+    // The constraints do not determine the constant part, so the Laplacian is shifted to keep the system from being
+    // singular; see HeatMethodDistanceSolver.
+    SparseMatrix<double> L = geom.tuftedGeom->cotanLaplacian + 1e-6 * identityMatrix<double>(N);
     geom.tuftedGeom->unrequireCotanLaplacian();
 
     std::vector<Eigen::Triplet<double>> triplets;
-- 
2.43.0


From ccc74509628d1c58abc2837c108a13dca7433fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 089/109] fix: MeshData left with a freed buffer when an
 allocation failed while growing or compressing

Eigen's assignment releases the old buffer before it allocates the new one; swap instead.
---
 include/geometrycentral/utilities/mesh_data.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index baf993a..7e6fbf9 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -95,7 +95,7 @@ std::function<void(size_t)> MeshData<E, T>::makeExpandCallback() {
     for (size_t i = oldSize; i < newSize; i++) {
       newData[i] = defaultValue;
     }
-    data = newData;
+    data.swap(newData);
   };
 }
 
@@ -109,7 +109,7 @@ std::function<void(const std::vector<size_t>&)> MeshData<E, T>::makePermuteCallb
     for (size_t i = 0; i < perm.size(); i++) {
       newData[i] = data[perm[i]];
     }
-    data = newData;
+    data.swap(newData);
   };
 }
 
-- 
2.43.0


From 824567a77ffcb152f5b8f10c4a3bb51360919fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 090/109] fix: purging a sparse matrix quantity left a broken
 matrix when an allocation failed

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index adef4ed..62767d6 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -53,7 +53,9 @@ void clearBuffer(int* buffer) {}
 // Eigen sparse matrices
 template <typename F>
 void clearBuffer(Eigen::SparseMatrix<F>* buffer) {
-  *buffer = Eigen::SparseMatrix<F>();
+  // (swap, because a failed assignment leaves the matrix without a buffer but with its old size)
+  Eigen::SparseMatrix<F> empty;
+  buffer->swap(empty);
 }
 
 // any unique_ptr<> type
-- 
2.43.0


From ced4cdf0179855c57b92fe69248335023e15bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 091/109] fix: stripe isolines: connecting at faces where the
 direction field is singular failed

At a face where the line field itself is singular the corner values do not describe one function, so
matching the crossings of its edges aborted or joined unrelated lines.
---
 src/surface/stripe_patterns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 6bc2fbc..acd3853 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -458,7 +458,7 @@ void connectIsolinesOnSingularities(EmbeddedGeometryInterface& geometry, const C
   geometry.requireFaceIndices();
 
   for (Face f : mesh.faces()) {
-    if (stripeIndices[f] != 0) {
+    if (stripeIndices[f] != 0 && branchIndices[f] == 0) {
       std::vector<std::vector<Vector3>> facePoints;
       std::vector<std::vector<size_t>> faceIndices;
       for (Halfedge he : f.adjacentHalfedges()) {
-- 
2.43.0


From 7a8ea6bde9bfb48311867358e9794886a5bdaad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 092/109] fix: boundary-aligned direction fields: right-hand
 side wrongly multiplied by the mass matrix

The eliminated boundary terms already are the right-hand side of the harmonic system; weighting them with
the (Galerkin) mass matrix spread and rescaled them, so the result was not the smoothest field.
---
 src/surface/direction_fields.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index be79ff7..7aa5266 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -149,12 +149,8 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireVertexGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInVertex();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
 
@@ -204,8 +200,7 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
-  Eigen::VectorXcd solution = solveSquare(LHS, RHS);
+  Eigen::VectorXcd solution = solveSquare(LHS, b);
 
   // Copy the result to a VertexData vector for both the boundary and interior
   VertexData<Vector2> toReturn(mesh);
@@ -229,12 +224,8 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireFaceGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInFace();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.faceGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeFaceConnectionLaplacian(geometry, nSym);
 
@@ -287,8 +278,7 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
-  Eigen::VectorXcd solution = solveSquare(LHS, RHS);
+  Eigen::VectorXcd solution = solveSquare(LHS, b);
 
   // Copy the result to a FaceData object
   FaceData<Vector2> field(mesh);
-- 
2.43.0


From 70d1225079c2de7adfc318cad17b06ec61891659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 093/109] fix: face indices of direction fields ignored the
 turning along boundary edges

A face with a boundary edge was credited only part of the turning around it, so regular faces at the
boundary were reported singular and singular ones regular.
---
 src/surface/direction_fields.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index 7aa5266..39e0908 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -414,19 +414,17 @@ FaceData<int> computeFaceIndex(IntrinsicGeometryInterface& geometry, const Verte
     double totalRot = geometry.faceGaussianCurvatures[f] * nSym;
 
     for (Halfedge he : f.adjacentHalfedges()) {
-      if (he.twin().isInterior()) {
-        // Compute the rotation along the halfedge implied by the field
-        Vector2 x0 = directionField[he.vertex()];
-        Vector2 x1 = directionField[he.twin().vertex()];
-        Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
+      // Compute the rotation along the halfedge implied by the field
+      Vector2 x0 = directionField[he.vertex()];
+      Vector2 x1 = directionField[he.twin().vertex()];
+      Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
 
-        // Find the difference in angle
-        double theta0 = (rot * x0).arg();
-        double theta1 = x1.arg();
-        double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
+      // Find the difference in angle
+      double theta0 = (rot * x0).arg();
+      double theta1 = x1.arg();
+      double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
 
-        totalRot += deltaTheta; // accumulate
-      }
+      totalRot += deltaTheta; // accumulate
     }
 
     // Compute the net rotation and corresponding index
-- 
2.43.0


From cef68b36e02e6538f320bc88a5f1d9addc2dbbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 094/109] fix: stripe patterns on meshes which are not
 compressed

Vertices were addressed by their dense index in the mesh's containers.
---
 src/surface/stripe_patterns.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index acd3853..c8c1069 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -120,11 +120,13 @@ SparseMatrix<double> computeRealVertexMassMatrix(IntrinsicGeometryInterface& geo
 
   SurfaceMesh& mesh = geometry.mesh;
 
+  geometry.requireVertexIndices();
   geometry.requireVertexDualAreas();
 
   std::vector<Eigen::Triplet<double>> triplets(2 * mesh.nVertices());
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    double area = geometry.vertexDualAreas[i];
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    double area = geometry.vertexDualAreas[v];
     triplets[2 * i] = Eigen::Triplet<double>(2 * i, 2 * i, area);
     triplets[2 * i + 1] = Eigen::Triplet<double>(2 * i + 1, 2 * i + 1, area);
   }
@@ -152,10 +154,11 @@ VertexData<Vector2> computeParameterization(IntrinsicGeometryInterface& geometry
 
   // Copy the result to a VertexData vector
   VertexData<Vector2> toReturn(mesh);
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    toReturn[i].x = solution(2 * i);
-    toReturn[i].y = solution(2 * i + 1);
-    toReturn[i] = toReturn[i].normalize();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    toReturn[v].x = solution(2 * i);
+    toReturn[v].y = solution(2 * i + 1);
+    toReturn[v] = toReturn[v].normalize();
   }
   return toReturn;
 }
-- 
2.43.0


From a4a58d65ffdfb095f2a004c4e420ba436362c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 095/109] fix: BFF from scale factors: boundary curvatures
 computed for the opposite scale factors

dirichletToNeumann used the Dirichlet-to-Neumann map with the wrong sign (k = Omega* - Lambda u), so
lengths were scaled by u but exterior angles by -u, and it was not the inverse of neumannToDirichlet.
---
 src/surface/boundary_first_flattening.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index d479c91..32453ea 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -129,7 +129,7 @@ VertexData<Vector2> BFF::flattenFromBoth(const Vector<double>& uBdy, const Vecto
 }
 
 Vector<double> BFF::dirichletToNeumann(const Vector<double>& uBdy) {
-  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai - Lib * uBdy)) - Lbb * uBdy;
+  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai + Lib * uBdy)) + Lbb * uBdy;
 }
 
 Vector<double> BFF::neumannToDirichlet(const Vector<double>& kBdy) {
-- 
2.43.0


From 901a6d17cdbaa0cd199968a54bb7e1e09843be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 096/109] fix: BFF from exterior angles: factored the
 unshifted, singular Laplacian

A local variable shadowed the member L, so the shift which makes the matrix definite never reached the
matrix used by neumannToDirichlet, which could fail with 'matrix is not positive definite'.
---
 src/surface/boundary_first_flattening.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index 32453ea..c434483 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -48,8 +48,6 @@ BFF::BFF(ManifoldSurfaceMesh& mesh_, IntrinsicGeometryInterface& geo_) : mesh(me
   nInterior = mesh.nInteriorVertices();
   nBoundary = nVertices - nInterior;
 
-  geo.requireCotanLaplacian();
-  SparseMatrix<double> L = geo.cotanLaplacian;
   shiftDiagonal(L, 1e-12);
 
   Ldecomp = blockDecomposeSquare(L, isInterior);
-- 
2.43.0


From 3f380b309712b7bb1c5b9329eed94894e00ae16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 097/109] fix: uniformizeDisk on meshes which are not
 compressed

Interior vertices were looked up by dense index instead of by iterating over the vertices.
---
 src/surface/uniformize.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/uniformize.cpp b/src/surface/uniformize.cpp
index 8885d3e..4ddd572 100644
--- a/src/surface/uniformize.cpp
+++ b/src/surface/uniformize.cpp
@@ -38,11 +38,13 @@ EdgeData<double> uniformizeDisk(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInte
   size_t N = mesh.nVertices();
   size_t N_b = 0;
   Vector<bool> isInterior(N);
-  for (size_t i = 0; i < N; i++) {
-    isInterior(i) = !mesh.vertex(i).isBoundary();
-    if (!isInterior(i)) {
+  size_t iV = 0;
+  for (Vertex v : mesh.vertices()) {
+    isInterior(iV) = !v.isBoundary();
+    if (!isInterior(iV)) {
       N_b++;
     }
+    iV++;
   }
 
 
-- 
2.43.0


From d15f16dcb8b14fb7ca9e97ca66f64ca185f693d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 098/109] fix: parameterizeDisk on meshes whose first halfedge
 was deleted

The layout started from halfedge 0 whether it exists or not.
---
 src/surface/parameterize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/parameterize.cpp b/src/surface/parameterize.cpp
index 04c86ec..fde3629 100644
--- a/src/surface/parameterize.cpp
+++ b/src/surface/parameterize.cpp
@@ -63,7 +63,7 @@ VertexData<Vector2> parameterizeDisk(ManifoldSurfaceMesh& origMesh, IntrinsicGeo
   };
 
   // initialize the layout
-  Halfedge he0 = mesh.halfedge(0);
+  Halfedge he0 = *mesh.halfedges().begin();
   Vertex v0 = he0.vertex();
   Vertex v1 = he0.twin().vertex();
   coords[v0] = Vector2{0., 0.};
-- 
2.43.0


From ba9b063ee85d4d5c2652b319f4220c7f4494ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 099/109] fix: intersections between two surfaces skip
 triangles whose vertices happen to have equal indices

---
 src/surface/intersection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 90100ac..21a6a05 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -50,8 +50,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         j++;
       }
 
-      // skip triangles that share vertices
-      if (!(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
+      // within one surface, skip triangles that share vertices
+      if (&geometry1 != &geometry2 ||
+          !(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
             u[2] == v[0] || u[2] == v[1] || u[2] == v[2])) {
 
         // get vertex locations
-- 
2.43.0


From 1fce140e1163dcf9abe9bb9d1da88113625e2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 100/109] fix: intersections overflow a buffer when the second
 surface has polygonal faces

---
 src/surface/intersection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 21a6a05..2ea413c 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -43,6 +43,10 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
       // (otherwise we create redundant output segments)
       if (selfCheck && g.getIndex() >= f.getIndex()) continue;
 
+      if (g.degree() != 3) {
+        throw std::logic_error("only triangle meshes are supported");
+      }
+
       // get vertices vj of g
       int j = 0;
       for (Vertex vj : g.adjacentVertices()) {
-- 
2.43.0


From 89d9ff2b8606464371aa8bf8c984a004c693b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 101/109] fix: geodesic Voronoi sites step by the mean of the
 log map divided twice by the weight of the cell

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index 8b20d16..66041d9 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -104,7 +104,6 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
 
           energy += dist * dist * weight;
         }
-        updateSum /= updateWSum;
         Vector2 update = updateSum / updateWSum;
 
         // Take a step
-- 
2.43.0


From 2cd82970d4ea50af209dcd012bfc2ef30111a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 102/109] fix: random Voronoi sites may lie on deleted faces of
 uncompressed meshes

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index 66041d9..df4bf7f 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -52,8 +52,10 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
   // Set points to start
   std::vector<SurfacePoint> siteLocations = options.initialSites;
   if (siteLocations.empty()) {
+    std::vector<Face> faces;
+    for (Face f : mesh.faces()) faces.push_back(f);
     for (size_t i = 0; i < options.nSites; i++) {
-      Face startF = mesh.face(randomIndex(mesh.nFaces()));
+      Face startF = faces[randomIndex(faces.size())];
       double u = unitRand();
       Vector3 bCoord{u, 0.5 * (1.0 - u), 0.5 * (1.0 - u)};
       SurfacePoint fp{startF, bCoord};
-- 
2.43.0


From ba5ce095bc3ceb4f4269a309c4e9bc6049308513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 103/109] fix: Voronoi distributions with useDelaunay belong to
 a deleted mesh

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index df4bf7f..56d7a39 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -31,6 +31,13 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
       result.siteLocations[iS] = intTri->equivalentPointOnInput(result.siteLocations[iS]);
     }
 
+    // The distributions live on the vertices of the intrinsic mesh, which is about to be deleted
+    for (VertexData<double>& dist : result.siteDistributions) {
+      VertexData<double> distOnInput(mesh);
+      for (Vertex v : mesh.vertices()) distOnInput[v] = dist[v.getIndex()];
+      dist = distOnInput;
+    }
+
     return result;
   }
 
-- 
2.43.0


From 00f9c45c943d8f05d7ce79ab07a55f49d909558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 104/109] fix: Poisson disk samples may be closer than the
 minimum distance

---
 src/surface/poisson_disk_sampler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index afb70cd..eaa2374 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -171,11 +171,11 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
   SpatialKey queryKey = positionKey(queryPoint);
 
-  // Check all adjacent buckets. Each bucket's sidelength is chosen to be small enough such that if any two adjacent
-  // buckets contain points, their points are guaranteed to be within r of each other.
-  for (int offsetX = -1; offsetX <= 1; offsetX++) {
-    for (int offsetY = -1; offsetY <= 1; offsetY++) {
-      for (int offsetZ = -1; offsetZ <= 1; offsetZ++) {
+  // Check all buckets which can contain a point within r. Each bucket has sidelength r/sqrt(3), so these are the ones at
+  // most 2 buckets away in each dimension.
+  for (int offsetX = -2; offsetX <= 2; offsetX++) {
+    for (int offsetY = -2; offsetY <= 2; offsetY++) {
+      for (int offsetZ = -2; offsetZ <= 2; offsetZ++) {
 
         SpatialKey bucketKey = queryKey;
         bucketKey[0] += offsetX;
-- 
2.43.0


From a78e8abdb78d3e85c4d1b02cf75137e1ca292a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 105/109] fix: Poisson disk sampler forgets points to avoid
 which share a bucket

---
 include/geometrycentral/surface/poisson_disk_sampler.h | 2 +-
 src/surface/poisson_disk_sampler.cpp                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/poisson_disk_sampler.h b/include/geometrycentral/surface/poisson_disk_sampler.h
index 2d34c82..9283a31 100644
--- a/include/geometrycentral/surface/poisson_disk_sampler.h
+++ b/include/geometrycentral/surface/poisson_disk_sampler.h
@@ -45,7 +45,7 @@ private:
 
   // Spatial lookup structure
   typedef std::array<long long int, 3> SpatialKey;
-  std::map<SpatialKey, Vector3> spatialBuckets;
+  std::multimap<SpatialKey, Vector3> spatialBuckets;
   Vector3 mapCenter;
 
   // ===== Utility and auxiliary functions
diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index eaa2374..cffae82 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -182,8 +182,8 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
         bucketKey[1] += offsetY;
         bucketKey[2] += offsetZ;
 
-        auto bucketIter = spatialBuckets.find(bucketKey);
-        if (bucketIter != spatialBuckets.end()) {
+        auto bucketRange = spatialBuckets.equal_range(bucketKey);
+        for (auto bucketIter = bucketRange.first; bucketIter != bucketRange.second; ++bucketIter) {
           if ((queryPoint - bucketIter->second).norm() < rMinDist) {
             return false;
           }
-- 
2.43.0


From 487aa39ae3cd0412afa4018556bc7006b89302ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 106/109] fix: Poisson disk samples inside the ball to avoid,
 unless sizes are about 1

---
 .../surface/poisson_disk_sampler.h            |  1 +
 src/surface/poisson_disk_sampler.cpp          | 23 ++++++-------------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/geometrycentral/surface/poisson_disk_sampler.h b/include/geometrycentral/surface/poisson_disk_sampler.h
index 9283a31..b3bc111 100644
--- a/include/geometrycentral/surface/poisson_disk_sampler.h
+++ b/include/geometrycentral/surface/poisson_disk_sampler.h
@@ -47,6 +47,7 @@ private:
   typedef std::array<long long int, 3> SpatialKey;
   std::multimap<SpatialKey, Vector3> spatialBuckets;
   Vector3 mapCenter;
+  std::vector<std::pair<Vector3, double>> avoidanceBalls; // centers and radii of balls without samples
 
   // ===== Utility and auxiliary functions
   std::tuple<Vector3, Vector3> boundingBox();
diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index cffae82..774fe91 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -143,22 +143,8 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
       r += rMinDist;
     }
   } else {
-    // This places fictitious points in a *solid 3D ball* approximately of radius R*r centered at <newPoint>.
-    // The solid ball is built by constructing R layers, radially outward; each layer is spaced r apart, and
-    // points in each layer are spaced approx. r apart in a "grid" (a mapping from the cylinder to the sphere that has
-    // been scaled s.t. projected points end up being approx. r apart.)
-    double r = rMinDist;
-    while (r < radius) {
-      for (double z = -0.99; z <= 0.99; z += rMinDist) {
-        double coeff = std::sqrt(1. - z * z);
-        for (double theta = 0.0; theta <= 2.0 * PI; theta += rMinDist / coeff) {
-          Vector3 pos = {r * coeff * std::cos(theta), r * coeff * std::sin(theta), r * z};
-          pos += newPos;
-          addPointToSpatialLookup(pos);
-        }
-      }
-      r += rMinDist;
-    }
+    // Candidates in the *solid 3D ball* of radius <radius> centered at <newPoint> are rejected by isCandidateValid().
+    avoidanceBalls.push_back(std::make_pair(newPos, radius));
   }
 }
 
@@ -169,6 +155,10 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
 bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
 
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
+  for (const std::pair<Vector3, double>& ball : avoidanceBalls) {
+    if ((queryPoint - ball.first).norm() < ball.second) return false;
+  }
+
   SpatialKey queryKey = positionKey(queryPoint);
 
   // Check all buckets which can contain a point within r. Each bucket has sidelength r/sqrt(3), so these are the ones at
@@ -242,6 +232,7 @@ void PoissonDiskSampler::clearData() {
 
   samples.clear();
   spatialBuckets.clear();
+  avoidanceBalls.clear();
 }
 
 /*
-- 
2.43.0


From 739bc85e6898cdf7ab579907344a2a4bd501cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 107/109] fix: the first Poisson disk sample of a component
 ignores points to avoid and samples of other components

---
 src/surface/poisson_disk_sampler.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index 774fe91..0ab0ebe 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -189,11 +189,25 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
  */
 void PoissonDiskSampler::sampleOnConnectedComponent(const Face& f) {
 
-  // Get initial sample.
+  // Get initial sample: the center of the first face of the component, for which it is neither in a region to avoid nor
+  // too close to samples of other components.
   Vector3 baryCoords = {1. / 3., 1. / 3., 1. / 3.};
-  SurfacePoint x0(f, baryCoords);
   activeList.clear();
-  addNewSample(x0);
+  FaceData<char> marked(mesh, false);
+  std::vector<Face> queue = {f};
+  marked[f] = true;
+  for (size_t i = 0; i < queue.size(); i++) {
+    SurfacePoint x0(queue[i], baryCoords);
+    if (isCandidateValid(x0)) {
+      addNewSample(x0);
+      break;
+    }
+    for (Face g : queue[i].adjacentFaces()) {
+      if (marked[g]) continue;
+      marked[g] = true;
+      queue.push_back(g);
+    }
+  }
 
   while (activeList.size() > 0) {
     // Select a random point from the active list.
-- 
2.43.0


From c34195d28650d3b2ac8281b1c84b1486efd41fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 108/109] fix: convex embedding reports success for radii which
 no tetrahedra realize

---
 .../geometrycentral/surface/embed_convex.h    |  4 ++++
 src/surface/embed_convex.cpp                  | 20 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/embed_convex.h b/include/geometrycentral/surface/embed_convex.h
index cbd6851..fe84c3c 100644
--- a/include/geometrycentral/surface/embed_convex.h
+++ b/include/geometrycentral/surface/embed_convex.h
@@ -104,6 +104,10 @@ protected:
   // negative, the triangle inequality has been violated.
   double minTriSlack();
 
+  // Does a tetrahedron with the current edge lengths
+  // and radii exist over every boundary triangle?
+  bool hasValidTetrahedra();
+
   // Local geometry
   double l(Edge ij);        // length of boundary edge ij
   double l(Halfedge ij);    // length of boundary edge ij.edge()
diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 3b84819..0f1e7a4 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -338,7 +338,8 @@ bool ConvexEmbedder::solveNewton(VertexData<double> kappaStar) {
         size_t I = i.getIndex();
         r[i] = r0[i] - tau * v[I];
       }
-      if (minTriSlack() < 1e-3) { // triangles fail to strictly satisfy triangle inequality
+      if (minTriSlack() < 1e-3 || // triangles fail to strictly satisfy triangle inequality
+          !hasValidTetrahedra()) {
         r = r0;
         tau *= .5;
       } else {
@@ -476,6 +477,23 @@ double ConvexEmbedder::minTriSlack() {
   return m;
 }
 
+bool ConvexEmbedder::hasValidTetrahedra() {
+  const double tolerance = 1e-9;
+  for (Corner ijk : currentMesh->corners()) {
+    Halfedge ji = ijk.halfedge().twin();
+    Halfedge ki = ijk.halfedge().next().next();
+
+    // The angles at vertex i must satisfy the (spherical) triangle inequalities; otherwise no
+    // dihedral angle around the radius ai realizes them, and beta() would just be clamped.
+    double a = gamma(ijk), b = rho(ji), c = rho(ki);
+    if (a > b + c + tolerance || b > c + a + tolerance || c > a + b + tolerance || a + b + c > 2. * M_PI + tolerance) {
+      return false;
+    }
+  }
+
+  return true;
+}
+
 // Returns the interior angle of the boundary triangle ijk at corner i
 double ConvexEmbedder::gamma(Corner ijk) {
   Halfedge ij = ijk.halfedge();
-- 
2.43.0


From 1735de821dd1bb3e9298ee0aa88daef3882a1839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 109/109] fix: traceGeodesic uses edge lengths without
 requiring them

---
 src/surface/trace_geodesic.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index a191acd..460cd16 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -699,6 +699,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
 
 TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint startP, Vector2 traceVec,
                                   const TraceOptions& traceOptions) {
+  geom.requireEdgeLengths();
   geom.requireVertexAngleSums();
   geom.requireHalfedgeVectorsInVertex();
   geom.requireHalfedgeVectorsInFace();
@@ -714,6 +715,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
 
   // Quick out with a zero vector
   if (traceVec.norm2() == 0) {
+    geom.unrequireEdgeLengths();
     geom.unrequireVertexAngleSums();
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
@@ -754,6 +756,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
   // Keep tracing through triangles until finished
   traceGeodesic_iterative(geom, result, prevTraceEnd, traceOptions);
 
+  geom.unrequireEdgeLengths();
   geom.unrequireVertexAngleSums();
   geom.unrequireHalfedgeVectorsInVertex();
   geom.unrequireHalfedgeVectorsInFace();
@@ -766,6 +769,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
                                   Vector3 traceBaryVec, const TraceOptions& traceOptions) {
 
 
+  geom.requireEdgeLengths();
   geom.requireVertexAngleSums();
   geom.requireHalfedgeVectorsInVertex();
   geom.requireHalfedgeVectorsInFace();
@@ -784,6 +788,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
 
   // Early-out if zero
   if (traceBaryVec.norm2() == 0) {
+    geom.unrequireEdgeLengths();
     geom.unrequireVertexAngleSums();
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
@@ -816,6 +821,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
   // Keep tracing through triangles until finished
   traceGeodesic_iterative(geom, result, prevTraceEnd, traceOptions);
 
+  geom.unrequireEdgeLengths();
   geom.unrequireVertexAngleSums();
   geom.unrequireHalfedgeVectorsInVertex();
   geom.unrequireHalfedgeVectorsInFace();
-- 
2.43.0

