From 9d949a5f0a11df9d0bd21165d7094d9c23e125b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 01/81] fix: add missing semicolon after the VTKMeshReader
 destructor

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From 4b92e45b00aefa2a0dc9b4dcd29ab7370528cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/81] fix: make the ElementIndex conversion const so that
 const meshes can be indexed by it

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..7bc4b46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -29,7 +29,7 @@ struct ElementIndex {
         return index == rhs.index;
     }
 
-    operator IndexType() {
+    operator IndexType() const {
         return index;
     }
 
-- 
2.43.0


From 174d0080780eddb598605223b17101444aff835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 03/81] fix: add the ElementIndex default constructor required
 by ORDER_ORIGINAL connections

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index 7bc4b46..3448ea6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -10,6 +10,8 @@ template<unsigned int ElementDimension, typename IndexType = unsigned int>
 struct ElementIndex {
     IndexType index;
 
+    ElementIndex() : index() {}
+
     ElementIndex(const ElementIndex&) = default;
     ElementIndex& operator=(const ElementIndex& rhs){
         index = rhs.index;
-- 
2.43.0


From 266145d8b19ae37bfa5e1e30de8b2583a6fce51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 04/81] fix: do not dereference the end iterator when
 recoloring a mesh without elements

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..1dbd57c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -126,6 +126,11 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         // calculating the reserve
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
+        // there is nothing to recolor in a mesh without the colored elements
+        if (result.template getDataByPos<0>().empty()) {
+            return result;
+        }
+
         // get maximal color index
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
-- 
2.43.0


From 061db0220e80c851bf03e676f6ff6c254d3693bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 05/81] fix: initializeCenters from precomputed centers must
 not store through const elements

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..6b90bfc 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -54,10 +54,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From 97fb994c5d34454ad441a6c5a16a91533f5b46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 06/81] fix: propagate the computation method through
 computeMeasures so that METHOD_TESSELLATED takes effect

---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..2078a88 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From 1c58f8f6483718272c7c081625d9360e250b4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 07/81] fix: let computeFaceNormals compile for meshes whose
 real type is not double

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
index 50f44e6..05afedd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
@@ -26,7 +26,7 @@ struct _ComputeNormals{
                         const MeshElements<MeshDimension, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
@@ -82,7 +82,7 @@ struct _ComputeNormals<3, Method>{
                         const MeshElements<3, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
-- 
2.43.0


From e10c58a90e5692bb78ea416a43eb2584b175c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 08/81] fix: compute the scalar product in the element type of
 the vectors

---
 src/GTMesh/NumericStaticArray/InlineArrayOperations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
index 0dde6c7..d433dc0 100644
--- a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
+++ b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
@@ -13,7 +13,7 @@ struct inlineScalarProduct {
 template <typename Real>
 struct inlineScalarProduct<1, Real>
 {
-    static inline double computation(const Real *x, const Real *y){
+    static inline Real computation(const Real *x, const Real *y){
         return x[0] * y[0];
     }
 };
-- 
2.43.0


From 8b1904a19ed2ba71f439cb1ddcccf14f16af106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 09/81] fix: dividing a floating-point vertex by an integer
 must not truncate the reciprocal to zero

---
 src/GTMesh/NumericStaticArray/Vertex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 4d5f401..24f88d3 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -133,7 +133,7 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(RealOP(1.0)/x);
+    return this->operator*(Real(1.0)/x);
 }
 
 
-- 
2.43.0


From ca194700155363ecc2df407335c969b65f962396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 10/81] fix: assign initializer lists to mesh vertices whose
 coordinates are not double

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..aae2013 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -187,7 +187,7 @@ public:
 
     }
     MeshElement<MeshDim, 0, IndexType, Real>& operator =(std::initializer_list<Real> l){
-        this->Vertex<MeshDim,double>::operator=(l);
+        this->Vertex<MeshDim, Real>::operator=(l);
         return *this;
     }
 };
-- 
2.43.0


From 904d33e34f94f2737d3160f71e25e661d50eb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 11/81] fix: make SubelementContainer::removeSubelement usable

---
 .../MeshElements/MeshElement.h                 | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index aae2013..1d72bbd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -93,13 +93,13 @@ public:
         addSubelement(index);
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(unsigned int atIndex){
         if (atIndex < numberOfElements){
-            for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
+            for(unsigned int i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
-            this->at(numberOfElements) = {INVALID_INDEX(IndexType), false};
             numberOfElements--;
+            this->at(numberOfElements) = INVALID_INDEX(IndexType);
         } else {
             throw(std::runtime_error(
                         "removing index " + std::to_string(atIndex) +
@@ -134,8 +134,16 @@ public:
         this->push_back(IndexType{index});
     }
 
-    void removeSubelement(unsigned char atIndex){
-        this->erase(atIndex);
+    void removeSubelement(unsigned int atIndex){
+        if (atIndex < this->size()){
+            this->erase(this->begin() + atIndex);
+        } else {
+            throw(std::runtime_error(
+                        "removing index " + std::to_string(atIndex) +
+                        " is greather than number of subelements " + std::to_string(this->size())+ "."
+                        )
+                 );
+        }
     }
 };
 
-- 
2.43.0


From 88be2d681c18a5b060efffc8c64db6a2da0d586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 12/81] fix: clear the boundary cells together with the other
 elements of the mesh

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..e475ca9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From 5c4ab54b8ee726b79856cbcf6d8d642112d9c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 13/81] fix: keep the boundary chains of the cells when the
 cells of a face are swapped

---
 .../MeshElements/CellBoundaryConnection.h          | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
index 2d75d41..ff4cc4c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
@@ -39,6 +39,11 @@ public:
 
     IndexType getNextBElem(IndexType cellIndex) const;
 
+    /**
+     * @brief Swaps the left and right cell indexes together with
+     * the indexes of their next boundary elements.
+     */
+    void swapCellsLR();
 
 };
 
@@ -172,7 +177,16 @@ IndexType CellBoundaryConnection<IndexType>::getNextBElem(IndexType cellIndex) c
     }
 }
 
+template<typename IndexType>
+void CellBoundaryConnection<IndexType>::swapCellsLR() {
+
+    CellConnection<IndexType>::swapCellsLR();
+
+    IndexType nextLeftIndex = getNextBElemWRTCR();
+    setNextBElemWRTCR(getNextBElemWRTCL());
+    setNextBElemWRTCL(nextLeftIndex);
 
+}
 
 
 #endif // CELLBOUNDARYCONNECTION_H
-- 
2.43.0


From 86f4ddf0aa2fe47523eb7cfde5c0a1dcfcb62cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 14/81] fix: let allocateData size a container after another
 mesh data container

---
 .../MeshDataContainer/MeshDataContainer.h                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..d783e7e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -531,9 +531,9 @@ private:
         allocateMemory<pos + 1>(mesh, values...);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
-- 
2.43.0


From 3b4716d8b14a4fc1ab1695ecc3384ea77748a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 15/81] fix: address tuple mesh data containers by position in
 operator[]

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index d783e7e..13b3052 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -619,7 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
@@ -635,7 +635,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    const DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
-- 
2.43.0


From 62a7cb05161726da2acfbe02b7df6a8b13640560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 16/81] fix: make the FPMA mesh writer compile

The index containers of FPMAMeshWriter<3> were declared with element indexes
of the wrong dimension, so neither the writer nor UnstructuredMesh<3>::write
could be instantiated.
---
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..4d0d174 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From 7dd7de64cc983c91f6d0737a964896f93d3e555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/81] fix: make VTK data import/export of a single data
 container compile

VTKMeshDataWriter::writeToStream(DataContainer) and
VTKMeshDataReader::readFromStream(DataContainer) called functions that do not
exist, and the reader could not be used with several traited containers.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 4 ++--
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..3ef514a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -150,7 +150,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
@@ -181,7 +181,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..19e9404 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -226,7 +226,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 7ebae6ed6b5e9c1708bab9d1ad639e1e01ec7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 18/81] fix: initialise the mesh signature and the last hash of
 mesh writers

The writers compared the signature with an uninitialised member, so an export
could skip the indexing of the mesh.
---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h         | 2 +-
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h        | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 1d72bbd..c924e2b 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -254,7 +254,7 @@ class MeshElement<MeshDim, MeshDim, IndexType, Real, Reserve>
         : public MeshElementBase<IndexType>,
           public ComputationallySignificantElement<MeshDim, Real>{
 
-    IndexType boundaryElementIndex;
+    IndexType boundaryElementIndex = INVALID_INDEX(IndexType);
 public:
 //GetBoundaryElement
     MeshElement(IndexType index = INVALID_INDEX(IndexType))
diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index e475ca9..53c7915 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -62,7 +62,7 @@ private:
      * @brief Hash signature of the mash elements.
      * Use to detect changes in mesh.
      */
-    size_t meshSignature;
+    size_t meshSignature = 0;
 
 
 public:
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 4d0d174..90cdb57 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,7 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..676dae1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,7 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
-- 
2.43.0


From 08f72de8f8b7c8562488903e48721c7c3e67425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 19/81] fix: let the mesh signature reflect order, linkage and
 centers of dynamic faces

The signature of elements with dynamic storage was a plain XOR of all
sub-element indexes, so reordering, exchanging or relinking faces went
unnoticed and a reused writer exported the old mesh.
---
 .../MeshElements/MeshElements.h               | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 53c7915..64c172d 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -198,20 +198,45 @@ public:
      */
 private:
 
+    /**
+     * @brief Adds a value to the hash. The result depends on the order of the added values.
+     */
+    static void combineHash(size_t& hash, size_t value) {
+        hash ^= value + 0x9e3779b9 + (hash << 6) + (hash >> 2);
+    }
+
+    /**
+     * @brief Adds the connection of the face to the cells and its center to the hash.
+     */
+    static void hashConnection(size_t& hash, const Face& face) {
+        std::hash<IndexType> indexHasher;
+        combineHash(hash, indexHasher(face.getCellLeftIndex()));
+        combineHash(hash, indexHasher(face.getCellRightIndex()));
+        combineHash(hash, indexHasher(face.getNextBElemWRTCL()));
+        combineHash(hash, indexHasher(face.getNextBElemWRTCR()));
+        for (unsigned int i = 0; i < Dimension; i++) {
+            combineHash(hash, std::hash<Real>()(face.getCenter()[i]));
+        }
+    }
+
+    // Elements of other dimensions hold neither the connection nor the center.
+    template<typename Element>
+    static void hashConnection(size_t&, const Element&) {}
+
     template<unsigned int Dim = Dimension, typename Void = void>
     struct HashOfMeshElements{
 
 
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
         {
-            std::hash<IndexType> indexHasher;
-
             // Hash of generic element eg. face
-            size_t elemHash = mesh.getElements<Dim>().size();
-            for(auto& element : mesh.getElements<Dim>()) {
+            size_t elemHash = mesh.template getElements<Dim>().size();
+            for(auto& element : mesh.template getElements<Dim>()) {
+                combineHash(elemHash, element.getSubelements().size());
                 for (auto& subElement : element.getSubelements()) {
-                    elemHash ^= indexHasher(subElement);
+                    combineHash(elemHash, std::hash<IndexType>()(subElement));
                 }
+                hashConnection(elemHash, element);
             }
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
-- 
2.43.0


From 6cf6c88e75aad9a2852d423c399516e10233efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 20/81] fix: orient faces consistently in the 3D VTK export

A face seen from its right cell whose first edge is not left oriented was
written in the opposite direction than all other faces.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 676dae1..041ed37 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -242,7 +242,7 @@ public:
 
         IndexType startVertex = INVALID_INDEX(IndexType);
         IndexType nextVertex = INVALID_INDEX(IndexType);
-        if (faceEdgeOri[face][0] == true && cell.getIndex() == face.getCellLeftIndex()){ // the edge is left to the face
+        if (faceEdgeOri[face][0] == (cell.getIndex() == face.getCellLeftIndex())){ // the edge is left to the face
             startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
             nextVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexAIndex();
         } else {
-- 
2.43.0


From 449e332465be1bffb7b58ce596b999b303a6393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 21/81] fix: do not merge centers appended by the tessellated
 VTK export

Centers were identified by their coordinates printed with six decimals, so
centers of different cells or faces of a fine mesh collapsed into one vertex.
Identify the center of a face by the index of the face; cell centers are
unique.
---
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 041ed37..d522fca 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -421,7 +421,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the already appended centers of faces
+        std::map<IndexType, IndexType> appendedFaceCenters;
 
 
 
@@ -513,17 +514,8 @@ DBGMSG("indexing mesh");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
                 IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
-                auto it = appendedVertPos.find(cellCenterKey);
-                if (it == appendedVertPos.end()) {
-                    appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
-                    cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                    appendedVertices.push_back(cell.getCenter());
-                } else {
-                    cellCenterIndex = it->second;
-                }
+                cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
+                appendedVertices.push_back(cell.getCenter());
 
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
@@ -534,14 +526,11 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
-                        auto it = appendedVertPos.find(faceCenterKey);
-                        if (it == appendedVertPos.end()) {
+                        auto it = appendedFaceCenters.find(tmpFace);
+                        if (it == appendedFaceCenters.end()) {
                             faceCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                            appendedVertPos[faceCenterKey] = faceCenterIndex;
+                            appendedFaceCenters[tmpFace] = faceCenterIndex;
                             appendedVertices.push_back(face.getCenter());
                         } else {
                             faceCenterIndex = it->second;
-- 
2.43.0


From f377380959383b021d9b2302c7e8481be8f428e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 22/81] fix: index the mesh again when the exported cell types
 change

A reused 3D VTK writer kept the index of the previous cell types although
only the cell types passed to writeToStream had changed.
---
 .../MeshIO/MeshWriter/VTKMeshWriter.h                 | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index d522fca..29f2c92 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -208,6 +208,11 @@ public:
      */
     MeshDataContainer<std::vector<IndexType>, 3> cellVert;
     MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes;
+    /**
+     * @brief indexedCellTypes
+     * The cell types the mesh was indexed with.
+     */
+    MeshDataContainer<typename writer::elementType::ElementType, 3> indexedCellTypes;
 
     /**
      * @brief totalNumberOfWrittenElements<HR>
@@ -574,10 +579,12 @@ DBGMSG("indexing mesh");
                        MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes){
         // create index of mesh if the mesh has changed
         size_t curHash = writer::computeHash(mesh);
-        // if the mesh is not the same as it was,
+        // if the mesh or the cell types are not the same as they were,
         // then update the index
-        if (lastHash != curHash){
+        if (lastHash != curHash ||
+            indexedCellTypes.template getDataByPos<0>() != cellTypes.template getDataByPos<0>()){
             indexMesh(mesh, cellTypes);
+            indexedCellTypes = cellTypes;
         }
         lastHash = curHash;
 
-- 
2.43.0


From 58bbe585bdcc9dd5eb4263e9354fea5d054a3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 23/81] fix: reject truncated and malformed mesh files

The mesh readers ignored read errors, missing sections, unsupported cell types
(the exception was constructed but not thrown) and references to nonexistent
vertices or faces, and used uninitialised numbers after a failed read.
---
 .../MeshIO/MeshReader/FPMAMeshReader.h        | 20 ++---
 .../MeshIO/MeshReader/MeshReader.h            | 27 +++++++
 .../MeshIO/MeshReader/VTKMeshReader.h         | 76 +++++++++++--------
 3 files changed, 81 insertions(+), 42 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..50a064c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -37,7 +37,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numVert;
-        ist >> numVert;
+        reader::readValue(ist, numVert);
 
         mesh.getVertices().resize(numVert);
 
@@ -45,9 +45,9 @@ public:
 
             typename MeshElements<3, IndexType, Real, Reserve...>::Vertex& vert = mesh.getVertices().at(i);
             vert.setIndex(i);
-            ist >> vert[0];
-            ist >> vert[1];
-            ist >> vert[2];
+            reader::readValue(ist, vert[0]);
+            reader::readValue(ist, vert[1]);
+            reader::readValue(ist, vert[2]);
         }
     }
 
@@ -58,7 +58,7 @@ public:
         std::unordered_map<std::string, IndexType> edges;
 
         IndexType numFace;
-        ist >> numFace;
+        reader::readValue(ist, numFace);
 
         mesh.getFaces().resize(numFace);
 
@@ -66,11 +66,11 @@ public:
         for (IndexType faceIndex = 0; faceIndex < numFace; faceIndex++) {
             mesh.getFaces().at(faceIndex).setIndex(faceIndex);
             IndexType numVert;
-            ist >> numVert;
+            reader::readValue(ist, numVert);
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
-                ist >> vertices.at(j);
+                reader::readIndex(ist, vertices.at(j), mesh.getVertices().size());
             }
 
 
@@ -113,7 +113,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadCells(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numCells;
-        ist >> numCells;
+        reader::readValue(ist, numCells);
 
         mesh.getCells().resize(numCells);
         // read cells
@@ -122,13 +122,13 @@ public:
 
             // read cell faces
             IndexType numFaces;
-            ist >> numFaces;
+            reader::readValue(ist, numFaces);
 
 
             IndexType prevFace = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numFaces; j++){
                 IndexType faceIndex;
-                ist >> faceIndex;
+                reader::readIndex(ist, faceIndex, mesh.getFaces().size());
 
                 if (j == 0){
                     mesh.getCells().at(cellIndex).setBoundaryElementIndex(faceIndex);
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
index 2597ebd..14b0280 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
@@ -2,6 +2,9 @@
 #define MESHREADER_H
 #include "../MeshNativeType.h"
 #include "../../MeshDataContainer/MeshDataContainer.h"
+#include <istream>
+#include <stdexcept>
+#include <string>
 
 /**
  * The base class of MeshReaders
@@ -19,6 +22,30 @@ public:
     getCellTypes() const = 0;
 
     virtual ~MeshReader() = default;
+
+protected:
+    /**
+     * @brief Reads a value from the stream.
+     * Throws if the stream has ended or its content is not a valid value.
+     */
+    template<typename T>
+    static void readValue(std::istream& ist, T& value) {
+        if (!(ist >> value)) {
+            throw std::runtime_error("unexpected end or invalid content of the mesh file");
+        }
+    }
+
+    /**
+     * @brief Reads an index of an already loaded element.
+     * Throws if there is no element with this index.
+     */
+    template<typename IndexType>
+    static void readIndex(std::istream& ist, IndexType& index, size_t numberOfElements) {
+        readValue(ist, index);
+        if (index < IndexType() || static_cast<size_t>(index) >= numberOfElements) {
+            throw std::runtime_error("the mesh file refers to a nonexistent element " + std::to_string(index));
+        }
+    }
 };
 
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..f945d21 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -59,15 +59,15 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
         IndexType numPoints;
-        ist >> numPoints;
+        reader::readValue(ist, numPoints);
         Real dummy = 0;
         mesh.getVertices().resize(numPoints);
         ist.ignore(20, '\n');
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
             mesh.getVertices().at(vertIndex).setIndex(vertIndex);
-            ist >> mesh.getVertices().at(vertIndex)[0];
-            ist >> mesh.getVertices().at(vertIndex)[1];
-            ist >> dummy;
+            reader::readValue(ist, mesh.getVertices().at(vertIndex)[0]);
+            reader::readValue(ist, mesh.getVertices().at(vertIndex)[1]);
+            reader::readValue(ist, dummy);
         }
     }
 
@@ -76,18 +76,18 @@ public:
         std::unordered_map<std::string, IndexType> edges;
 
         IndexType numCells;
-        ist >> numCells;
+        reader::readValue(ist, numCells);
         mesh.getCells().resize(numCells);
         // Skip the total number of numbers
         ist.ignore(50, '\n');
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
             IndexType numVert;
-            ist >> numVert;
+            reader::readValue(ist, numVert);
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
-                ist >> vertices.at(j);
+                reader::readIndex(ist, vertices.at(j), mesh.getVertices().size());
             }
 
             IndexType prevEdge = INVALID_INDEX(IndexType);
@@ -132,16 +132,19 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadCellTypes(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
         IndexType numCells;
-        ist >> numCells;
+        reader::readValue(ist, numCells);
+        if (numCells != mesh.getCells().size()){
+            throw std::runtime_error("the number of cell types differs from the number of cells");
+        }
         cellTypes.allocateData(mesh);
         for (IndexType i = 0; i < numCells; i++) {
             int vtkType = 0;
-            ist >> vtkType;
+            reader::readValue(ist, vtkType);
             typename std::map<int, typename reader::elementType::ElementType>::iterator typeIt = TypeConversionTable.find(vtkType);
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type " + std::to_string(vtkType));
             }
         }
     }
@@ -174,19 +177,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (buf != "POINTS"){
+            throw std::runtime_error("the keyword POINTS expected but got " + buf);
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (buf != "CELLS"){
+            throw std::runtime_error("the keyword CELLS expected but got " + buf);
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (buf != "CELL_TYPES"){
+            throw std::runtime_error("the keyword CELL_TYPES expected but got " + buf);
         }
+        loadCellTypes(ist, mesh);
 
     }
 
@@ -302,14 +308,14 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist, MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numPoints;
-        ist >> numPoints;
+        reader::readValue(ist, numPoints);
         mesh.getVertices().resize(numPoints);
         ist.ignore(20, '\n');
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
             mesh.getVertices().at(vertIndex).setIndex(vertIndex);
-            ist >> mesh.getVertices().at(vertIndex)[0];
-            ist >> mesh.getVertices().at(vertIndex)[1];
-            ist >> mesh.getVertices().at(vertIndex)[2];
+            reader::readValue(ist, mesh.getVertices().at(vertIndex)[0]);
+            reader::readValue(ist, mesh.getVertices().at(vertIndex)[1]);
+            reader::readValue(ist, mesh.getVertices().at(vertIndex)[2]);
         }
     }
 
@@ -320,18 +326,18 @@ public:
         std::unordered_map<std::string, IndexType> faces;
 
         IndexType numCells;
-        ist >> numCells;
+        reader::readValue(ist, numCells);
         mesh.getCells().resize(numCells);
         // Skip the total number of numbers
         ist.ignore(50, '\n');
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
             IndexType numVert;
-            ist >> numVert;
+            reader::readValue(ist, numVert);
             // load vertices of the cell
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
-                ist >> vertices.at(j);
+                reader::readIndex(ist, vertices.at(j), mesh.getVertices().size());
             }
 
             // construct an element
@@ -411,16 +417,19 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadCellTypes(std::istream& ist, MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numCells;
-        ist >> numCells;
+        reader::readValue(ist, numCells);
+        if (numCells != mesh.getCells().size()){
+            throw std::runtime_error("the number of cell types differs from the number of cells");
+        }
         cellTypes.allocateData(mesh);
         for (IndexType i = 0; i < numCells; i++) {
             int vtkType = 0;
-            ist >> vtkType;
+            reader::readValue(ist, vtkType);
             typename std::map<int, typename reader::elementType::ElementType>::iterator typeIt = TypeConversionTable.find(vtkType);
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type " + std::to_string(vtkType));
             }
         }
     }
@@ -453,19 +462,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (buf != "POINTS"){
+            throw std::runtime_error("the keyword POINTS expected but got " + buf);
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (buf != "CELLS"){
+            throw std::runtime_error("the keyword CELLS expected but got " + buf);
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (buf != "CELL_TYPES"){
+            throw std::runtime_error("the keyword CELL_TYPES expected but got " + buf);
         }
+        loadCellTypes(ist, mesh);
 
         mesh.updateSignature();
     }
-- 
2.43.0


From 2085a2c0670058c928ef5e2e4598701f552c7038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 24/81] fix: clear the mesh before loading an FPMA file

Loading into a used mesh kept its edges, face sub-elements and cell linkage.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 50a064c..24643bf 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -156,6 +156,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From e5f469919c55629696496ea46af3f81658f723f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 25/81] fix: update the mesh signature after loading a 2D VTK
 file

as the other readers do.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index f945d21..3d056a3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -194,6 +194,7 @@ public:
         }
         loadCellTypes(ist, mesh);
 
+        mesh.updateSignature();
     }
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
-- 
2.43.0


From 13167316941a7c447ff18a59ded2e0244ef24a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 26/81] fix: export tensors under the VTK keyword TENSORS and
 import them

The keyword was misspelt as TENZORS and the reader did not look for tensors, so
exported tensor data could not be read back.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 3 ++-
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 3ef514a..d45ebe5 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -124,7 +124,8 @@ public:
         while(std::getline(ist, line, '\n')) {
 
             int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
+                                                          : line.find("VECTORS") != line.npos ||
+                                                            line.find("TENSORS") != line.npos ? 2
                                                                                               : 0 );
             if (flag != 0){
                 std::string dataName;
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 19e9404..b87dcd6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -55,7 +55,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
@@ -149,7 +149,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
-- 
2.43.0


From a76fe34dd5af697e89c66f96399da12000dc5c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 27/81] fix: reject missing or truncated data in the VTK data
 import

A quantity that is not in the file was read from the beginning of the file,
which failed and left all remaining quantities unread without any report.
---
 .../MeshDataIO/VTKMeshDataReader.h            | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index d45ebe5..c12f65e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -8,12 +8,39 @@
 #include <istream>
 #include <map>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 template <unsigned int MeshDimension, typename IndexType>
 class VTKMeshDataReader {
 
     static_assert (MeshDimension == 2 || MeshDimension == 3, "The VTK file format can represent data only in 2D or 3D");
 
+    /**
+     * @brief Moves the stream to the data of the given name.
+     */
+    static void seekData(std::istream& ist,
+                         const std::map<std::string, std::istream::pos_type>& dataPositions,
+                         const std::string& dataName)
+    {
+        auto position = dataPositions.find(dataName);
+        if (position == dataPositions.end()) {
+            throw std::runtime_error("the data \"" + dataName + "\" were not found in the file");
+        }
+        ist.seekg(position->second);
+    }
+
+    /**
+     * @brief Reads a single value and checks the result.
+     */
+    template<typename Value>
+    static void readValue(std::istream& ist, Value& value)
+    {
+        if (!(ist >> value)) {
+            throw std::runtime_error("unexpected end or invalid content of the data file");
+        }
+    }
+
     /**
      * @brief readColumn
      * reads a single column of traited data
@@ -28,13 +55,13 @@ class VTKMeshDataReader {
                    const Traits<T, TraitsArgs...>& traits)
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekData(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
         for (IndexType i = 0; i < data.size(); i++) {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
-                ist >> value[j];
+                readValue(ist, value[j]);
             }
             traits.template setValue<Index>(data.at(i), value);
         }
@@ -53,16 +80,16 @@ class VTKMeshDataReader {
             >::type
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekData(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
 
         for (IndexType i = 0; i < data.size(); i++) {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
-                ist >> value[j];
+                readValue(ist, value[j]);
             }
 
-            ist >> dummy[0];
+            readValue(ist, dummy[0]);
 
             traits.template setValue<Index>(data.at(i), value);
         }
@@ -81,12 +108,12 @@ class VTKMeshDataReader {
     {
 
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekData(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
         for (IndexType i = 0; i < data.size(); i++){
-            ist >> value;
+            readValue(ist, value);
             traits.template setValue<Index>(data.at(i), value);
         }
 
-- 
2.43.0


From f17b773a4c50d137de1fa96f178ae8e4e0ddf4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 28/81] fix: import 2D VTK vectors with the traits passed by
 the user

The 2D vector column looked at the default IO traits of the type, so data with
bound custom traits did not compile or used the wrong column kind.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index c12f65e..a412337 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -75,7 +75,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
-- 
2.43.0


From 68a84e4d87d3b34e18bb14f02ed6ffc2c79f874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 29/81] fix: write 2D tensors with nine components in the VTK
 export

Tensors of 2D meshes were written as five numbers per cell, which is not a
valid VTK tensor.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h | 12 ++++++++++--
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h |  9 ++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index a412337..33468a0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -87,9 +87,17 @@ class VTKMeshDataReader {
         for (IndexType i = 0; i < data.size(); i++) {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 readValue(ist, value[j]);
+                // skip the third component of each row
+                if ((j + 1) % MeshDimension == 0) {
+                    readValue(ist, dummy[0]);
+                }
+            }
+            // skip the third row of a tensor
+            if (traits.template getValue<Index>(data.at(i)).size() == MeshDimension * MeshDimension) {
+                for (unsigned int j = 0; j < 3; j++) {
+                    readValue(ist, dummy[0]);
+                }
             }
-
-            readValue(ist, dummy[0]);
 
             traits.template setValue<Index>(data.at(i), value);
         }
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index b87dcd6..554d918 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -156,8 +156,15 @@ class VTKMeshDataWriter {
         for (const auto& d : data){
             for(unsigned int j = 0; j < traits.template getValue<Index>(data.at(0)).size(); j++){
                 ost << traits.template getValue<Index>(d)[j] << ' ';
+                // complete each row to three components
+                if ((j + 1) % MeshDimension == 0) {
+                    ost << "0.0 ";
+                }
+            }
+            // complete the tensor to three rows
+            if (traits.template getValue<Index>(d).size() == MeshDimension * MeshDimension) {
+                ost << "0.0 0.0 0.0 ";
             }
-            ost << "0.0 ";
         }
     }
 
-- 
2.43.0


From 0edba315202ef0db2b89e5deab850788a655fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 30/81] fix: make mesh and mesh data IO headers compile with
 debugging disabled

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h         | 1 +
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h         | 2 +-
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h               | 5 ++++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 33468a0..7106f82 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -1,6 +1,7 @@
 #ifndef VTKMESHDATAREADER_H
 #define VTKMESHDATAREADER_H
 #include "../../../Traits/Traits.h"
+#include "../../../Traits/TraitsBind/TraitsBind.h"
 #include "../../../Utils/ConstexprFor.h"
 #include "../../../Traits/CustomTypeTraits.h"
 #include "../MeshDataContainer.h"
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 554d918..3508c42 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -1,11 +1,11 @@
 #ifndef VTKMESHDATAWRITER_H
 #define VTKMESHDATAWRITER_H
 #include "../../../Traits/Traits.h"
+#include "../../../Traits/TraitsBind/TraitsBind.h"
 #include "../../../Traits/CustomTypeTraits.h"
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include "../../MeshIO/MeshWriter/VTKMeshWriter.h"
-#include <GTMesh/Debug/Printers/PrintTraitedClass.h>
 #include <GTMesh/Utils/ConstexprFor.h>
 
 #include <ostream>
diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 6b90bfc..99605f2 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -1,7 +1,10 @@
 #ifndef UNSTRUCTUREDMESH_H
 #define UNSTRUCTUREDMESH_H
 #include "MeshElements/MeshElements.h"
-#include "vector"
+#include <vector>
+#include <fstream>
+#include <memory>
+#include <string>
 #include <type_traits>
 #include "MeshFunctions/MeshFunctions.h"
 #include "MeshIO/MeshReader/FPMAMeshReader.h"
-- 
2.43.0


From f272df14bec907e2fa66bc845a359277d54a4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 31/81] fix: recognise traits given as non-const references in
 the traits selection

---
 src/GTMesh/Traits/TraitsBind/TraitsBind.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/Traits/TraitsBind/TraitsBind.h b/src/GTMesh/Traits/TraitsBind/TraitsBind.h
index 5b26749..7f2573b 100644
--- a/src/GTMesh/Traits/TraitsBind/TraitsBind.h
+++ b/src/GTMesh/Traits/TraitsBind/TraitsBind.h
@@ -44,6 +44,9 @@ struct IsTraitsOf : public std::false_type {};
 template <typename Class, typename ClassTraits>
 struct IsTraitsOf<Class, const ClassTraits&> : public IsTraitsOf<Class, std::decay_t<ClassTraits>>{};
 
+template <typename Class, typename ClassTraits>
+struct IsTraitsOf<Class, ClassTraits&> : public IsTraitsOf<Class, std::decay_t<ClassTraits>>{};
+
 
 template <typename Class, typename ... TraitsArgs>
 struct IsTraitsOf<Class, Traits<Class, TraitsArgs...>> : public std::true_type {};
-- 
2.43.0


From 5e73e79e8adc13651d895f4a2cd9d39db46cda4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 32/81] fix: recognise the mesh file format by the last
 extension in the path

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 99605f2..d23b14f 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -252,14 +252,19 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        // the last of the known extensions determines the format
+        const auto vtkPos = filePath.rfind(".vtk");
+        const auto fpmaPos = filePath.rfind(".fpma");
+        const bool isFPMA = fpmaPos != filePath.npos && (vtkPos == filePath.npos || vtkPos < fpmaPos);
+
+        if (vtkPos != filePath.npos && !isFPMA){
             DBGMSG("file recognized as VTK");
             auto reader = new VTKMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
             reader_ptr = retType(reader);
         }
 
-        if (filePath.find(".fpma") != filePath.npos){
+        if (isFPMA){
             DBGMSG("file recognized as FPMA");
             auto reader = new FPMAMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
-- 
2.43.0


From 6ac9e9b0d336d43ffe2f9994d80898018a3d1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 33/81] fix: do not leak the mesh reader when loading a file
 fails

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index d23b14f..da54287 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -244,8 +244,7 @@ public:
     std::unique_ptr<MeshReader<MeshDimension>>
     load(const std::string& filePath){
 
-        typedef std::unique_ptr<MeshReader<MeshDimension>> retType;
-        retType reader_ptr;
+        std::unique_ptr<MeshReader<MeshDimension>> reader_ptr;
 
         std::ifstream file(filePath, std::ios::binary);
         if (!file.is_open()) {
@@ -259,16 +258,16 @@ public:
 
         if (vtkPos != filePath.npos && !isFPMA){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         if (isFPMA){
             DBGMSG("file recognized as FPMA");
-            auto reader = new FPMAMeshReader<MeshDimension>();
+            auto reader = std::make_unique<FPMAMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
@@ -284,8 +283,7 @@ public:
     std::unique_ptr<MeshReader<MeshDimension>>
     load(const std::string& filePath){
 
-        typedef std::unique_ptr<MeshReader<MeshDimension>> retType;
-        retType reader_ptr;
+        std::unique_ptr<MeshReader<MeshDimension>> reader_ptr;
 
         std::ifstream file(filePath, std::ios::binary);
         if (!file.is_open()) {
@@ -294,9 +292,9 @@ public:
 
         if (filePath.find(".vtk") != filePath.npos){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
-- 
2.43.0


From f0907083b8fe093ef06f7d35a704471c695c1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 34/81] fix: keep the read position of BinarySerializer valid
 when data are written or copied

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..67d90e3 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -65,13 +65,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        ByteContainerIterator dataIterator = mData.cbegin() + mPosition;
+        readNext(dataIterator, data);
+        mPosition = dataIterator - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -81,11 +84,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -101,7 +104,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        mPosition = 0;
     }
 
     const ByteContainer& getData() {
@@ -133,7 +136,7 @@ public:
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    size_t mPosition = 0; //!< position of the next value to be read, valid also after mData reallocates
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From 93c739ae54dc82995dccc49372549dfa9b932b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 35/81] fix: report failures of BinarySerializer file
 operations and read loaded data from the beginning

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 67d90e3..713a409 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -3,6 +3,8 @@
 #include <vector>
 #include <cstdint>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 // TODO možná změnit jméno
 /**
@@ -117,6 +119,9 @@ public:
         if (file) {
             file.write(reinterpret_cast<char *>(mData.data()), mData.size());
             file.close();
+            if (!file) {
+                throw std::runtime_error("unable to write file " + fileName);
+            }
         } else {
             throw std::runtime_error("unable to open file " + fileName);
         }
@@ -128,9 +133,16 @@ public:
             file.seekg(0, std::ios::end);
             auto file_size = file.tellg();
             file.seekg(0, std::ios::beg);
-            mData.resize(file_size);
-            file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
+            ByteContainer data(file_size);
+            file.read(reinterpret_cast<std::ios::char_type*>(data.data()), file_size);
+            if (!file) {
+                throw std::runtime_error("unable to read file " + fileName);
+            }
             file.close();
+            mData = std::move(data);
+            resetIterator();
+        } else {
+            throw std::runtime_error("unable to open file " + fileName);
         }
     }
 
-- 
2.43.0


From 1bbc5ca0dbe7003aafd4867f786638ade6ad20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 36/81] fix: replace the content of maps and sets when they are
 deserialized

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..0894c81 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From 00ecc5b5a6c57ab2ee4b3554b03a02303123ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 37/81] fix: deserialize lists and TNL-like indexable
 containers

---
 .../BinarySerializer/Serializers/SerializeIndexable.h     | 8 ++++----
 .../BinarySerializer/Serializers/SerializeIterable.h      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 101834f..9e7aabd 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -31,8 +31,8 @@ struct SerializeIndexable {
 
     template <typename T, typename ..., std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = typename Interface::Indexable<T>::sizeType;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
@@ -47,8 +47,8 @@ struct SerializeIndexable {
     template <typename T, typename ... TupleTraits, std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
                             const std::tuple<TupleTraits...>& traits){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = typename Interface::Indexable<T>::sizeType;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 0894c81..dfa8180 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -14,8 +14,8 @@ struct SerializeIterable {
 
 
 
-    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static Impl::void_t<decltype(T::resize)>
+    template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value && IsResizable<T>::value, bool> = true>
+    static void
         deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
-- 
2.43.0


From e34fbc22a97916f6d17655c0f13843d087edec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 38/81] fix: use all bound traits in binary serialization, also
 for members and elements of containers

---
 .../BinarySerializer/BinarySerializer.h       |  7 ++-
 .../Serializers/SerializeIgnoringTraits.h     | 37 +++++++++++++
 .../Serializers/SerializeIterable.h           | 54 +++++++++++++++++++
 .../Serializers/SerializeTraitedClass.h       |  4 +-
 .../Serializers/SerializeTuple.h              | 50 +++++++++++++++--
 5 files changed, 142 insertions(+), 10 deletions(-)
 create mode 100644 src/GTMesh/BinarySerializer/Serializers/SerializeIgnoringTraits.h

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 713a409..ace5345 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -158,6 +158,7 @@ private:
 #include "Serializers/SerializeIndexable.h"
 #include "Serializers/SerializeTuple.h"
 #include "Serializers/SerializeCompactContainer.h"
+#include "Serializers/SerializeIgnoringTraits.h"
 #include <GTMesh/Utils/ClassSelector.h>
 
 namespace Impl {
@@ -256,8 +257,7 @@ void BinarySerializer::addNext(std::vector<BinarySerializer::Byte> &binaryDataCo
 {
     SelectSerializerWithTraits<T, std::tuple<TupleTraits...>,
                                SerializeCustom,
-                               SerializeSimple,
-                               SerializeCompactContainer,
+                               SerializeIgnoringTraits,
                                SerializeTraitedClass,
                                SerializeIterable,
                                SerializeIndexable,
@@ -308,8 +308,7 @@ void BinarySerializer::readNext(std::vector<Byte>::const_iterator& binaryDataIte
 {
     SelectDeserializerWithTraits<T, std::tuple<TupleTraits...>,
                                  SerializeCustom,
-                                 SerializeSimple,
-                                 SerializeCompactContainer,
+                                 SerializeIgnoringTraits,
                                  SerializeTraitedClass,
                                  DeserializeAsociativeMap,
                                  DeserializeAsociativeSet,
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIgnoringTraits.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIgnoringTraits.h
new file mode 100644
index 0000000..7fadfd1
--- /dev/null
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIgnoringTraits.h
@@ -0,0 +1,37 @@
+#ifndef SERIALIZEIGNORINGTRAITS_H
+#define SERIALIZEIGNORINGTRAITS_H
+#include <GTMesh/Traits/CustomTypeTraits.h>
+#include <GTMesh/Traits/Interfaces/InterfaceIndexable.h>
+#include "../BinarySerializer.h"
+#include "SerializeSimple.h"
+
+/**
+ * @brief Serializes simple values and containers of simple values
+ * regardless of the bound traits.
+ */
+struct SerializeIgnoringTraits {
+    template <typename T, typename = void>
+    struct HasSimpleElements : public std::false_type {};
+
+    template <typename T>
+    struct HasSimpleElements<T, std::enable_if_t<IsIterable<T>::value>>
+        : public std::integral_constant<bool, Impl::IsSimpleSerializable_v<std::decay_t<decltype(*std::declval<const T&>().begin())>>> {};
+
+    template <typename T>
+    struct HasSimpleElements<T, std::enable_if_t<!IsIterable<T>::value && Interface::Indexable<T>::value>>
+        : public std::integral_constant<bool, Impl::IsSimpleSerializable_v<typename Interface::Indexable<T>::valueType>> {};
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<Impl::IsSimpleSerializable_v<T> || HasSimpleElements<T>::value, bool> = true>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const T& data,
+                          const std::tuple<TupleTraits...>&){
+        BinarySerializer::addNext(dataContainer, data);
+    }
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<Impl::IsSimpleSerializable_v<T> || HasSimpleElements<T>::value, bool> = true>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, T& data,
+                            const std::tuple<TupleTraits...>&){
+        BinarySerializer::readNext(dataIterator, data);
+    }
+};
+
+#endif // SERIALIZEIGNORINGTRAITS_H
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index dfa8180..0d16f79 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -12,6 +12,14 @@ struct SerializeIterable {
         }
     }
 
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static void serialize(std::vector<unsigned char>& dataContainer, const T& data,
+                          const std::tuple<TupleTraits...>& traits){
+        BinarySerializer::addNext(dataContainer, data.size());
+        for (const auto& val : data) {
+            BinarySerializer::addNext(dataContainer, val, traits);
+        }
+    }
 
 
     template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value && IsResizable<T>::value, bool> = true>
@@ -29,6 +37,22 @@ struct SerializeIterable {
         }
     }
 
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value && IsResizable<T>::value, bool> = true>
+    static void
+        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
+                    const std::tuple<TupleTraits...>& traits){
+
+        decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+
+        if (data.size() != size) {
+            data.resize(size);
+        }
+
+        for (auto & val : data) {
+            BinarySerializer::readNext(dataIterator, val, traits);
+        }
+    }
+
 };
 
 struct DeserializeAsociativeMap {
@@ -45,6 +69,21 @@ struct DeserializeAsociativeMap {
             data.insert(val);
         }
     }
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static Impl::void_t<typename T::key_type,typename T::mapped_type>
+        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
+                    const std::tuple<TupleTraits...>& traits){
+
+        decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+
+        data.clear();
+        for (decltype(data.size()) i = 0; i < size; i ++) {
+            std::pair<typename T::key_type,typename T::mapped_type> val;
+            BinarySerializer::readNext(dataIterator, val, traits);
+            data.insert(val);
+        }
+    }
 };
 
 struct DeserializeAsociativeSet {
@@ -61,6 +100,21 @@ struct DeserializeAsociativeSet {
             data.insert(val);
         }
     }
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static Impl::void_t<typename T::key_type>
+    deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
+                const std::tuple<TupleTraits...>& traits){
+
+        decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+
+        data.clear();
+        for (decltype(data.size()) i = 0; i < size; i ++) {
+            typename T::key_type val;
+            BinarySerializer::readNext(dataIterator, val, traits);
+            data.insert(val);
+        }
+    }
 };
 
 #endif // SERIALIZEITERABLE_H
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
index c7b1bc9..0a8f696 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
@@ -25,7 +25,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::addNext(container, traits.template getValue<Index>(var));
+            BinarySerializer::addNext(container, traits.template getValue<Index>(var), tupleTraits);
         }
     };
 
@@ -45,7 +45,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::readNext(it, traits.template getAttr<Index>(var));
+            BinarySerializer::readNext(it, traits.template getAttr<Index>(var), tupleTraits);
         }
     };
 
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
index 1b44c63..3413197 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
@@ -10,44 +10,86 @@ struct SerializeTuple {
      * @brief Python-like print of dictionary pair of key and value.
      */
     template<typename T1, typename T2>
-    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data, ...)
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data)
     {
         BinarySerializer::addNext(dataContainer, data.first);
         BinarySerializer::addNext(dataContainer, data.second);
     }
 
+    template<typename T1, typename T2, typename ... TupleTraits>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data,
+                          const std::tuple<TupleTraits...>& traits)
+    {
+        BinarySerializer::addNext(dataContainer, data.first, traits);
+        BinarySerializer::addNext(dataContainer, data.second, traits);
+    }
+
     template<typename T1, typename T2>
-    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data, ...)
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data)
     {
         BinarySerializer::readNext(dataIterator, data.first);
         BinarySerializer::readNext(dataIterator, data.second);
     }
 
+    template<typename T1, typename T2, typename ... TupleTraits>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data,
+                            const std::tuple<TupleTraits...>& traits)
+    {
+        BinarySerializer::readNext(dataIterator, data.first, traits);
+        BinarySerializer::readNext(dataIterator, data.second, traits);
+    }
+
 
     struct SerializeTupleHelper{
         template <unsigned int Index, typename ... TupleTypes>
         static void exec(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data) {
             BinarySerializer::addNext(dataContainer, std::get<Index>(data));
         }
+
+        template <unsigned int Index, typename ... TupleTypes, typename ... TupleTraits>
+        static void exec(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data,
+                         const std::tuple<TupleTraits...>& traits) {
+            BinarySerializer::addNext(dataContainer, std::get<Index>(data), traits);
+        }
     };
 
     template<typename ... TupleTypes>
-    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data, ...)
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data)
     {
         constexprFor<SerializeTupleHelper, sizeof... (TupleTypes)>(dataContainer, data);
     }
 
+    template<typename ... TupleTypes, typename ... TupleTraits>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data,
+                          const std::tuple<TupleTraits...>& traits)
+    {
+        constexprFor<SerializeTupleHelper, sizeof... (TupleTypes)>(dataContainer, data, traits);
+    }
+
     struct DeserializeTupleHelper{
         template <unsigned int Index, typename ... TupleTypes>
         static void exec(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data) {
             BinarySerializer::readNext(dataIterator, std::get<Index>(data));
         }
+
+        template <unsigned int Index, typename ... TupleTypes, typename ... TupleTraits>
+        static void exec(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data,
+                         const std::tuple<TupleTraits...>& traits) {
+            BinarySerializer::readNext(dataIterator, std::get<Index>(data), traits);
+        }
     };
 
     template<typename ... TupleTypes>
-    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data, ...)
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data)
     {
         constexprFor<DeserializeTupleHelper, sizeof... (TupleTypes)>(dataIterator, data);
     }
+
+    template<typename ... TupleTypes, typename ... TupleTraits>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data,
+                            const std::tuple<TupleTraits...>& traits)
+    {
+        constexprFor<DeserializeTupleHelper, sizeof... (TupleTypes)>(dataIterator, data, traits);
+    }
 };
 #endif // SERIALIZETUPLE_H
-- 
2.43.0


From ef8aeb2bab4148e96619d637bbca01681b642496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 39/81] fix: do not access the first element of empty
 containers in binary serialization

---
 .../Serializers/SerializeCompactContainer.h    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index c82d814..1910c19 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -100,9 +100,11 @@ struct SerializeCompactContainer {
         dataContainer.resize(dataContainer.size() + (size * sizeof (Interface::Compact<T>::value_type)));
         */
         BinarySerializer::addNext(dataContainer, size);
-        dataContainer.insert(dataContainer.end(),
-                             reinterpret_cast<const BinarySerializer::Byte*>(Interface::CompactContainer<T>::data(data)),
-                             reinterpret_cast<const BinarySerializer::Byte*>(Interface::CompactContainer<T>::data(data) + size));
+        if (size > 0) {
+            dataContainer.insert(dataContainer.end(),
+                                 reinterpret_cast<const BinarySerializer::Byte*>(Interface::CompactContainer<T>::data(data)),
+                                 reinterpret_cast<const BinarySerializer::Byte*>(Interface::CompactContainer<T>::data(data) + size));
+        }
     }
 
     template<typename T,
@@ -119,10 +121,12 @@ struct SerializeCompactContainer {
             Interface::CompactContainer<T>::resize(data, size);
         }
 
-        std::memcpy(Interface::CompactContainer<T>::data(data),
-               dataIterator.base(),
-               size * sizeof(typename Interface::CompactContainer<T>::value_type));
-        dataIterator += size * sizeof (typename Interface::CompactContainer<T>::value_type);
+        if (size > 0) {
+            std::memcpy(Interface::CompactContainer<T>::data(data),
+                   dataIterator.base(),
+                   size * sizeof(typename Interface::CompactContainer<T>::value_type));
+            dataIterator += size * sizeof (typename Interface::CompactContainer<T>::value_type);
+        }
     }
 };
 #endif // SERIALIZECOMPACTCONTAINER_H
-- 
2.43.0


From dbd69ad6996c96d638a0dbe3f56055908d35fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 40/81] fix: reject serialized containers whose size does not
 match the fixed size container

---
 .../Serializers/SerializeCompactContainer.h                | 4 ++++
 .../BinarySerializer/Serializers/SerializeIndexable.h      | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index 1910c19..ec116b0 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -5,6 +5,7 @@
 #include "SerializeSimple.h"
 #include <GTMesh/Debug/Debug.h>
 #include <cstring> // memcpy
+#include <stdexcept>
 #include <GTMesh/Traits/Interfaces/InterfaceCompactContainer.h>
 //namespace Interface {
 ///**
@@ -119,6 +120,9 @@ struct SerializeCompactContainer {
 
         if (Interface::CompactContainer<T>::size(data) != size) {
             Interface::CompactContainer<T>::resize(data, size);
+            if (Interface::CompactContainer<T>::size(data) != size) {
+                throw std::runtime_error("the size of the serialized container does not match the fixed size container");
+            }
         }
 
         if (size > 0) {
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 9e7aabd..9a6784b 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -3,6 +3,7 @@
 #include <GTMesh/Traits/CustomTypeTraits.h>
 #include <GTMesh/Traits/Interfaces/InterfaceIndexable.h>
 #include "../BinarySerializer.h"
+#include <stdexcept>
 
 
 struct SerializeIndexable {
@@ -36,6 +37,9 @@ struct SerializeIndexable {
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
+            if (Interface::Indexable<T>::size(data) != size) {
+                throw std::runtime_error("the size of the serialized container does not match the fixed size container");
+            }
         }
 
         for (size_type i = 0; i < size; i++) {
@@ -52,6 +56,9 @@ struct SerializeIndexable {
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
+            if (Interface::Indexable<T>::size(data) != size) {
+                throw std::runtime_error("the size of the serialized container does not match the fixed size container");
+            }
         }
 
         for (size_type i = 0; i < size; i++) {
-- 
2.43.0


From fe713a7d93d5060f4d2f58829405b0e3fa6efb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 41/81] fix: validate serialized bool values

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index b289cf8..f26e76a 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -3,6 +3,7 @@
 #include <type_traits>
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 namespace Impl {
 template<typename T>
@@ -33,7 +34,6 @@ struct SerializeSimple {
         dataContainer.push_back(data ? 1 : 0);
     }
 
-    template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, bool& data){
         switch (*dataIterator) {
         case 1: data = true;
@@ -43,6 +43,7 @@ struct SerializeSimple {
         default:
             throw std::runtime_error(std::to_string((int)*dataIterator & 0xff) + ": invalid data input for bool 1/0 expected");
         }
+        dataIterator++;
     }
 
 };
-- 
2.43.0


From abb71f5b61e254c8fb7f6a01dcf8e8ee902b6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 42/81] fix: do not serialize objects convertible to bool as a
 single bool

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index f26e76a..5344b03 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -15,7 +15,7 @@ constexpr bool IsSimpleSerializable_v = std::is_arithmetic<T>::value || std::is_
  */
 struct SerializeSimple {
 
-    template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
+    template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T> && !std::is_same<T, bool>::value, bool> = true>
     static void serialize(std::vector<unsigned char>& dataContainer, const T& data){
         const unsigned char* pData = reinterpret_cast<const unsigned char*>(&data);
         dataContainer.insert(dataContainer.end(), pData, pData + sizeof (T));
@@ -30,7 +30,8 @@ struct SerializeSimple {
         }
     }
 
-    static void serialize(std::vector<unsigned char>& dataContainer, const bool data){
+    template <typename T, typename ..., std::enable_if_t<std::is_same<T, bool>::value, bool> = true>
+    static void serialize(std::vector<unsigned char>& dataContainer, const T data){
         dataContainer.push_back(data ? 1 : 0);
     }
 
-- 
2.43.0


From d7e26a338003e54826dba259c35644744ec1a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 43/81] fix: reject truncated data when reading from
 BinarySerializer

---
 .../BinarySerializer/BinarySerializer.h       | 35 +++++++++++++++++++
 .../Serializers/SerializeCompactContainer.h   |  1 +
 .../Serializers/SerializeSimple.h             |  2 ++
 3 files changed, 38 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index ace5345..e5316d0 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -3,6 +3,7 @@
 #include <vector>
 #include <cstdint>
 #include <fstream>
+#include <functional>
 #include <stdexcept>
 #include <string>
 
@@ -68,6 +69,7 @@ public:
     void read(T& data) {
         resetIteratorIfNotValid();
         ByteContainerIterator dataIterator = mData.cbegin() + mPosition;
+        ReadGuard guard(mData);
         readNext(dataIterator, data);
         mPosition = dataIterator - mData.cbegin();
     }
@@ -146,7 +148,40 @@ public:
         }
     }
 
+    /**
+     * @brief Checks that the data being read by the member function read
+     * contain at least count values of the given size from the position of dataIterator.
+     * @throws std::runtime_error if the data are truncated.
+     */
+    static void checkAvailable(const ByteContainerIterator& dataIterator, size_t count, size_t size) {
+        const ByteContainer* data = ReadGuard::current();
+        if (data == nullptr) {
+            return;
+        }
+        const Byte* position = dataIterator.base();
+        const Byte* begin = data->data();
+        const Byte* end = begin + data->size();
+        // iterators into another data are not checked
+        if (std::less_equal<const Byte*>()(begin, position) && std::less_equal<const Byte*>()(position, end)
+            && count > static_cast<size_t>(end - position) / size) {
+            throw std::runtime_error("unexpected end of the serialized data");
+        }
+    }
+
 private:
+    /// Keeps the information about the data being read for the time of the reading.
+    struct ReadGuard {
+        const ByteContainer* previous;
+        ReadGuard(const ByteContainer& data): previous(current()) { current() = &data; }
+        ~ReadGuard() { current() = previous; }
+        ReadGuard(const ReadGuard&) = delete;
+        ReadGuard& operator=(const ReadGuard&) = delete;
+        static const ByteContainer*& current() {
+            static thread_local const ByteContainer* data = nullptr;
+            return data;
+        }
+    };
+
     ByteContainer mData;
     size_t mPosition = 0; //!< position of the next value to be read, valid also after mData reallocates
 };
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index ec116b0..eb6c0e0 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -118,6 +118,7 @@ struct SerializeCompactContainer {
 
         BinarySerializer::readNext(dataIterator, size);
 
+        BinarySerializer::checkAvailable(dataIterator, size, sizeof(typename Interface::CompactContainer<T>::value_type));
         if (Interface::CompactContainer<T>::size(data) != size) {
             Interface::CompactContainer<T>::resize(data, size);
             if (Interface::CompactContainer<T>::size(data) != size) {
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index 5344b03..ba0e105 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -23,6 +23,7 @@ struct SerializeSimple {
 
     template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
+        BinarySerializer::checkAvailable(dataIterator, 1, sizeof (T));
         unsigned char *const pData = reinterpret_cast<unsigned char*>(&data);
         for (size_t i = 0; i < sizeof (T); i++) {
             pData[i] = *dataIterator;
@@ -36,6 +37,7 @@ struct SerializeSimple {
     }
 
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, bool& data){
+        BinarySerializer::checkAvailable(dataIterator, 1, sizeof (bool));
         switch (*dataIterator) {
         case 1: data = true;
             break;
-- 
2.43.0


From 983f792b62af8d9012f1ddf069afaad378d28759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 44/81] fix: pointer overloads of setValue and getAttr
 dereference the object for setters taking a reference

---
 src/GTMesh/Traits/MemberAccess/GetSetAccess.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
index 8e2bb37..17a1495 100644
--- a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
+++ b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
@@ -150,7 +150,7 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c, val); }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c, val); }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c, val); }
 };
@@ -172,11 +172,11 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c) = val; }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c) = val; }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c) = val; }
 
-    inline auto &getAttr(_typeClass *c) const { return set(c); }
+    inline auto &getAttr(_typeClass *c) const { return set(*c); }
 
     inline auto &getAttr(_typeClass &c) const { return set(c); }
 };
-- 
2.43.0


From e473320268e6a82ac5f814db62af5a103705ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 45/81] fix: names of mesh data container members for
 dimensions containing zero digits or three digits

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..20e88dc 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,14 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                // skip leading zeros only, the last digit is always written
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From 63635f3568ed174494a6a346cab788453d3f3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 46/81] fix: missing return value of the subtraction of a
 temporary traited object

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..bb8ab1d 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -206,7 +206,7 @@ typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
-
+    return op2;
 }
 
 
-- 
2.43.0


From 58eaf06163481adc601e45a83ac70b760fab89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 47/81] fix: functions of temporary traited objects return the
 result by value instead of a dangling reference

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index bb8ab1d..4868e9c 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -365,7 +365,7 @@ struct Pow
 /// Power of traited class to a real number
 ///
 template <typename TraitT, typename Real>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(TraitT&& op1, const Real& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<Pow>::evaluate(op1, op1, op2);
@@ -463,7 +463,7 @@ struct Exp
 /// E to each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 exp(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Exp>::evaluate(op1, op1);
@@ -505,7 +505,7 @@ struct Log
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log>::evaluate(op1, op1);
@@ -545,7 +545,7 @@ struct Log2
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log2(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log2>::evaluate(op1, op1);
@@ -586,7 +586,7 @@ struct Log10
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log10(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log10>::evaluate(op1, op1);
@@ -627,7 +627,7 @@ struct Sqrt
 /// Sqrt of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 sqrt(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Sqrt>::evaluate(op1, op1);
@@ -666,7 +666,7 @@ struct Cbrt
 /// Cbrt of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 cbrt(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Cbrt>::evaluate(op1, op1);
@@ -707,7 +707,7 @@ operator-(const TraitT& op1) noexcept {
 }
 
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<UnaryMinus>::evaluate(op1, op1);
-- 
2.43.0


From 9b0580e07a137e74826e955d575d8ea1d61c330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 48/81] fix: aggregation of arrays of other elements than
 double compiles

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 4868e9c..9c46818 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -912,7 +912,7 @@ public:
 
             return  res;
         }
-        return 0.0;
+        return decltype (evaluate(array[0]))(0);
     }
 
 
-- 
2.43.0


From f3f534b78a15bd584f9bba9cc0685c8787cfd36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 49/81] fix: abs of traited classes and numbers neither
 truncates to int nor recurses forever

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 9c46818..2bc36dd 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -5,6 +5,7 @@
 #include "../CustomTypeTraits.h"
 #include <limits>
 #include <cmath>
+#include <cstdlib>
 #include <algorithm>
 
 /**
@@ -720,6 +721,26 @@ operator-(TraitT&& op1) noexcept {
 /// Absolute value
 ///
 
+template <typename T>
+typename std::enable_if<
+    !std::is_class<T>::value && !std::is_unsigned<T>::value,
+    T
+>::type
+abs(const T& arg) noexcept {
+
+    return  std::abs(arg);
+}
+
+template <typename T>
+typename std::enable_if<
+    std::is_unsigned<T>::value,
+    T
+>::type
+abs(const T& arg) noexcept {
+
+    return  arg;
+}
+
 template< typename T1 >
 struct Abs
 {
@@ -753,16 +774,6 @@ abs(TraitT&& op1) noexcept {
 
 
 
-template <typename T>
-typename std::enable_if<
-    !std::is_class<T>::value,
-    T
->::type
-abs(const T& arg) noexcept {
-
-    return  abs(arg);
-}
-
 template <typename T>
 typename std::enable_if<
     IsIndexable<T>::value,
-- 
2.43.0


From a8de952340ce69c934a77ca55065e00bace2211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 50/81] fix: division of vectors with integer components

---
 src/GTMesh/NumericStaticArray/Vertex.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 24f88d3..89ee544 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -5,6 +5,7 @@
 #include <initializer_list>
 #include "InlineArrayOperations.h"
 #include <array>
+#include <type_traits>
 
 template <unsigned int Dim, typename Real = double>
 class Vertex : public std::array<Real, Dim> {
@@ -133,7 +134,9 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(Real(1.0)/x);
+    Vertex<Dim, Real> res(*this);
+    res /= x;
+    return res;
 }
 
 
@@ -172,7 +175,15 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator/=(const RealOP& x){
-    this->operator*=(Real(1.0)/x);
+    if (std::is_integral<Real>::value) {
+        // the inverse of an integer is not an integer
+        const RealOP divisor(x); // x may be a coordinate of this vector
+        for(unsigned int i = 0; i < Dim; i++) {
+            this->operator[](i) /= divisor;
+        }
+    } else {
+        this->operator*=(Real(1.0)/x);
+    }
     return *this;
 }
 
-- 
2.43.0


From 88f890a4d6ccd3933ec2381bdf70ce217d48d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 51/81] fix: scaling a vector in place by its own coordinate

---
 src/GTMesh/NumericStaticArray/Vertex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 89ee544..57b0674 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -167,7 +167,8 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator-=(const Vertex<Dim, Real>& v){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
-    inlineMultiplication<Dim, Real>::computation(this->data(), x);
+    const RealOP factor(x); // x may be a coordinate of this vector
+    inlineMultiplication<Dim, Real>::computation(this->data(), factor);
     return *this;
 }
 
-- 
2.43.0


From c1eda1156d13ec0e7c9619096ee1c33e97089875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 52/81] fix: division of traited classes divides each member
 exactly

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 2bc36dd..4855783 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -329,11 +329,24 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
 /// Division of traited class with a real number
 ///
 
+template< typename T1, typename T2 >
+struct BinarySlash
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( a / b )
+   {
+      return a / b;
+   }
+};
+
+
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(const TraitT& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitT res;
+    // the divisor is converted to a floating point type so that it does not affect the signs of integer members
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(res, op1, 1.0 * op2);
+    return res;
 }
 
 
@@ -341,7 +354,8 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(TraitT&& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(op1, op1, 1.0 * op2);
+    return op1;
 }
 
 
-- 
2.43.0


From 97d08fdf6ba36f852bf11894cacebaa5a6b7a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 53/81] fix: scaling a traited object in place by its own
 member

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 4855783..6b56177 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -250,7 +250,8 @@ template <typename TraitT, typename Real>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
 operator*=(TraitT& op1, const Real& op2) noexcept {
 
-    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op1, op1, op2);
+    const Real factor(op2); // op2 may be a member of op1
+    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op1, op1, factor);
 
     return  op1;
 }
-- 
2.43.0


From 1d10e3f2519b91d0af68800811676873cd2690dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 54/81] fix: value type of bound getters returning a reference
 (getValue returned a dangling reference)

---
 src/GTMesh/Traits/MemberAccess/GetSetAccess.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
index 17a1495..756603d 100644
--- a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
+++ b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
@@ -13,9 +13,9 @@ template<class GetFunctor, typename Class = void>
 struct GetAccess : public ConstGetAccess
 {
 #if __cplusplus <= 201702L // standard c++14 and older
-    using _typeValue = typename std::result_of<GetFunctor(Class)>::type;
+    using _typeValue = std::decay_t<typename std::result_of<GetFunctor(Class)>::type>;
 #else
-    using _typeValue = typename std::invoke_result<GetFunctor, Class>::type;
+    using _typeValue = std::decay_t<typename std::invoke_result<GetFunctor, Class>::type>;
 #endif
     using _getterType = GetFunctor;
 
-- 
2.43.0


From 4c28f6e9e52ef424bdd90caafa2703d9872b2d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 55/81] fix: operations of traited classes nested in traited
 classes compile in every namespace

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 107 ++++++++++++++++--
 1 file changed, 95 insertions(+), 12 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 6b56177..05bbf5c 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -17,6 +17,78 @@
  * So far, the algorithms supports traits with direct refferences only.
 */
 
+/*
+ * Forward declarations of the operations applied on members, so that
+ * members with arithmetic traits are found regardless of their namespace.
+ */
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator+(const TraitT& op1, const TraitT& op2) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator-(const TraitT& op1, const TraitT& op2) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(const TraitT& op1, const TraitT& op2) noexcept;
+
+template <typename TraitT, typename Real>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(const TraitT& op1, const Real& op2) noexcept;
+
+template <typename Real, typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator/(const TraitT& op1, const Real& op2) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator-(const TraitT& op1) noexcept;
+
+template <typename TraitT, typename Real>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+pow(const TraitT& op1, const Real& op2) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+exp(const TraitT& op1) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+log(const TraitT& op1) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+log2(const TraitT& op1) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+log10(const TraitT& op1) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+sqrt(const TraitT& op1) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+cbrt(const TraitT& op1) noexcept;
+
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+abs(const TraitT& op1) noexcept;
+
+template <typename T, typename Real>
+typename std::enable_if<IsIndexable<T>::value, T>::type
+pow(const T& array, const Real& p) noexcept;
+
+template <typename T, typename Real>
+typename std::enable_if<IsTNLIndexable<T>::value, T>::type
+pow(const T& array, const Real& p) noexcept;
+
+template <typename T>
+typename std::enable_if<IsIndexable<T>::value, T>::type
+abs(const T& array) noexcept;
+
 /**
  * @brief The TraitsBinaryExpressionProcesor struct applies
  * a binary operator on each member of a traited struct.
@@ -466,9 +538,11 @@ pow(const T& array, const Real& p) noexcept {
 template< typename T1 >
 struct Exp
 {
-   static auto evaluate( const T1& a ) -> decltype( std::exp(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::exp(a);
+      using ::exp;
+      using std::exp;
+      return exp(a);
    }
 };
 
@@ -508,9 +582,11 @@ exp(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::log(a);
+      using ::log;
+      using std::log;
+      return log(a);
    }
 };
 
@@ -548,9 +624,11 @@ log(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log2
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log2(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::log2(a);
+      using ::log2;
+      using std::log2;
+      return log2(a);
    }
 };
 
@@ -589,9 +667,11 @@ log2(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log10
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log10(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::log10(a);
+      using ::log10;
+      using std::log10;
+      return log10(a);
    }
 };
 
@@ -629,8 +709,9 @@ log10(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Sqrt
 {
-   static auto evaluate( const T1& a ) -> decltype( sqrt(a) )
+   static auto evaluate( const T1& a )
    {
+        using ::sqrt;
         using std::sqrt;
         return sqrt(a);
    }
@@ -669,9 +750,11 @@ sqrt(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Cbrt
 {
-   static auto evaluate( const T1& a ) -> decltype( std::cbrt(a) )
+   static auto evaluate( const T1& a )
    {
-      return std::cbrt(a);
+      using ::cbrt;
+      using std::cbrt;
+      return cbrt(a);
    }
 };
 
@@ -707,7 +790,7 @@ cbrt(const TraitT& op1) noexcept {
 template< typename T1 >
 struct UnaryMinus
 {
-   static auto evaluate( const T1& a ) -> decltype( -1 * a )
+   static auto evaluate( const T1& a ) -> decltype( -a )
    {
       return -a;
    }
-- 
2.43.0


From 1ec8325d010476e98dfa266a904d0ecee3e74448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 56/81] fix: export of unsigned, long and pointer values to the
 standard output

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 30 +++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..1df8ade 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -1,6 +1,7 @@
 #ifndef PRINTEXPORTABLE_H
 #define PRINTEXPORTABLE_H
 #include <type_traits>
+#include <cstdio>
 #include "../VariableExport.h"
 
 struct PrintExportable {
@@ -42,9 +43,23 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
     }
 
+    static void print(const unsigned short& d, ...)
+    {
+        printf("%hu", d);
+    }
+
+    static void print(const long& d, ...)
+    {
+        printf("%ld", d);
+    }
+
+    static void print(const unsigned long& d, ...)
+    {
+        printf("%lu", d);
+    }
 
     static void print(const long long& d, ...)
     {
@@ -56,10 +71,21 @@ struct PrintExportable {
         printf("%llu", d);
     }
 
-    static void print(const bool& b, ...)
+    // The template prevents pointers from being converted to bool
+    template <typename T, std::enable_if_t<std::is_same<T, bool>::value, bool> = true>
+    static void print(const T& b, ...)
     {
         printf("%s", (b == true ? "true" : "false"));
     }
+
+    static void print(const void* const& ptr, ...)
+    {
+        if (ptr != nullptr) {
+            printf("%p", ptr);
+        } else {
+            printf("0");
+        }
+    }
 };
 
 #endif // PRINTEXPORTABLE_H
-- 
2.43.0


From 7af829627ce4ce72dc5bf0b97bffadf1b02d56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 57/81] fix: escape exported texts and names, export character
 arrays and null pointers as texts in both outputs

---
 src/GTMesh/Debug/Printers/PrintText.h         | 72 ++++++++++++++++---
 src/GTMesh/Debug/Printers/PrintTraitedClass.h |  9 +--
 2 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index f143369..4404288 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -1,37 +1,89 @@
 #ifndef PRINTTEXT_H
 #define PRINTTEXT_H
+#include <algorithm>
+#include <cstdio>
+#include <cstring>
+#include <string>
+#include <ostream>
+#include <type_traits>
 #include <GTMesh/Traits/CustomTypeTraits.h>
 
 struct PrintText {
 
+    template<typename T>
+    using isCharArray = std::integral_constant<bool,
+                                               std::is_array<T>::value &&
+                                               std::is_same<std::remove_cv_t<std::remove_extent_t<T>>, char>::value>;
+
     template<typename T>
     using isTextType = std::enable_if_t < std::is_same<T, std::string>::value ||
                                           std::is_same<T, const char*>::value ||
                                           std::is_same<T, char*>::value ||
+                                          isCharArray<T>::value ||
                                           std::is_same<T, char>::value,
                                           bool >;
 
-    template< typename TextType,
-              isTextType<TextType> dummy = true >
-    static void print(std::ostream& ost, const TextType& str, ...) {
-        ost << '"' << str << '"';
+    /**
+     * @brief Returns the text in quotation marks. The quotation marks,
+     * backslashes and control characters inside the text are escaped
+     * the same way as in JSON strings.
+     */
+    static std::string quote(const char* str, size_t length)
+    {
+        std::string res("\"");
+        for (size_t i = 0; i < length; i++) {
+            const char c = str[i];
+            switch (c) {
+            case '"': res += "\\\""; break;
+            case '\\': res += "\\\\"; break;
+            case '\n': res += "\\n"; break;
+            case '\t': res += "\\t"; break;
+            case '\r': res += "\\r"; break;
+            default:
+                if (static_cast<unsigned char>(c) < 0x20) {
+                    char code[7];
+                    std::snprintf(code, sizeof(code), "\\u%04x", static_cast<unsigned int>(c));
+                    res += code;
+                } else {
+                    res += c;
+                }
+            }
+        }
+        return res + '"';
     }
 
-    static void print(const std::string& str, ...)
+    static std::string quote(const std::string& str)
     {
-        printf("\"%s\"", str.c_str());
+        return quote(str.data(), str.size());
     }
 
+    template<size_t N>
+    static std::string quote(const char (&str)[N])
+    {
+        return quote(str, std::find(str, str + N, '\0') - str);
+    }
 
-    static void print(const char* str, ...)
+    template<typename Pointer, std::enable_if_t<std::is_pointer<Pointer>::value, bool> = true>
+    static std::string quote(const Pointer& str)
     {
-        printf("\"%s\"", str);
+        return str == nullptr ? std::string("null") : quote(str, std::strlen(str));
     }
 
+    static std::string quote(const char& c)
+    {
+        return quote(&c, 1);
+    }
+
+    template<typename TextType, isTextType<TextType> = true>
+    static void print(std::ostream& ost, const TextType& str, ...) {
+        ost << quote(str);
+    }
 
-    static void print(const char str, ...)
+    template<typename TextType, isTextType<TextType> = true>
+    static void print(const TextType& str, ...)
     {
-        printf("\"%c\"", str);
+        const std::string text = quote(str);
+        fwrite(text.data(), 1, text.size(), stdout);
     }
 
 };
diff --git a/src/GTMesh/Debug/Printers/PrintTraitedClass.h b/src/GTMesh/Debug/Printers/PrintTraitedClass.h
index e4e128f..3c63b6b 100644
--- a/src/GTMesh/Debug/Printers/PrintTraitedClass.h
+++ b/src/GTMesh/Debug/Printers/PrintTraitedClass.h
@@ -1,6 +1,7 @@
 #ifndef PRINTTRAITEDCLASS_H
 #define PRINTTRAITEDCLASS_H
 #include "../VariableExport.h"
+#include "PrintText.h"
 
 struct PrintTraitedClass {
 
@@ -38,24 +39,24 @@ struct PrintTraitedClass {
     struct PrintClass<T, TraitsIO, Index, true>{
 
         static void print(std::ostream& ost, const T &traitedClass, const TraitsIO& traitsIO){
-            ost << '"' << traitsIO.template getName<Index>() << "\" : ";
+            ost << PrintText::quote(traitsIO.template getName<Index>()) << " : ";
             VariableExport::exportVariable(ost, traitsIO.template getValue<Index>(traitedClass));
         }
 
         template <typename ... _Traits, typename _T = T>
         static void print(std::ostream& ost, const _T &traitedClass, const TraitsIO& traitsIO, std::tuple<const _Traits& ...> t) {
-            ost << '"' << traitsIO.template getName<Index>() << "\" : ";
+            ost << PrintText::quote(traitsIO.template getName<Index>()) << " : ";
             VariableExport::exportVariable(ost, traitsIO.template getValue<Index>(traitedClass), t);
         }
 
         static void print(const T &traitedClass, const TraitsIO& traitsIO){
-            printf("\"%s\" : ", traitsIO.template getName<Index>());
+            printf("%s : ", PrintText::quote(traitsIO.template getName<Index>()).c_str());
             VariableExport::exportVariable(traitsIO.template getValue<Index>(traitedClass));
         }
 
         template <typename ... _Traits, typename _T = T>
         static void print(const _T &traitedClass, const TraitsIO& traitsIO, std::tuple<const _Traits& ...> t) {
-            printf("\"%s\" : ", traitsIO.template getName<Index>());
+            printf("%s : ", PrintText::quote(traitsIO.template getName<Index>()).c_str());
             VariableExport::exportVariable(traitsIO.template getValue<Index>(traitedClass), t);
         }
     };
-- 
2.43.0


From dab09fa165d743dc455662c7d6eb3a79f51de4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 58/81] fix: restore the format of the stream after the export
 of an object of unknown type

---
 src/GTMesh/Debug/Printers/PrintAny.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index 25be8e9..d255745 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -1,11 +1,17 @@
 #ifndef PRINTANY_H
 #define PRINTANY_H
 
+#include <cstdio>
 #include <iomanip>
+#include <ostream>
+#include <typeinfo>
 struct PrintAny {
 
     template <typename T>
     static void print(std::ostream& ost, const T& var, ...) {
+        // the formatting of the stream is restored after the export
+        const std::ios_base::fmtflags flags = ost.flags();
+        const char fill = ost.fill();
         ost << typeid (T).name() << "(";
         ost << std::hex;
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
@@ -14,7 +20,8 @@ struct PrintAny {
                 ost << ' ';
             }
         }
-        ost << std::dec;
+        ost.flags(flags);
+        ost.fill(fill);
         ost << ")";
     }
 
-- 
2.43.0


From 041343ab875c325f37fa244ca034979ddd501a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 59/81] fix: elements of indexable types returned by value are
 not referenced after their lifetime

---
 src/GTMesh/Traits/Interfaces/InterfaceIndexable.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
index e50ab5b..55c08fc 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
@@ -22,7 +22,8 @@ struct Indexable<T, std::enable_if_t<::IsIndexable<T>::value>> : public std::tru
 
     static sizeType size(const T &val) { return val.size(); }
 
-    static const valueType& getElement(const T& array, const sizeType& index) {
+    // some types return the element by value
+    static decltype(std::declval<const T &>()[0]) getElement(const T& array, const sizeType& index) {
         return array[index];
     }
 
@@ -60,7 +61,8 @@ struct Indexable<T, std::enable_if_t<::IsTNLIndexable<T>::value>> : public std::
 
     static sizeType size(const T &val) { return val.getSize(); }
 
-    static const valueType& getElement(const T& array, const sizeType& index) {
+    // some types return the element by value
+    static decltype(std::declval<const T &>()[0]) getElement(const T& array, const sizeType& index) {
         return array[index];
     }
 
-- 
2.43.0


From 723b1e7f1802e0304fbd0d2f37296f3273e10c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 60/81] fix: export tuples to derived streams instead of the
 standard output

---
 src/GTMesh/Debug/VariableExport.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/VariableExport.h b/src/GTMesh/Debug/VariableExport.h
index ddac070..750c6f4 100644
--- a/src/GTMesh/Debug/VariableExport.h
+++ b/src/GTMesh/Debug/VariableExport.h
@@ -27,8 +27,10 @@ struct VariableExport {
     static void exportVariable(const T& var);
 
 
+    // A stream with an exported tuple must not be taken for an exported variable with a tuple of traits
     template <typename T, typename ... TraitsTypes>
-    static void exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
+    static std::enable_if_t<!std::is_base_of<std::ostream, T>::value>
+    exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
 
 };
 
@@ -136,7 +138,8 @@ void VariableExport::exportVariable(const T &var)
 
 
 template<typename T, typename ... TraitsTypes>
-void VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
+std::enable_if_t<!std::is_base_of<std::ostream, T>::value>
+VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
 {
     SelectPrinterTraitsTuple< T, std::tuple<TraitsTypes...>,
                               PrintCustom, PrintText, PrintIterable, PrintIndexable, PrintTraitedClass,
-- 
2.43.0


From a200fb97b99d6bfa3fb17edbe7d86fac2dad63e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 61/81] fix: escape expressions and file names in JSON logs

---
 src/GTMesh/Debug/JSONLogger.h | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..f3321e7 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -84,7 +84,7 @@ public:
             firstWrite = false;
         }
 
-        (*logFile) << "\t{\n\t\t\"expr\" : "<< std::quoted( name ) <<
+        (*logFile) << "\t{\n\t\t\"expr\" : "<< PrintText::quote(name) <<
                       ",\n\t\t\"data\" : " ;
         VariableExport::exportVariable(*logFile, value);
         (*logFile) << "\n}";
@@ -106,9 +106,9 @@ public:
         }
         (*logFile) << "\t{" <<
                       "\n\t\t\"gInd\" : " << groupIndex << "," <<
-                      "\n\t\t\"file\" : \"" << cppFile << "\"," <<
+                      "\n\t\t\"file\" : " << PrintText::quote(cppFile) << "," <<
                       "\n\t\t\"line\" : " << line << "," <<
-                      "\n\t\t\"expr\" : " << std::quoted( name ) << "," <<
+                      "\n\t\t\"expr\" : " << PrintText::quote(name) << "," <<
                       "\n\t\t\"data\" : ";
         VariableExport::exportVariable(*logFile, value);
         (*logFile) << "\n\t}";
@@ -130,9 +130,9 @@ public:
         }
         (*logFile) << "\t{" <<
                       "\n\t\t\"gInd\" : " << groupIndex << "," <<
-                      "\n\t\t\"file\" : \"" << cppFile << "\"," <<
+                      "\n\t\t\"file\" : " << PrintText::quote(cppFile) << "," <<
                       "\n\t\t\"line\" : " << line << "," <<
-                      "\n\t\t\"expr\" : " << std::quoted( name ) << "," <<
+                      "\n\t\t\"expr\" : " << PrintText::quote(name) << "," <<
                       "\n\t\t\"data\" : ";
         VariableExport::exportVariable(*logFile, value);
 
@@ -144,18 +144,7 @@ public:
 
     template< typename VAR, typename ... REST >
     void writeVar(int line, const char* cppFile, const char* name, const VAR& value,const REST& ... rest){
-        writeVar(line, doubleBackSlash(cppFile), name, value,  rest...);
-    }
-
-
-
-    std::string doubleBackSlash(const char * str){
-        std::string res = str;
-        size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
-            res.replace(pos, 1, "\\\\");
-        }
-        return res;
+        writeVar(line, std::string(cppFile), name, value,  rest...);
     }
 };
 
-- 
2.43.0


From 0f80ad731a29c2847317ac3b614212d57444eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 62/81] fix: complete the JSON log when another one is created
 and do not use a destroyed one

---
 src/GTMesh/Debug/JSONLogger.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index f3321e7..60def27 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -41,10 +41,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy(); // completes the previous file
         firstWrite = true;
         logFile = new std::ofstream(fileName);
         (*logFile) << "{\n\"logs\":[\n";
@@ -57,6 +54,7 @@ public:
 
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
-- 
2.43.0


From c0c4a5b542857a58a7098349116877c98ea3a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 63/81] fix: complete the HTML log when another one is created
 and do not use a destroyed one

---
 src/GTMesh/Debug/HTMLLogger.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..13a3f12 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -43,10 +43,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy(); // completes the previous file
         logFile = new std::ofstream(fileName);
 
 
@@ -58,6 +55,7 @@ public:
             writeEndScritpt();
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
-- 
2.43.0


From 99f69fe928ad07affaac366c1a2467b3b658f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 64/81] fix: escape expressions and file names in HTML logs

---
 src/GTMesh/Debug/HTMLLogger.h | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 13a3f12..da40717 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -90,7 +90,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", " << PrintText::quote(cppFile) << ", " << PrintText::quote(name) << ", ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         writeVar(line, cppFile, rest...);
@@ -103,7 +103,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", " << PrintText::quote(cppFile) << ", " << PrintText::quote(name) << ", ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         groupIndex++;
@@ -114,32 +114,14 @@ public:
     template<typename VAR_NAME, typename VAR, typename ... REST>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value, REST ... rest){
 
-        std::string file;
-        int i = 0;
-        while(cppFile[i] != '\0'){
-            if (cppFile[i] == '\\'){
-                file += "\\\\";
-            } else {
-                file += cppFile[i];
-            }
-            i++;
-        }
+        std::string file(cppFile);
         writeVar(line, file, name, value,  rest...);
     }
 
 
     template<typename VAR_NAME, typename VAR>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value){
-        std::string file;
-        int i = 0;
-        while(cppFile[i] != '\0'){
-            if (cppFile[i] == '\\'){
-                file += "\\\\";
-            } else {
-                file += cppFile[i];
-            }
-            i++;
-        }
+        std::string file(cppFile);
         writeVar(line, file, name, value);
     }
 
-- 
2.43.0


From bcd9a2f05c399f10b76152ef66cb6f89f5e0b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 65/81] fix: logged texts do not end the script of HTML logs

---
 src/GTMesh/Debug/HTMLLogger.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index da40717..4003710 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -3,6 +3,7 @@
 #include "VariableExport.h"
 #include <iostream>
 #include <fstream>
+#include <sstream>
 #include <string>
 
 /**
@@ -19,6 +20,29 @@ class HtmlLogger {
 
     inline void writeScript();
     inline void writeEndScritpt();
+
+    /// Escapes the text to be placed in the script, because an exported "</script>" would end it.
+    static std::string escapeScript(const std::string& text) {
+        std::string res;
+        for (char c : text) {
+            if (c == '<') {
+                res += "\\u003c";
+            } else {
+                res += c;
+            }
+        }
+        return res;
+    }
+
+    template<typename VAR_NAME, typename VAR>
+    void writeRow(int line, const std::string& cppFile, const VAR_NAME& name, const VAR& value) {
+        std::ostringstream valueText;
+        VariableExport::exportVariable(valueText, value);
+        (*logFile)  << "[" << groupIndex << ", " << line << ", "
+                    << escapeScript(PrintText::quote(cppFile)) << ", "
+                    << escapeScript(PrintText::quote(name)) << ", "
+                    << escapeScript(valueText.str()) << "],\n";
+    }
 public:
     HtmlLogger(){logFile = nullptr;}
 
@@ -90,9 +114,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", " << PrintText::quote(cppFile) << ", " << PrintText::quote(name) << ", ";
-        VariableExport::exportVariable(*logFile,value);
-        (*logFile) << "],\n";
+        writeRow(line, cppFile, name, value);
         writeVar(line, cppFile, rest...);
     }
 
@@ -103,9 +125,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", " << PrintText::quote(cppFile) << ", " << PrintText::quote(name) << ", ";
-        VariableExport::exportVariable(*logFile,value);
-        (*logFile) << "],\n";
+        writeRow(line, cppFile, name, value);
         groupIndex++;
 
     }
-- 
2.43.0


From eba5701912a56a8b892d43a498e812246dd7f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 66/81] fix: writing more messages to the standard output

---
 src/GTMesh/Debug/ConsoleLogger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..26fd6f0 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
-- 
2.43.0


From 82ee9a6ff1255a6030f8a6e666d0c1064920719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 67/81] fix: reset of the console logger restores the default
 identation

---
 src/GTMesh/Debug/ConsoleLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index 26fd6f0..0609dc1 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -52,7 +52,7 @@ public:
         mOnlyFilename = false; //!< If true then the filename is exported without its path.
         mPrintFunction = true; //!< If true then the name of the function the export is called from is printed.
         mPrintAggregated = true; //!< Prints the information about the origin of the message only once.
-        mIdentation = std::string("...     "); //!< The identation of the single exports when PrintAggregated is true.
+        mIdentation = std::string("||     "); //!< The identation of the single exports when PrintAggregated is true.
     }
 public:
 
-- 
2.43.0


From bf36e9751d6391847afe4fb62d1f2a93187c44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:52 +0000
Subject: [PATCH 68/81] fix: swapped file and function in the debug export to
 the standard output

---
 src/GTMesh/Debug/Debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..682cd3b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
-- 
2.43.0


From 768ce9b1852dd0a640ccfb314daa324aeb28e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 69/81] fix: debug macros to the standard output missing with
 UNDEBUG

---
 src/GTMesh/Debug/Debug.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 682cd3b..42cd46a 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -69,10 +69,16 @@ exit(1);}
 
 #define DBGVAR(...)
 
+#define DBGVAR_STDIO(...)
+
+#define DBGVARCOND_STDIO(condition, ...)
+
 #define DBGMSG(...)
 
 #define DBGCHECK
 
+#define DBGCHECK_STDIO
+
 #define DBGTRY(code) code
 
 #define DBGVAR_HTML(...)
-- 
2.43.0


From 6d815ca52b7cc8ec67e38b27ac9408a66dccc6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 70/81] fix: conditional debug macros took over the else branch
 of an enclosing if

---
 src/GTMesh/Debug/Debug.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 42cd46a..3bc4c27 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -31,10 +31,10 @@ namespace dbg {
 
 
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
+#define DBGVARCOND(condition, ...) do { if(condition) { DBGVAR(__VA_ARGS__); } } while(0)
 
 #define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
+#define DBGVARCOND_STDIO(condition, ...) do { if(condition) { DBGVAR_STDIO(__VA_ARGS__); } } while(0)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
 
@@ -46,15 +46,15 @@ exit(1);}
 
 // Macros using html debug output
 #define DBGVAR_HTML(...) Singleton<dbg::DBGStatics>::getInstance().HDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_HTML(condition, ...) if(condition) DBGVAR_HTML(__VA_ARGS__)
+#define DBGVARCOND_HTML(condition, ...) do { if(condition) { DBGVAR_HTML(__VA_ARGS__); } } while(0)
 
 // Macros using csv debug output
 #define DBGVAR_CSV(...) Singleton<dbg::DBGStatics>::getInstance().CSVDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_CSV(condition, ...) if(condition) DBGVAR_CSV(__VA_ARGS__)
+#define DBGVARCOND_CSV(condition, ...) do { if(condition) { DBGVAR_CSV(__VA_ARGS__); } } while(0)
 
 // Macros using json debug output
 #define DBGVAR_JSON(...) Singleton<dbg::DBGStatics>::getInstance().JSONDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_JSON(condition, ...) if(condition) DBGVAR_JSON(__VA_ARGS__)
+#define DBGVARCOND_JSON(condition, ...) do { if(condition) { DBGVAR_JSON(__VA_ARGS__); } } while(0)
 
 
 
-- 
2.43.0


From 2ad851ea64c6a8a63b6f1136ff88b877d0602053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 71/81] fix: data race in the construction of singletons

---
 src/GTMesh/Singleton/Singleton.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Singleton/Singleton.h b/src/GTMesh/Singleton/Singleton.h
index aa6e585..d2bba00 100644
--- a/src/GTMesh/Singleton/Singleton.h
+++ b/src/GTMesh/Singleton/Singleton.h
@@ -12,10 +12,9 @@ class Singleton {
     //static_assert (std::is_trivially_constructible<Class>::value, "The class in singleton must be trivially constructible.");
 public:
     static Class& getInstance(){
-        if (p == nullptr) {
-            p = std::unique_ptr<Class>(new Class); // the class must be trivially constructible
-        }
-        return *p;
+        // the initialization of a local static variable is performed exactly once even by concurrent calls
+        static Class& instance = *(p = std::unique_ptr<Class>(new Class)); // the class must be trivially constructible
+        return instance;
     }
 protected:
     static std::unique_ptr<Class> p;
-- 
2.43.0


From 2eac9b35f3d9e5758a1d80b43229166ad7384947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 72/81] fix: writing meshes of other index and real types than
 size_t and double to files

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index da54287..59e1cdb 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -379,13 +379,13 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
         if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
-            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -416,13 +416,13 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (!checkExtension(filePath, ".vtk")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
@@ -433,13 +433,13 @@ public:
                 }
             }
 
-            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension>).hash_code()){
+            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension, IndexType, Real>).hash_code()){
                 if (!checkExtension(filePath, ".fpma")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as FPMA");
-                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension>*>(writer.get());
+                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     reader->writeToStream(file, *this);
                 }
             }
@@ -467,7 +467,7 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -493,10 +493,10 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (checkExtension(filePath, ".vtk")){
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
-- 
2.43.0


From ee92517288776ae8120aa9d4186c19664078beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 73/81] fix: computeCellsCenterDifference was reversed at
 boundary faces whose only cell is on the right

---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From a29e068a69951fd9a41384ab0791ab50f8bc56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 74/81] fix: 'filter' of an HTML log without filters shows all
 rows of the line

---
 src/GTMesh/Debug/HTMLLogger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 4003710..303ac83 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -202,6 +202,7 @@ function checkData(varData) {
             }
         }
     } else {
+        apliedRule = 0;
         return true;
     }
 
-- 
2.43.0


From 5c0eb0b6256a6bca1b804b626b56ef735d621eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 75/81] fix: adding a filter to an HTML log keeps the filters
 entered before

---
 src/GTMesh/Debug/HTMLLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 303ac83..1ec4ebd 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -176,7 +176,7 @@ function copyData() {
 function addFilter() {
     var sel = document.getElementById("selector");
 
-    sel.innerHTML += '<tr><td>select: <select id ="sO' + numberOfSelectors.toString(10) + '"><option>row</option><option>group</option></select></td><td>var name:<input id ="vN' + numberOfSelectors.toString(10) + '" type="text"/></td><td><select id ="cO' + numberOfSelectors.toString(10) + '"><option>less</option><option>greater</option><option>equal</option><option>between</option></select></td><td><input type="number" step="1e-6" id ="firstVal' + numberOfSelectors.toString(10) + '" value="0"/></td><td> and: <input type="number" step="1e-6" id ="secondVal' + numberOfSelectors.toString(10) + '" value="0"/></td></tr>';
+    sel.insertAdjacentHTML('beforeend', '<tr><td>select: <select id ="sO' + numberOfSelectors.toString(10) + '"><option>row</option><option>group</option></select></td><td>var name:<input id ="vN' + numberOfSelectors.toString(10) + '" type="text"/></td><td><select id ="cO' + numberOfSelectors.toString(10) + '"><option>less</option><option>greater</option><option>equal</option><option>between</option></select></td><td><input type="number" step="1e-6" id ="firstVal' + numberOfSelectors.toString(10) + '" value="0"/></td><td> and: <input type="number" step="1e-6" id ="secondVal' + numberOfSelectors.toString(10) + '" value="0"/></td></tr>');
 
     numberOfSelectors++;
 }
-- 
2.43.0


From 0a7873ea14a25076b5d96b5e116e1e8fe1440717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:04 +0000
Subject: [PATCH 76/81] fix: HTML logs show names, files and values with markup
 characters as they are

---
 src/GTMesh/Debug/HTMLLogger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 1ec4ebd..5f5815c 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -241,6 +241,10 @@ function filterData() {
 }
 
 
+function escapeText(text) {
+    return String(text).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+}
+
 function showData(){
     lD = document.getElementById("listDiv");
 
@@ -265,7 +269,7 @@ function showData(){
             odd = true;
         }
 
-        tmp += dataToShow[i][0] + "</td><td>" + dataToShow[i][1] + "</td><td>" + dataToShow[i][2] + "</td><td>" + dataToShow[i][3] + "</td><td>" + JSON.stringify(dataToShow[i][4]) + "</td></tr>";
+        tmp += dataToShow[i][0] + "</td><td>" + dataToShow[i][1] + "</td><td>" + escapeText(dataToShow[i][2]) + "</td><td>" + escapeText(dataToShow[i][3]) + "</td><td>" + escapeText(JSON.stringify(dataToShow[i][4])) + "</td></tr>";
 
     }
     tmp += "</table>";
-- 
2.43.0


From 4b747cea9569f696838ee173b66c41ca374ea972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:20 +0000
Subject: [PATCH 77/81] fix: filtering an HTML log by groups shows every row
 once

---
 src/GTMesh/Debug/HTMLLogger.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 5f5815c..4a3e493 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -228,6 +228,9 @@ function filterData() {
                         for(var j = i; j >= 0 && data[j][0] == groupIndex; j--){
                             index = j;
                         }
+                        while(dataToShow.length > 0 && dataToShow[dataToShow.length - 1][0] == groupIndex) {
+                            dataToShow.pop();
+                        }
                         while(index < data.length && data[index][0] == groupIndex) {
                             dataToShow.push(data[index]);
                             index++;
-- 
2.43.0


From f731a00077a7b04900f6d2056d9612a123a1b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 78/81] fix: sums and products with a temporary right operand
 keep the order of operands

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 05bbf5c..e9332bb 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -218,7 +218,8 @@ template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator+(const TraitT& op1, TraitT&& op2) noexcept {
 
-    return op2 += op1;
+    TraitsBinaryExpressionProcesor<BinaryPlus>::evaluate(op2, op1, op2);
+    return op2;
 }
 
 
@@ -232,7 +233,7 @@ operator+(TraitT&& op1, const TraitT& op2) noexcept {
 template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator+(TraitT&& op1, TraitT&& op2) noexcept {
-    return op2 += op1;
+    return op1 += op2;
 }
 
 
@@ -388,7 +389,8 @@ operator*(const TraitT& op1, const TraitT& op2) noexcept {
 template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator*(const TraitT& op1, TraitT&& op2) noexcept {
-    return operator*=(op2, op1);
+    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op2, op1, op2);
+    return op2;
 }
 
 template <typename TraitT>
-- 
2.43.0


From af07f600c0a30066ac80964155b22c947e1671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:25 +0000
Subject: [PATCH 79/81] fix: product of two temporary traited objects was
 ambiguous

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index e9332bb..2e7e28c 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -399,6 +399,12 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
     return operator*=(op1, op2);
 }
 
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(TraitT&& op1, TraitT&& op2) noexcept {
+    return operator*=(op1, op2);
+}
+
 
 ///
 /// Division of traited class with a real number
-- 
2.43.0


From 19462f0b62c5130b5d183824bcd40c2ed6cd311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 80/81] fix: import of mesh data to dynamically sized members
 wrote out of bounds

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 7106f82..fb046b7 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -61,6 +61,7 @@ class VTKMeshDataReader {
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
         for (IndexType i = 0; i < data.size(); i++) {
+            value = traits.template getValue<Index>(data.at(i));
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 readValue(ist, value[j]);
             }
@@ -86,6 +87,7 @@ class VTKMeshDataReader {
         typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
 
         for (IndexType i = 0; i < data.size(); i++) {
+            value = traits.template getValue<Index>(data.at(i));
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 readValue(ist, value[j]);
                 // skip the third component of each row
-- 
2.43.0


From 8359fb8a2ffb9d41fdc6e399c1a8438d61fab3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 81/81] fix: 2D integer vectors and tensors could not be
 imported

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index fb046b7..fa427bd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -84,7 +84,8 @@ class VTKMeshDataReader {
 
         seekData(ist, dataPositions, traits.template getName<Index>());
 
-        typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
+        typename Traits<T, TraitsArgs...>::template type<Index> value;
+        double dummy; // the padding zeros are written as real numbers
 
         for (IndexType i = 0; i < data.size(); i++) {
             value = traits.template getValue<Index>(data.at(i));
@@ -92,13 +93,13 @@ class VTKMeshDataReader {
                 readValue(ist, value[j]);
                 // skip the third component of each row
                 if ((j + 1) % MeshDimension == 0) {
-                    readValue(ist, dummy[0]);
+                    readValue(ist, dummy);
                 }
             }
             // skip the third row of a tensor
             if (traits.template getValue<Index>(data.at(i)).size() == MeshDimension * MeshDimension) {
                 for (unsigned int j = 0; j < 3; j++) {
-                    readValue(ist, dummy[0]);
+                    readValue(ist, dummy);
                 }
             }
 
-- 
2.43.0

