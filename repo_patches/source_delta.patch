From 3d5794b9278a93a6f9ce9b66d522fcefb2ffe9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 01/54] fix: terminate the defaulted destructor of the generic
 VTKMeshReader

The missing semicolon made UnstructuredMesh.h fail to compile.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From 56d3f8002b6dab6f43742232922bf64af16739f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 02/54] fix: make ElementIndex default constructible and
 convertible when const

Connections and neighborhoods in original order, const getElement and the
FPMA writer (and with it every write of a 3D mesh to a path) did not compile.
---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp   | 4 +++-
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..2d19188 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -10,6 +10,8 @@ template<unsigned int ElementDimension, typename IndexType = unsigned int>
 struct ElementIndex {
     IndexType index;
 
+    ElementIndex(): index() {}
+
     ElementIndex(const ElementIndex&) = default;
     ElementIndex& operator=(const ElementIndex& rhs){
         index = rhs.index;
@@ -29,7 +31,7 @@ struct ElementIndex {
         return index == rhs.index;
     }
 
-    operator IndexType() {
+    operator IndexType() const {
         return index;
     }
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..4d0d174 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From 4701cc0a4e9a1e37d806505bf967d577a1dd2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 03/54] fix: clear the boundary cells together with the mesh

MeshElements::clear left them behind, so a mesh that was loaded again
carried the boundary cells of the previous mesh.
---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..e475ca9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From 126dea36adc9ae892ed790e32ef73017cba1e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 04/54] fix: report truncated, unreadable and unsupported mesh
 files

The mesh readers never looked at the state of the stream and skipped missing
sections, so an incomplete file was silently loaded as a different mesh. The
exception for an unsupported VTK cell type was created but not thrown.
---
 .../MeshIO/MeshReader/FPMAMeshReader.h        | 21 ++++--
 .../MeshIO/MeshReader/MeshReader.h            | 14 ++++
 .../MeshIO/MeshReader/VTKMeshReader.h         | 70 +++++++++++++------
 3 files changed, 76 insertions(+), 29 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..d62f448 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -36,8 +36,9 @@ public:
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
-        IndexType numVert;
+        IndexType numVert = 0;
         ist >> numVert;
+        reader::checkStream(ist, "vertices");
 
         mesh.getVertices().resize(numVert);
 
@@ -48,6 +49,7 @@ public:
             ist >> vert[0];
             ist >> vert[1];
             ist >> vert[2];
+            reader::checkStream(ist, "vertices");
         }
     }
 
@@ -57,21 +59,24 @@ public:
         // map of constructed edges
         std::unordered_map<std::string, IndexType> edges;
 
-        IndexType numFace;
+        IndexType numFace = 0;
         ist >> numFace;
+        reader::checkStream(ist, "faces");
 
         mesh.getFaces().resize(numFace);
 
         // read face verts
         for (IndexType faceIndex = 0; faceIndex < numFace; faceIndex++) {
             mesh.getFaces().at(faceIndex).setIndex(faceIndex);
-            IndexType numVert;
+            IndexType numVert = 0;
             ist >> numVert;
+            reader::checkStream(ist, "faces");
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
             }
+            reader::checkStream(ist, "faces");
 
 
             for(IndexType j = 0; j < numVert; j++){
@@ -112,8 +117,9 @@ public:
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadCells(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
-        IndexType numCells;
+        IndexType numCells = 0;
         ist >> numCells;
+        reader::checkStream(ist, "cells");
 
         mesh.getCells().resize(numCells);
         // read cells
@@ -121,14 +127,15 @@ public:
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
 
             // read cell faces
-            IndexType numFaces;
+            IndexType numFaces = 0;
             ist >> numFaces;
-
+            reader::checkStream(ist, "cells");
 
             IndexType prevFace = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numFaces; j++){
-                IndexType faceIndex;
+                IndexType faceIndex = 0;
                 ist >> faceIndex;
+                reader::checkStream(ist, "cells");
 
                 if (j == 0){
                     mesh.getCells().at(cellIndex).setBoundaryElementIndex(faceIndex);
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
index 2597ebd..a68314f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
@@ -2,6 +2,9 @@
 #define MESHREADER_H
 #include "../MeshNativeType.h"
 #include "../../MeshDataContainer/MeshDataContainer.h"
+#include <istream>
+#include <stdexcept>
+#include <string>
 
 /**
  * The base class of MeshReaders
@@ -19,6 +22,17 @@ public:
     getCellTypes() const = 0;
 
     virtual ~MeshReader() = default;
+
+protected:
+    /**
+     * @brief Throws an exception if the last reading from the stream failed,
+     * i.e. the file is not complete, is malformed or can not be read.
+     */
+    static void checkStream(const std::istream& ist, const char* section) {
+        if (!ist) {
+            throw std::runtime_error(std::string("unexpected end of file or reading error in section ") + section);
+        }
+    }
 };
 
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..49f82a2 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -58,8 +58,9 @@ public:
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
-        IndexType numPoints;
+        IndexType numPoints = 0;
         ist >> numPoints;
+        reader::checkStream(ist, "POINTS");
         Real dummy = 0;
         mesh.getVertices().resize(numPoints);
         ist.ignore(20, '\n');
@@ -68,6 +69,7 @@ public:
             ist >> mesh.getVertices().at(vertIndex)[0];
             ist >> mesh.getVertices().at(vertIndex)[1];
             ist >> dummy;
+            reader::checkStream(ist, "POINTS");
         }
     }
 
@@ -75,20 +77,23 @@ public:
     void loadCells(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
         std::unordered_map<std::string, IndexType> edges;
 
-        IndexType numCells;
+        IndexType numCells = 0;
         ist >> numCells;
+        reader::checkStream(ist, "CELLS");
         mesh.getCells().resize(numCells);
         // Skip the total number of numbers
         ist.ignore(50, '\n');
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
-            IndexType numVert;
+            IndexType numVert = 0;
             ist >> numVert;
+            reader::checkStream(ist, "CELLS");
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
             }
+            reader::checkStream(ist, "CELLS");
 
             IndexType prevEdge = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numVert; j++){
@@ -131,17 +136,22 @@ public:
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadCellTypes(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
-        IndexType numCells;
+        IndexType numCells = 0;
         ist >> numCells;
+        reader::checkStream(ist, "CELL_TYPES");
+        if (numCells != mesh.getCells().size()) {
+            throw std::runtime_error("the number of cell types does not match the number of cells");
+        }
         cellTypes.allocateData(mesh);
         for (IndexType i = 0; i < numCells; i++) {
             int vtkType = 0;
             ist >> vtkType;
+            reader::checkStream(ist, "CELL_TYPES");
             typename std::map<int, typename reader::elementType::ElementType>::iterator typeIt = TypeConversionTable.find(vtkType);
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
@@ -174,19 +184,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (!ist || buf != "POINTS") {
+            throw std::runtime_error("the section POINTS expected");
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (!ist || buf != "CELLS") {
+            throw std::runtime_error("the section CELLS expected");
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (!ist || buf != "CELL_TYPES") {
+            throw std::runtime_error("the section CELL_TYPES expected");
         }
+        loadCellTypes(ist, mesh);
 
     }
 
@@ -301,8 +314,9 @@ public:
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist, MeshElements<3, IndexType, Real, Reserve...>& mesh){
-        IndexType numPoints;
+        IndexType numPoints = 0;
         ist >> numPoints;
+        reader::checkStream(ist, "POINTS");
         mesh.getVertices().resize(numPoints);
         ist.ignore(20, '\n');
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
@@ -310,6 +324,7 @@ public:
             ist >> mesh.getVertices().at(vertIndex)[0];
             ist >> mesh.getVertices().at(vertIndex)[1];
             ist >> mesh.getVertices().at(vertIndex)[2];
+            reader::checkStream(ist, "POINTS");
         }
     }
 
@@ -319,20 +334,23 @@ public:
         std::unordered_map<std::string, IndexType> edges;
         std::unordered_map<std::string, IndexType> faces;
 
-        IndexType numCells;
+        IndexType numCells = 0;
         ist >> numCells;
+        reader::checkStream(ist, "CELLS");
         mesh.getCells().resize(numCells);
         // Skip the total number of numbers
         ist.ignore(50, '\n');
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
-            IndexType numVert;
+            IndexType numVert = 0;
             ist >> numVert;
+            reader::checkStream(ist, "CELLS");
             // load vertices of the cell
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
             }
+            reader::checkStream(ist, "CELLS");
 
             // construct an element
             // obtain constructing order of edges and faces
@@ -410,17 +428,22 @@ public:
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadCellTypes(std::istream& ist, MeshElements<3, IndexType, Real, Reserve...>& mesh){
-        IndexType numCells;
+        IndexType numCells = 0;
         ist >> numCells;
+        reader::checkStream(ist, "CELL_TYPES");
+        if (numCells != mesh.getCells().size()) {
+            throw std::runtime_error("the number of cell types does not match the number of cells");
+        }
         cellTypes.allocateData(mesh);
         for (IndexType i = 0; i < numCells; i++) {
             int vtkType = 0;
             ist >> vtkType;
+            reader::checkStream(ist, "CELL_TYPES");
             typename std::map<int, typename reader::elementType::ElementType>::iterator typeIt = TypeConversionTable.find(vtkType);
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
@@ -453,19 +476,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (!ist || buf != "POINTS") {
+            throw std::runtime_error("the section POINTS expected");
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (!ist || buf != "CELLS") {
+            throw std::runtime_error("the section CELLS expected");
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (!ist || buf != "CELL_TYPES") {
+            throw std::runtime_error("the section CELL_TYPES expected");
         }
+        loadCellTypes(ist, mesh);
 
         mesh.updateSignature();
     }
-- 
2.43.0


From 9cbcad20678a82e49195af5c050d1f739ec80bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 05/54] fix: clear the mesh before loading an FPMA file

Loading into a used mesh kept its edges and the subelements of its faces.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index d62f448..73dad93 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -163,6 +163,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From 24363eaf6aed6d51eaf52387a4c5ac48c5d4cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 06/54] fix: update the signature of a 2D mesh loaded from VTK

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 49f82a2..2bde4fc 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -201,6 +201,7 @@ public:
         }
         loadCellTypes(ist, mesh);
 
+        mesh.updateSignature();
     }
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
-- 
2.43.0


From 05d0d1a7ff35fec84a40ee374e323c69dd44988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 07/54] fix: do not leak the mesh reader when loading throws

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..6d2bfe1 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -251,16 +251,16 @@ public:
 
         if (filePath.find(".vtk") != filePath.npos){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         if (filePath.find(".fpma") != filePath.npos){
             DBGMSG("file recognized as FPMA");
-            auto reader = new FPMAMeshReader<MeshDimension>();
+            auto reader = std::make_unique<FPMAMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
@@ -286,9 +286,9 @@ public:
 
         if (filePath.find(".vtk") != filePath.npos){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
-- 
2.43.0


From d25a78a2e40394c74e5c29a7e985104ec98ef7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/54] fix: reindex a mesh after a failed export and after a
 change of cell types

The writers kept the hash of the previous mesh while their index was already
partially rebuilt, took an uninitialised hash for a valid one and ignored
that the division of cells depends on their types.
---
 .../MeshIO/MeshWriter/FPMAMeshWriter.h        | 12 ++++++--
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 30 +++++++++++++++----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 4d0d174..36c8bde 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,11 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
+    /**
+     * @brief True if the index of the mesh with lastHash is complete.
+     */
+    bool indexed = false;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
@@ -125,10 +129,12 @@ public:
 
         // if the mesh is not the same as it was,
         // then update the index
-        if (lastHash != curHash){
+        if (!indexed || lastHash != curHash){
+            indexed = false;
             indexMesh(mesh);
+            lastHash = curHash;
+            indexed = true;
         }
-        lastHash = curHash;
 
         // first write verices
         ost << mesh.getVertices().size() << std::endl;
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..f024634 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,11 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
+    /**
+     * @brief True if the index of the mesh with lastHash is complete.
+     */
+    bool indexed = false;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
@@ -139,10 +143,12 @@ public:
 
         size_t curHash = writer::computeHash(mesh);
         // if the mesh is the same as it was, return
-        if (lastHash != curHash){
+        if (!indexed || lastHash != curHash){
+            indexed = false;
             indexMesh(mesh);
+            lastHash = curHash;
+            indexed = true;
         }
-        lastHash = curHash;
 
         // first write verices
         ost << "POINTS " << mesh.getVertices().size() <<
@@ -202,6 +208,14 @@ public:
      * The hash of the last written mesh.
      */
     size_t lastHash = 0;
+    /**
+     * @brief True if the index of the mesh with lastHash is complete.
+     */
+    bool indexed = false;
+    /**
+     * @brief The cell types which the index was created for.
+     */
+    MeshDataContainer<typename writer::elementType::ElementType, 3> indexedCellTypes;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
@@ -587,11 +601,15 @@ DBGMSG("indexing mesh");
         size_t curHash = writer::computeHash(mesh);
         // if the mesh is not the same as it was,
         // then update the index
-        if (lastHash != curHash){
+        // the division of the cells depends on the cell types as well
+        if (!indexed || lastHash != curHash ||
+            indexedCellTypes.template getDataByPos<0>() != cellTypes.template getDataByPos<0>()){
+            indexed = false;
             indexMesh(mesh, cellTypes);
+            indexedCellTypes = cellTypes;
+            lastHash = curHash;
+            indexed = true;
         }
-        lastHash = curHash;
-
 
         // first write verices
         ost << "POINTS " << mesh.getVertices().size() + appendedVertices.size() <<
-- 
2.43.0


From 1015bfdea5c9250dee1b1c79c0bb8e141eec73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 09/54] fix: report files that could not be written or read
 completely

UnstructuredMesh::write and BinarySerializer::saveToFile returned normally
when the disk was full, BinarySerializer::loadFromFile ignored a missing file
and short reads and kept a stale read position.
---
 .../BinarySerializer/BinarySerializer.h       | 20 ++++++++++++++++---
 .../UnstructuredMesh/UnstructuredMesh.h       |  6 ++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..16fb9cc 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -3,6 +3,8 @@
 #include <vector>
 #include <cstdint>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 // TODO možná změnit jméno
 /**
@@ -114,6 +116,9 @@ public:
         if (file) {
             file.write(reinterpret_cast<char *>(mData.data()), mData.size());
             file.close();
+            if (!file) {
+                throw std::runtime_error("unable to write file " + fileName);
+            }
         } else {
             throw std::runtime_error("unable to open file " + fileName);
         }
@@ -125,9 +130,18 @@ public:
             file.seekg(0, std::ios::end);
             auto file_size = file.tellg();
             file.seekg(0, std::ios::beg);
-            mData.resize(file_size);
-            file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
-            file.close();
+            if (!file || file_size < 0) {
+                throw std::runtime_error("unable to read file " + fileName);
+            }
+            ByteContainer data(file_size);
+            file.read(reinterpret_cast<std::ios::char_type*>(data.data()), file_size);
+            if (!file) {
+                throw std::runtime_error("unable to read file " + fileName);
+            }
+            mData.swap(data);
+            resetIterator();
+        } else {
+            throw std::runtime_error("unable to open file " + fileName);
         }
     }
 
diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 6d2bfe1..6c069b3 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -438,6 +438,9 @@ public:
                 }
             }
             file.close();
+            if (!file) {
+                throw std::runtime_error("was not able to write the whole mesh into file: \"" + filePath + "\"");
+            }
         }
     }
 
@@ -505,6 +508,9 @@ public:
             }
 
             file.close();
+            if (!file) {
+                throw std::runtime_error("was not able to write the whole mesh into file: \"" + filePath + "\"");
+            }
         }
 
     }
-- 
2.43.0


From a3f015aa4b13b20e1b686cb6392215ff40a0962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 10/54] fix: keep the read position of BinarySerializer valid
 when data are written

The stored iterator dangled after a write that reallocated the buffer, so an
interleaved reader restarted from the first record or read freed memory, and
a copied serializer read the buffer of the original.
---
 .../BinarySerializer/BinarySerializer.h       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 16fb9cc..16553a1 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -67,13 +67,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        ByteContainerIterator dataIterator = mData.cbegin() + mReadPosition;
+        readNext(dataIterator, data);
+        mReadPosition = dataIterator - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -83,11 +86,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mReadPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mReadPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -103,7 +106,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        mReadPosition = 0;
     }
 
     const ByteContainer& getData() {
@@ -147,7 +150,9 @@ public:
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    /// Position of the next read. An iterator would be invalidated by writing
+    /// and would refer to the data of the original in a copy.
+    ByteContainer::size_type mReadPosition = 0;
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From e7deec699fd4e7359d2bb8fd8ee0d36114b5c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 11/54] fix: remove the partial record when
 BinarySerializer::write throws

The bytes already appended stayed in front of all the following records.
---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 16553a1..5b38577 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -49,7 +49,14 @@ public:
 
     template<typename T>
     void write(const T& data) {
-        addNext(mData, data);
+        const ByteContainer::size_type size = mData.size();
+        try {
+            addNext(mData, data);
+        } catch (...) {
+            // do not leave a part of the record behind
+            mData.resize(size);
+            throw;
+        }
     }
 
     template <typename T>
-- 
2.43.0


From ae24789ed846f4e33a645964e971e7503787a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 12/54] fix: replace the content of a map or set when it is
 deserialized

The stored elements were merged into the previous content, which even won
over the stored value of an equal key.
---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..0894c81 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From 6c79654bd9d7b2d2bc610df6667197b317e4857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 13/54] fix: let the JSON and HTML loggers be closed and
 reopened

An explicit destroy was followed by a second delete of the same stream,
create on an open log left the previous document without its end, and a
backslash among the first two characters of a file name was not escaped.
---
 src/GTMesh/Debug/HTMLLogger.h | 6 ++----
 src/GTMesh/Debug/JSONLogger.h | 9 ++++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..6536713 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -43,10 +43,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         logFile = new std::ofstream(fileName);
 
 
@@ -58,6 +55,7 @@ public:
             writeEndScritpt();
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..8e3eba3 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -41,10 +41,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
         (*logFile) << "{\n\"logs\":[\n";
@@ -57,6 +54,7 @@ public:
 
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
@@ -152,8 +150,9 @@ public:
     std::string doubleBackSlash(const char * str){
         std::string res = str;
         size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
+        while((pos = res.find("\\", pos)) != res.npos){
             res.replace(pos, 1, "\\\\");
+            pos += 2;
         }
         return res;
     }
-- 
2.43.0


From e14f2b97157212527653f4bf9ee8ba5ea43e6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 14/54] fix: print unsigned numbers by printf without a
 trailing d

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..b3c0644 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -42,7 +42,7 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
     }
 
 
-- 
2.43.0


From bb2f106e40321212d9574009a52a304db49fe755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 15/54] fix: synchronize the creation of the singleton instance

Two threads accessing the singleton for the first time could create two
instances, one of which was destroyed under the other thread.
---
 src/GTMesh/Singleton/Singleton.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Singleton/Singleton.h b/src/GTMesh/Singleton/Singleton.h
index aa6e585..5ad3b23 100644
--- a/src/GTMesh/Singleton/Singleton.h
+++ b/src/GTMesh/Singleton/Singleton.h
@@ -12,10 +12,9 @@ class Singleton {
     //static_assert (std::is_trivially_constructible<Class>::value, "The class in singleton must be trivially constructible.");
 public:
     static Class& getInstance(){
-        if (p == nullptr) {
-            p = std::unique_ptr<Class>(new Class); // the class must be trivially constructible
-        }
-        return *p;
+        // the initialization of a local static variable is synchronized
+        static Class& instance = *(p = std::unique_ptr<Class>(new Class)); // the class must be trivially constructible
+        return instance;
     }
 protected:
     static std::unique_ptr<Class> p;
-- 
2.43.0


From 12526d75c2eb844cdfa249ee9cfc267581f83f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 16/54] fix: report missing and incomplete columns of VTK data

A column that is not in the file was read from the beginning of the file, the
state of the stream was never checked and a title mentioning a keyword was
taken for the header of a column.
---
 .../MeshDataIO/VTKMeshDataReader.h            | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..7afdb02 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -8,12 +8,38 @@
 #include <istream>
 #include <map>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 template <unsigned int MeshDimension, typename IndexType>
 class VTKMeshDataReader {
 
     static_assert (MeshDimension == 2 || MeshDimension == 3, "The VTK file format can represent data only in 2D or 3D");
 
+    /**
+     * @brief Moves the stream to the beginning of the column with the given name.
+     */
+    static void seekColumn(std::istream& ist,
+                           const std::map<std::string, std::istream::pos_type>& dataPositions,
+                           const std::string& name)
+    {
+        auto position = dataPositions.find(name);
+        if (position == dataPositions.end()) {
+            throw std::runtime_error("the file does not contain the data \"" + name + "\"");
+        }
+        ist.seekg(position->second);
+    }
+
+    /**
+     * @brief Throws an exception if the last value of the column was not read.
+     */
+    static void checkColumn(const std::istream& ist, const char* name)
+    {
+        if (!ist) {
+            throw std::runtime_error("unexpected end of file or reading error in the data \"" + std::string(name) + "\"");
+        }
+    }
+
     /**
      * @brief readColumn
      * reads a single column of traited data
@@ -28,7 +54,7 @@ class VTKMeshDataReader {
                    const Traits<T, TraitsArgs...>& traits)
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekColumn(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
@@ -36,6 +62,7 @@ class VTKMeshDataReader {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 ist >> value[j];
             }
+            checkColumn(ist, traits.template getName<Index>());
             traits.template setValue<Index>(data.at(i), value);
         }
 
@@ -53,7 +80,7 @@ class VTKMeshDataReader {
             >::type
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekColumn(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
 
@@ -63,6 +90,7 @@ class VTKMeshDataReader {
             }
 
             ist >> dummy[0];
+            checkColumn(ist, traits.template getName<Index>());
 
             traits.template setValue<Index>(data.at(i), value);
         }
@@ -81,12 +109,13 @@ class VTKMeshDataReader {
     {
 
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekColumn(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
         for (IndexType i = 0; i < data.size(); i++){
             ist >> value;
+            checkColumn(ist, traits.template getName<Index>());
             traits.template setValue<Index>(data.at(i), value);
         }
 
@@ -123,9 +152,10 @@ public:
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
-            int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
-                                                                                              : 0 );
+            // the keyword is the first word of the line
+            int flag = (line.compare(0, 8, "SCALARS ") == 0 ? 1
+                                                            : line.compare(0, 8, "VECTORS ") == 0 ? 2
+                                                                                                  : 0 );
             if (flag != 0){
                 std::string dataName;
                 std::stringstream sstream(line);
-- 
2.43.0


From be15725a33a65d5c55bb0048a8be9c38b174ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 17/54] fix: write the VTK keyword TENSORS and find it when
 reading

The misspelled keyword made nine component data unreadable.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 3 ++-
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 7afdb02..5a26c74 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -154,7 +154,8 @@ public:
 
             // the keyword is the first word of the line
             int flag = (line.compare(0, 8, "SCALARS ") == 0 ? 1
-                                                            : line.compare(0, 8, "VECTORS ") == 0 ? 2
+                                                            : line.compare(0, 8, "VECTORS ") == 0 ||
+                                                              line.compare(0, 8, "TENSORS ") == 0 ? 2
                                                                                                   : 0 );
             if (flag != 0){
                 std::string dataName;
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..0b6cacd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -55,7 +55,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
@@ -149,7 +149,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
-- 
2.43.0


From 26cd18abab58db0e5d48ebe21c4cefdcb2050e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 18/54] fix: do not dereference the end iterator when coloring
 an empty mesh randomly

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..dd02e87 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -126,6 +126,11 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         // calculating the reserve
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
+        // there is nothing to be recolored in an empty mesh
+        if (result.template getDataByPos<0>().empty()) {
+            return result;
+        }
+
         // get maximal color index
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
-- 
2.43.0


From 8b34bc0690ac3a167dc59c092821ecf991918c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 19/54] fix: detect changes of faces with dynamic subelements
 in the mesh signature

The xor of the edge indexes ignored the order of faces and edges, the adjacent
cells and the centers, so a reused writer exported the previous mesh.
---
 .../MeshElements/MeshElements.h               | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index e475ca9..dfaca86 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -198,6 +198,32 @@ public:
      */
 private:
 
+    /**
+     * @brief Combines hashes in such a way that their order is significant.
+     */
+    static void combineHash(size_t& seed, size_t value) {
+        seed ^= value + static_cast<size_t>(0x9e3779b97f4a7c15ULL) + (seed << 6) + (seed >> 2);
+    }
+
+    /**
+     * @brief Hash of the data that only the faces have.
+     */
+    static size_t hashFaceData(const Face& face) {
+        size_t hash = std::hash<IndexType>()(face.getCellLeftIndex());
+        combineHash(hash, std::hash<IndexType>()(face.getCellRightIndex()));
+        combineHash(hash, std::hash<IndexType>()(face.getNextBElemWRTCL()));
+        combineHash(hash, std::hash<IndexType>()(face.getNextBElemWRTCR()));
+        for (unsigned int i = 0; i < Dimension; i++) {
+            combineHash(hash, std::hash<Real>()(face.getCenter()[i]));
+        }
+        return hash;
+    }
+
+    template<typename ElementT>
+    static size_t hashFaceData(const ElementT&) {
+        return 0;
+    }
+
     template<unsigned int Dim = Dimension, typename Void = void>
     struct HashOfMeshElements{
 
@@ -209,9 +235,12 @@ private:
             // Hash of generic element eg. face
             size_t elemHash = mesh.getElements<Dim>().size();
             for(auto& element : mesh.getElements<Dim>()) {
+                combineHash(elemHash, indexHasher(element.getIndex()));
+                combineHash(elemHash, element.getSubelements().size());
                 for (auto& subElement : element.getSubelements()) {
-                    elemHash ^= indexHasher(subElement);
+                    combineHash(elemHash, indexHasher(subElement));
                 }
+                combineHash(elemHash, hashFaceData(element));
             }
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
-- 
2.43.0


From ccc4aca1ab4ae45995ebe1311dbc322ab70c56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 20/54] fix: VTKMeshDataReader in 2D selects the column reader
 by the traits in use, not by the default ones

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 5a26c74..925a30b 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -75,7 +75,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
-- 
2.43.0


From 67f8505182fa9d3ebf5ebb8805fb1ba58ea1ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 21/54] fix: do not access the first element of an empty
 compact container

---
 src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
index dfd96cd..a7590dd 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
@@ -37,9 +37,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return val.size() == 0 ? nullptr : &val[0]; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return val.size() == 0 ? nullptr : &val[0]; }
 };
 
 /**
@@ -67,9 +67,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return val.getSize() == 0 ? nullptr : &val[0]; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return val.getSize() == 0 ? nullptr : &val[0]; }
 };
 }
 
-- 
2.43.0


From 6e0f63db3ab29a77dd53bcb2fed136dd441fc938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 22/54] fix: restore the format of the stream after printing an
 undescribed type

---
 src/GTMesh/Debug/Printers/PrintAny.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index 25be8e9..7f020f8 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -7,6 +7,8 @@ struct PrintAny {
     template <typename T>
     static void print(std::ostream& ost, const T& var, ...) {
         ost << typeid (T).name() << "(";
+        const std::ios_base::fmtflags flags = ost.flags();
+        const char fill = ost.fill();
         ost << std::hex;
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
             ost << std::setfill('0') << std::setw(2) << ((int)(*byte) & 0xff);
@@ -14,7 +16,8 @@ struct PrintAny {
                 ost << ' ';
             }
         }
-        ost << std::dec;
+        ost.flags(flags);
+        ost.fill(fill);
         ost << ")";
     }
 
-- 
2.43.0


From 9a117965a1a48bddd062413ad17d34f1edea9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 23/54] fix: VTKMeshWriter merged the centers of different
 faces and cells of small meshes

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index f024634..c8cab31 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -435,7 +435,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the centers of faces among the exported vertices
+        std::map<IndexType, IndexType> faceCenterPos;
 
 
 
@@ -526,18 +527,8 @@ DBGMSG("indexing mesh");
                 //throw std::runtime_error("it is not possible yet to write generic object into VTK");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
-                IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
-                auto it = appendedVertPos.find(cellCenterKey);
-                if (it == appendedVertPos.end()) {
-                    appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
-                    cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                    appendedVertices.push_back(cell.getCenter());
-                } else {
-                    cellCenterIndex = it->second;
-                }
+                IndexType cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
+                appendedVertices.push_back(cell.getCenter());
 
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
@@ -548,14 +539,11 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
-                        auto it = appendedVertPos.find(faceCenterKey);
-                        if (it == appendedVertPos.end()) {
+                        auto it = faceCenterPos.find(tmpFace);
+                        if (it == faceCenterPos.end()) {
                             faceCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                            appendedVertPos[faceCenterKey] = faceCenterIndex;
+                            faceCenterPos[tmpFace] = faceCenterIndex;
                             appendedVertices.push_back(face.getCenter());
                         } else {
                             faceCenterIndex = it->second;
-- 
2.43.0


From 7754016c540e2cfef1ead4653a5308a16a571d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 24/54] fix: setupBoundaryCells keeps the mesh consistent when
 memory runs out

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index dfaca86..18b44d3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -171,13 +171,13 @@ public:
         for (Face& face : getFaces()){
             if (isInvalidIndex(face.getCellLeftIndex())){
                 IndexType cellIndex = BoundaryCells.size() | BOUNDARY_INDEX(IndexType);
-                face.setCellLeftIndex(cellIndex);
                 appendBoundaryCell(cellIndex, face.getIndex());
+                face.setCellLeftIndex(cellIndex);
             }
             if (isInvalidIndex(face.getCellRightIndex())){
                 IndexType cellIndex = BoundaryCells.size() | BOUNDARY_INDEX(IndexType);
-                face.setCellRightIndex(cellIndex);
                 appendBoundaryCell(cellIndex, face.getIndex());
+                face.setCellRightIndex(cellIndex);
             }
         }
         BoundaryCells.shrink_to_fit();
-- 
2.43.0


From 98d47308352f8a2de72983dc22bde54b5b334204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 25/54] fix: mesh readers reject indexes out of range, empty
 cells and faces of more than two cells

---
 .../MeshIO/MeshReader/FPMAMeshReader.h        | 11 ++++++++-
 .../MeshIO/MeshReader/MeshReader.h            | 23 +++++++++++++++++++
 .../MeshIO/MeshReader/VTKMeshReader.h         | 16 ++++++++++---
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 73dad93..b46885b 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -75,8 +75,9 @@ public:
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
+                reader::checkStream(ist, "faces");
+                reader::checkIndex(vertices.at(j), mesh.getVertices().size(), "faces");
             }
-            reader::checkStream(ist, "faces");
 
 
             for(IndexType j = 0; j < numVert; j++){
@@ -130,12 +131,20 @@ public:
             IndexType numFaces = 0;
             ist >> numFaces;
             reader::checkStream(ist, "cells");
+            if (numFaces == 0) {
+                throw std::runtime_error("the cell " + std::to_string(cellIndex) + " has no faces");
+            }
 
             IndexType prevFace = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numFaces; j++){
                 IndexType faceIndex = 0;
                 ist >> faceIndex;
                 reader::checkStream(ist, "cells");
+                reader::checkIndex(faceIndex, mesh.getFaces().size(), "cells");
+                if (faceIndex == prevFace) {
+                    throw std::runtime_error("the face " + std::to_string(faceIndex) + " is repeated in the cell " + std::to_string(cellIndex));
+                }
+                reader::checkBoundaryElement(mesh.getFaces().at(faceIndex), cellIndex);
 
                 if (j == 0){
                     mesh.getCells().at(cellIndex).setBoundaryElementIndex(faceIndex);
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
index a68314f..5ca3f28 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
@@ -33,6 +33,29 @@ protected:
             throw std::runtime_error(std::string("unexpected end of file or reading error in section ") + section);
         }
     }
+
+    /**
+     * @brief Throws an exception if the file refers to an element which does not exist.
+     */
+    static void checkIndex(std::size_t index, std::size_t count, const char* section) {
+        if (index >= count) {
+            throw std::runtime_error("index " + std::to_string(index) + " out of range (" +
+                                     std::to_string(count) + ") in section " + section);
+        }
+    }
+
+    /**
+     * @brief Throws an exception if the element can not be added to the boundary of the cell, i.e. it
+     * already is a part of the boundary of the cell or of the boundaries of two other cells.
+     */
+    template<typename BElement, typename IndexType>
+    static void checkBoundaryElement(const BElement& element, IndexType cellIndex) {
+        if (element.getCellLeftIndex() == cellIndex || element.getCellRightIndex() == cellIndex ||
+            element.cellsOK()) {
+            throw std::runtime_error("the boundary element " + std::to_string(element.getIndex()) +
+                                     " can not belong to the cell " + std::to_string(cellIndex));
+        }
+    }
 };
 
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 2bde4fc..3c27a8a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -88,12 +88,16 @@ public:
             IndexType numVert = 0;
             ist >> numVert;
             reader::checkStream(ist, "CELLS");
+            if (numVert == 0) {
+                throw std::runtime_error("the cell " + std::to_string(cellIndex) + " has no vertices");
+            }
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
+                reader::checkStream(ist, "CELLS");
+                reader::checkIndex(vertices.at(j), mesh.getVertices().size(), "CELLS");
             }
-            reader::checkStream(ist, "CELLS");
 
             IndexType prevEdge = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numVert; j++){
@@ -115,7 +119,11 @@ public:
                     edges[edgeKey] = edgeIndex;
                 } else {
                     edgeIndex = edgeIt->second;
-                    mesh.getEdges().at(edgeIt->second).setCellRightIndex(cellIndex);
+                    // the boundary of a line consists of a single edge
+                    if (numVert != 2 || j == 0) {
+                        reader::checkBoundaryElement(mesh.getEdges().at(edgeIndex), cellIndex);
+                        mesh.getEdges().at(edgeIndex).setCellRightIndex(cellIndex);
+                    }
                 }
 
                 if (prevEdge != INVALID_INDEX(IndexType)){
@@ -350,8 +358,9 @@ public:
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
+                reader::checkStream(ist, "CELLS");
+                reader::checkIndex(vertices.at(j), mesh.getVertices().size(), "CELLS");
             }
-            reader::checkStream(ist, "CELLS");
 
             // construct an element
             // obtain constructing order of edges and faces
@@ -409,6 +418,7 @@ public:
                     mesh.getFaces().at(faceIndex).setIndex(faceIndex);
                 } else {
                     faceIndex = faceIt->second;
+                    reader::checkBoundaryElement(mesh.getFaces().at(faceIndex), cellIndex);
                     mesh.getFaces().at(faceIndex).setCellRightIndex(cellIndex);
                 }
 
-- 
2.43.0


From a752db699877aa2829ee178030060d2edf80639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 26/54] fix: the signature of a mesh is initialised

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 18b44d3..16908f0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -62,7 +62,7 @@ private:
      * @brief Hash signature of the mash elements.
      * Use to detect changes in mesh.
      */
-    size_t meshSignature;
+    size_t meshSignature = 0;
 
 
 public:
-- 
2.43.0


From a67811004334f888b83997c8c147a2eac4a126d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 27/54] fix: the signature of a mesh depends on the data of its
 elements only

---
 .../MeshElements/MeshElement.h                |   2 +-
 .../MeshElements/MeshElements.h               | 110 +++++++-----------
 2 files changed, 44 insertions(+), 68 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..df78d0a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -246,7 +246,7 @@ class MeshElement<MeshDim, MeshDim, IndexType, Real, Reserve>
         : public MeshElementBase<IndexType>,
           public ComputationallySignificantElement<MeshDim, Real>{
 
-    IndexType boundaryElementIndex;
+    IndexType boundaryElementIndex = INVALID_INDEX(IndexType);
 public:
 //GetBoundaryElement
     MeshElement(IndexType index = INVALID_INDEX(IndexType))
diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 16908f0..308932c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -3,6 +3,8 @@
 
 #include "MeshElement.h"
 #include "ElementIndex.hpp"
+#include <cmath>
+#include <functional>
 
 template <unsigned int Dimension, typename IndexType, typename Real, unsigned int ...Reserve>
 struct MeshElements{
@@ -205,6 +207,20 @@ private:
         seed ^= value + static_cast<size_t>(0x9e3779b97f4a7c15ULL) + (seed << 6) + (seed >> 2);
     }
 
+    template<typename T>
+    static void combineNumber(size_t& seed, const T& number) {
+        combineHash(seed, std::hash<T>()(number));
+        // zeros of both signs have the same hash
+        combineHash(seed, std::signbit(static_cast<double>(number)));
+    }
+
+    template<typename VertexT>
+    static void combineVertex(size_t& seed, const VertexT& vertex) {
+        for (unsigned int i = 0; i < Dimension; i++) {
+            combineNumber(seed, vertex[i]);
+        }
+    }
+
     /**
      * @brief Hash of the data that only the faces have.
      */
@@ -213,9 +229,8 @@ private:
         combineHash(hash, std::hash<IndexType>()(face.getCellRightIndex()));
         combineHash(hash, std::hash<IndexType>()(face.getNextBElemWRTCL()));
         combineHash(hash, std::hash<IndexType>()(face.getNextBElemWRTCR()));
-        for (unsigned int i = 0; i < Dimension; i++) {
-            combineHash(hash, std::hash<Real>()(face.getCenter()[i]));
-        }
+        combineVertex(hash, face.getCenter());
+        combineHash(hash, std::hash<int>()(face.getFlag()));
         return hash;
     }
 
@@ -242,31 +257,13 @@ private:
                 }
                 combineHash(elemHash, hashFaceData(element));
             }
-            return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
+            combineHash(elemHash, HashOfMeshElements<Dim - 1>::hash(mesh));
+            return elemHash;
         }
 
 
     };
 
-    template<unsigned int Dim>
-    struct HashOfMeshElements <Dim, typename std::enable_if<(MeshElements<Dimension, IndexType, Real, Reserve...>::template reserve<Dim>() > 0), size_t>::type>{
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
-        {
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.template getElements<Dim>().data()), mesh.template getElements<Dim>().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::ElementType<Dim>));
-            size_t elemHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.template getElements<Dim>().data()), mesh.template getElements<Dim>().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::ElementType<Dim>));
-            size_t elemHash = hasher(vectorView);
-#endif
-            return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
-        }
-    };
-
 
     /**
      * @brief The hashOfMeshElements<Dimension, Dummy> struct hashes the cell information.
@@ -276,21 +273,15 @@ private:
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
 
             // Hash of cells
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getCells().data()), mesh.getCells().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Cell));
-
-            size_t cHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.getCells().data()), mesh.getCells().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Cell));
-
-            size_t cHash = hasher(vectorView);
-#endif
-
-            return cHash ^ HashOfMeshElements<Dimension -1>::hash(mesh);
+            size_t cHash = mesh.getCells().size();
+            for (auto& cell : mesh.getCells()) {
+                combineHash(cHash, std::hash<IndexType>()(cell.getIndex()));
+                combineHash(cHash, std::hash<IndexType>()(cell.getBoundaryElementIndex()));
+                combineVertex(cHash, cell.getCenter());
+                combineHash(cHash, std::hash<int>()(cell.getFlag()));
+            }
+            combineHash(cHash, HashOfMeshElements<Dimension - 1>::hash(mesh));
+            return cHash;
         }
     };
 
@@ -299,20 +290,15 @@ private:
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
 
             // Hash of edges
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getEdges().data()), mesh.getEdges().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Edge));
-
-            size_t eHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.getEdges().data()), mesh.getEdges().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Edge));
-
-            size_t eHash = hasher(vectorView);
-#endif
-            return eHash ^ HashOfMeshElements<0>::hash(mesh);
+            size_t eHash = mesh.getEdges().size();
+            for (auto& edge : mesh.getEdges()) {
+                combineHash(eHash, std::hash<IndexType>()(edge.getIndex()));
+                combineHash(eHash, std::hash<IndexType>()(edge.getVertexAIndex()));
+                combineHash(eHash, std::hash<IndexType>()(edge.getVertexBIndex()));
+                combineHash(eHash, hashFaceData(edge));
+            }
+            combineHash(eHash, HashOfMeshElements<0>::hash(mesh));
+            return eHash;
         }
     };
 
@@ -322,21 +308,11 @@ private:
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
 
             // Hash of vertices
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getVertices().data()), mesh.getVertices().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Vertex));
-
-            size_t vHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-
-            // Use string as a byte container representing the array
-            std::string_view tmpString(reinterpret_cast<char*>(mesh.getVertices().data()), mesh.getVertices().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Vertex));
-
-            size_t vHash = hasher(tmpString);
-#endif
+            size_t vHash = mesh.getVertices().size();
+            for (auto& vertex : mesh.getVertices()) {
+                combineHash(vHash, std::hash<IndexType>()(vertex.getIndex()));
+                combineVertex(vHash, vertex);
+            }
             return vHash;
         }
     };
-- 
2.43.0


From 7328b92ba86e9c2c2461a321327b2654021c70d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 28/54] fix: allocating a data container like another one did
 not compile

---
 .../MeshDataContainer/MeshDataContainer.h                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..d783e7e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -531,9 +531,9 @@ private:
         allocateMemory<pos + 1>(mesh, values...);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
-- 
2.43.0


From 6ce096aecb1e7d46ba41c1b21694986fa401e2c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 29/54] fix: a data container of a tuple could not be indexed
 by position

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h  | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index d783e7e..800ed9e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -619,8 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
-    operator[](std::integer_sequence<unsigned int, Pos>) {
+    DataContainerType<Pos>& operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
 
@@ -635,8 +634,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
-    operator[](std::integer_sequence<unsigned int, Pos>) const {
+    const DataContainerType<Pos>& operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
 
-- 
2.43.0


From a945f0e3a9ec36c081832c64d37f2f4789c5a694 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 30/54] fix: the tessellated computation of measures was never
 used

---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..058627c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const auto& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From e936064f272ff07d2bcceb5b23958a72a8044eec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 31/54] fix: the centre difference over a face without a left
 cell had the opposite direction

---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From 9d08d0dfd57c88a3161105daf1a08d762a780862 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 32/54] fix: cells exported to VTK were turned inside out

---
 .../UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index c8cab31..f95556b 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -256,7 +256,8 @@ public:
 
         IndexType startVertex = INVALID_INDEX(IndexType);
         IndexType nextVertex = INVALID_INDEX(IndexType);
-        if (faceEdgeOri[face][0] == true && cell.getIndex() == face.getCellLeftIndex()){ // the edge is left to the face
+        // the base goes around counter-clockwise seen from the inside of the cell
+        if (faceEdgeOri[face][0] == (cell.getIndex() == face.getCellLeftIndex())){
             startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
             nextVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexAIndex();
         } else {
@@ -533,12 +534,15 @@ DBGMSG("indexing mesh");
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
 
-                    for (auto& sube : face.getSubelements()){
-                        auto& edge = mesh.getEdges().at(sube);
+                    for (IndexType i = 0; i < face.getSubelements().getNumberOfSubElements(); i++){
+                        auto& edge = mesh.getEdges().at(face.getSubelements()[i]);
                         vertWrit.clear();
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
+                        if (faceEdgeOri[face][i] == (cell.getIndex() == face.getCellLeftIndex())) {
+                            std::swap(vertWrit[0], vertWrit[1]);
+                        }
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
                         auto it = faceCenterPos.find(tmpFace);
                         if (it == faceCenterPos.end()) {
-- 
2.43.0


From ee0e43dc032c717cc65409e975dacea7de1b34d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 33/54] fix: an FPMA file in a directory with .vtk in its name
 was loaded as VTK

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 6c069b3..c18f85e 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -249,14 +249,19 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        // the last one counts, the names of directories may contain the other one
+        const auto vtkPos = filePath.rfind(".vtk");
+        const auto fpmaPos = filePath.rfind(".fpma");
+        const bool isFPMA = fpmaPos != filePath.npos && (vtkPos == filePath.npos || vtkPos < fpmaPos);
+
+        if (vtkPos != filePath.npos && !isFPMA){
             DBGMSG("file recognized as VTK");
             auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
             reader_ptr = std::move(reader);
         }
 
-        if (filePath.find(".fpma") != filePath.npos){
+        if (isFPMA){
             DBGMSG("file recognized as FPMA");
             auto reader = std::make_unique<FPMAMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-- 
2.43.0


From 8e904871c7fad43d0368c217e742f8a7d8dfae22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 34/54] fix: an expression with an apostrophe or a backslash
 broke the HTML log

---
 src/GTMesh/Debug/HTMLLogger.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 6536713..ead78c8 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -19,6 +19,20 @@ class HtmlLogger {
 
     inline void writeScript();
     inline void writeEndScritpt();
+
+    /**
+     * @brief Escapes a text to be written between apostrophes in the script.
+     */
+    static std::string escape(const std::string& text) {
+        std::string res;
+        for (char c : text) {
+            if (c == '\\' || c == '\'') {
+                res += '\\';
+            }
+            res += c;
+        }
+        return res;
+    }
 public:
     HtmlLogger(){logFile = nullptr;}
 
@@ -90,7 +104,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escape(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         writeVar(line, cppFile, rest...);
@@ -103,7 +117,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escape(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         groupIndex++;
-- 
2.43.0


From 50c503b911edb799811dab8c5b5458eee40eadb7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 35/54] fix: a conditional debug macro took over the else of
 the statement around it

---
 src/GTMesh/Debug/Debug.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..d9eed8b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -31,10 +31,10 @@ namespace dbg {
 
 
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
+#define DBGVARCOND(condition, ...) do { if(condition) DBGVAR(__VA_ARGS__); } while(false)
 
 #define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
+#define DBGVARCOND_STDIO(condition, ...) do { if(condition) DBGVAR_STDIO(__VA_ARGS__); } while(false)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
 
@@ -46,15 +46,15 @@ exit(1);}
 
 // Macros using html debug output
 #define DBGVAR_HTML(...) Singleton<dbg::DBGStatics>::getInstance().HDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_HTML(condition, ...) if(condition) DBGVAR_HTML(__VA_ARGS__)
+#define DBGVARCOND_HTML(condition, ...) do { if(condition) DBGVAR_HTML(__VA_ARGS__); } while(false)
 
 // Macros using csv debug output
 #define DBGVAR_CSV(...) Singleton<dbg::DBGStatics>::getInstance().CSVDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_CSV(condition, ...) if(condition) DBGVAR_CSV(__VA_ARGS__)
+#define DBGVARCOND_CSV(condition, ...) do { if(condition) DBGVAR_CSV(__VA_ARGS__); } while(false)
 
 // Macros using json debug output
 #define DBGVAR_JSON(...) Singleton<dbg::DBGStatics>::getInstance().JSONDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_JSON(condition, ...) if(condition) DBGVAR_JSON(__VA_ARGS__)
+#define DBGVARCOND_JSON(condition, ...) do { if(condition) DBGVAR_JSON(__VA_ARGS__); } while(false)
 
 
 
-- 
2.43.0


From d25deff4a185d812c86e49fb451c8da65adf99a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 36/54] fix: DBGVAR_STDIO printed the function as the file and
 the file as the function

---
 src/GTMesh/Debug/ConsoleLogger.h | 4 ++--
 src/GTMesh/Debug/Debug.h         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..26fd6f0 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index d9eed8b..e3ed028 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) do { if(condition) DBGVAR(__VA_ARGS__); } while(false)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) do { if(condition) DBGVAR_STDIO(__VA_ARGS__); } while(false)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
-- 
2.43.0


From 3719755cbecadc0126d80f44506e5d12a010e6f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 37/54] fix: the stdio debug macros were not defined with
 UNDEBUG

---
 src/GTMesh/Debug/Debug.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index e3ed028..8ee7ecb 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -69,10 +69,16 @@ exit(1);}
 
 #define DBGVAR(...)
 
+#define DBGVAR_STDIO(...)
+
+#define DBGVARCOND_STDIO(condition, ...)
+
 #define DBGMSG(...)
 
 #define DBGCHECK
 
+#define DBGCHECK_STDIO
+
 #define DBGTRY(code) code
 
 #define DBGVAR_HTML(...)
-- 
2.43.0


From e7fe451925dc1923898b3a3f8eca2f6a25a83c59 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 38/54] fix: the mesh and its data files could not be used with
 UNDEBUG

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 1 +
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h            | 2 +-
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h                  | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 925a30b..f2c8610 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -3,6 +3,7 @@
 #include "../../../Traits/Traits.h"
 #include "../../../Utils/ConstexprFor.h"
 #include "../../../Traits/CustomTypeTraits.h"
+#include "../../../Traits/TraitsBind/TraitsBind.h"
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include <istream>
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 0b6cacd..140ac98 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -5,7 +5,7 @@
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include "../../MeshIO/MeshWriter/VTKMeshWriter.h"
-#include <GTMesh/Debug/Printers/PrintTraitedClass.h>
+#include <GTMesh/Debug/VariableExport.h>
 #include <GTMesh/Utils/ConstexprFor.h>
 
 #include <ostream>
diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index c18f85e..2740cc6 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -2,6 +2,8 @@
 #define UNSTRUCTUREDMESH_H
 #include "MeshElements/MeshElements.h"
 #include "vector"
+#include <fstream>
+#include <memory>
 #include <type_traits>
 #include "MeshFunctions/MeshFunctions.h"
 #include "MeshIO/MeshReader/FPMAMeshReader.h"
-- 
2.43.0


From c0a8a787e0fd2d9430aba81b8582fc51ef459dc6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 39/54] fix: DBGTRY without a semicolon in its code did not
 compile with UNDEBUG

---
 src/GTMesh/Debug/Debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 8ee7ecb..a203b0a 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -79,7 +79,7 @@ exit(1);}
 
 #define DBGCHECK_STDIO
 
-#define DBGTRY(code) code
+#define DBGTRY(code) {code;}
 
 #define DBGVAR_HTML(...)
 
-- 
2.43.0


From 616e2001b70b072514af46706c6b6544e9420876 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 40/54] fix: a text literal was printed by printf as true

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index b3c0644..c9dc547 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -56,6 +56,11 @@ struct PrintExportable {
         printf("%llu", d);
     }
 
+    static void print(const char* str, ...)
+    {
+        printf("%s", str);
+    }
+
     static void print(const bool& b, ...)
     {
         printf("%s", (b == true ? "true" : "false"));
-- 
2.43.0


From f16ed3137f673f0a2d009f09b264f2d8d3cfd64a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 41/54] fix: ConsoleLogger::reset did not restore the default
 identation

---
 src/GTMesh/Debug/ConsoleLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index 26fd6f0..0609dc1 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -52,7 +52,7 @@ public:
         mOnlyFilename = false; //!< If true then the filename is exported without its path.
         mPrintFunction = true; //!< If true then the name of the function the export is called from is printed.
         mPrintAggregated = true; //!< Prints the information about the origin of the message only once.
-        mIdentation = std::string("...     "); //!< The identation of the single exports when PrintAggregated is true.
+        mIdentation = std::string("||     "); //!< The identation of the single exports when PrintAggregated is true.
     }
 public:
 
-- 
2.43.0


From 3aac159e09bb634e7bf36f14b907ad4883324a68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 42/54] fix: allocating a data container with one of its own
 values as initial value read freed memory

---
 .../MeshDataContainer/MeshDataContainer.h            | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 800ed9e..71252cb 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -245,7 +245,8 @@ public:
      */
     template <unsigned int Dimension, typename IndexType, typename Real, unsigned int ...Reserve>
     void allocateData(const MeshElements<Dimension, IndexType, Real, Reserve...>& mesh, const DataType& initialValue){
-        allocateMemory<0>(mesh,initialValue);
+        // the initial value may be one of the values of this container
+        allocateMemory<0>(mesh, DataType(initialValue));
     }
 
 
@@ -269,7 +270,8 @@ public:
      */
     template<typename _DataType, unsigned int ... _Dimensions>
     void allocateData(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer, const DataType& initialValue){
-        allocateMemory<0>(meshDataContainer,initialValue);
+        // the initial value may be one of the values of this container
+        allocateMemory<0>(meshDataContainer, DataType(initialValue));
     }
 
 
@@ -702,7 +704,8 @@ public:
     template <unsigned int Dimension, typename IndexType, typename Real, unsigned int ...Reserve>
     void allocateData(const MeshElements<Dimension, IndexType, Real, Reserve...>& mesh,
                      const DataTypes&... initialValues){
-        allocateMemory<0>(mesh, initialValues...);
+        // the initial values may be values of this container
+        allocateMemory<0>(mesh, DataTypes(initialValues)...);
     }
 
 
@@ -714,7 +717,8 @@ public:
 
     void allocateData(const MeshDataContainer<std::tuple<DataTypes...>, Dimensions...>& meshDataContainer,
                       const DataTypes&... initialValues){
-        allocateMemory<0>(meshDataContainer, initialValues...);
+        // the initial values may be values of this container
+        allocateMemory<0>(meshDataContainer, DataTypes(initialValues)...);
     }
 
     MeshDataContainer<std::tuple<DataTypes...>, Dimensions...>& operator=(const MeshDataContainer<std::tuple<DataTypes...>, Dimensions...>& rhs) {
-- 
2.43.0


From 62cf77e59b1c361fab22c15ee998422f4fb0f3a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:40:27 +0000
Subject: [PATCH 43/54] fix: tensors of 2D meshes were exported with five
 numbers instead of nine

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h | 12 +++++++++---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h | 11 +++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index f2c8610..ebf4570 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -86,11 +86,17 @@ class VTKMeshDataReader {
         typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
 
         for (IndexType i = 0; i < data.size(); i++) {
-            for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
+            // the VTK vectors and tensors are three dimensional
+            unsigned int size = traits.template getValue<Index>(data.at(i)).size();
+            for (unsigned int j = 0; j < size; j++){
                 ist >> value[j];
+                if (j % MeshDimension == MeshDimension - 1) {
+                    ist >> dummy[0];
+                }
+            }
+            if (size == MeshDimension * MeshDimension) {
+                ist >> dummy[0] >> dummy[0] >> dummy[0];
             }
-
-            ist >> dummy[0];
             checkColumn(ist, traits.template getName<Index>());
 
             traits.template setValue<Index>(data.at(i), value);
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 140ac98..fdda8ce 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -154,10 +154,17 @@ class VTKMeshDataWriter {
         ost << traits.template getName<Index>() << " double\n";
 
         for (const auto& d : data){
-            for(unsigned int j = 0; j < traits.template getValue<Index>(data.at(0)).size(); j++){
+            // the VTK vectors and tensors are three dimensional
+            unsigned int size = traits.template getValue<Index>(data.at(0)).size();
+            for(unsigned int j = 0; j < size; j++){
                 ost << traits.template getValue<Index>(d)[j] << ' ';
+                if (j % MeshDimension == MeshDimension - 1) {
+                    ost << "0.0 ";
+                }
+            }
+            if (size == MeshDimension * MeshDimension) {
+                ost << "0.0 0.0 0.0 ";
             }
-            ost << "0.0 ";
         }
     }
 
-- 
2.43.0


From 525c4d7cb2ed7b1327611d3719f44ba48247fe1c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 44/54] fix: cell data were taken from the point data of the
 same name

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index ebf4570..42df84f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -156,6 +156,7 @@ public:
         */
 
         std::string line;
+        bool cellData = true;
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
@@ -164,7 +165,14 @@ public:
                                                             : line.compare(0, 8, "VECTORS ") == 0 ||
                                                               line.compare(0, 8, "TENSORS ") == 0 ? 2
                                                                                                   : 0 );
-            if (flag != 0){
+            // data of points may have the same names
+            if (line.compare(0, 11, "POINT_DATA ") == 0) {
+                cellData = false;
+            } else if (line.compare(0, 10, "CELL_DATA ") == 0) {
+                cellData = true;
+            }
+
+            if (flag != 0 && cellData){
                 std::string dataName;
                 std::stringstream sstream(line);
                 sstream.ignore(9, ' ');
-- 
2.43.0


From f2e9cc215bf21fb82b352e93e2b7cd1965934ab1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 45/54] fix: a title of a VTK file was taken for the header of
 cell data

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 42df84f..46c5405 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -160,6 +160,12 @@ public:
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
+            // the title may be any text
+            if (line.compare(0, 5, "# vtk") == 0) {
+                std::getline(ist, line, '\n');
+                continue;
+            }
+
             // the keyword is the first word of the line
             int flag = (line.compare(0, 8, "SCALARS ") == 0 ? 1
                                                             : line.compare(0, 8, "VECTORS ") == 0 ||
-- 
2.43.0


From 36f0c1959f090d74852a566ff366eae403864843 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:04:26 +0000
Subject: [PATCH 46/54] fix: writing a mesh to a file of an unsupported format
 stored nothing without an error

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 2740cc6..a0f520e 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -362,6 +362,16 @@ private:
         std::string fileExt = filePath.substr(filePath.find_last_of("."));
         return fileExt == ext;
     }
+
+    /**
+     * @brief Throws an exception if the mesh cannot be written into the file
+     * of the given name because its format is not supported.
+     */
+    void checkWriteFormat(const std::string& filePath){
+        if (!checkExtension(filePath, ".vtk") && (MeshDimension != 3 || !checkExtension(filePath, ".fpma"))){
+            throw std::runtime_error("the format of the file: \"" + filePath + "\" is not supported");
+        }
+    }
 public:
     /**
      * @brief Writes the mesh from a file passed as parameter filePath.
@@ -377,6 +387,7 @@ public:
 
         typedef std::unique_ptr<MeshWriter<MeshDimension>> retType;
         retType writer_ptr;
+        checkWriteFormat(filePath);
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
@@ -408,6 +419,7 @@ public:
           std::unique_ptr<MeshWriter<MeshDimension>>& writer,
           const MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>& cellTypes = MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>(),
           const std::string& dataHeader = ""){
+        checkWriteFormat(filePath);
         if (!writer) {
             writer = write(filePath, cellTypes, dataHeader);
         } else {
@@ -468,6 +480,7 @@ public:
 
         typedef std::unique_ptr<MeshWriter<MeshDimension>> retType;
         retType writer_ptr;
+        checkWriteFormat(filePath);
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
@@ -488,6 +501,7 @@ public:
           std::unique_ptr<MeshWriter<MeshDimension>>& writer,
           const MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>& cellTypes = MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>(),
           const std::string& dataHeader = ""){
+        checkWriteFormat(filePath);
         if (!writer) {
             writer = write(filePath, cellTypes, dataHeader);
         } else {
-- 
2.43.0


From 00be9dd0bd3ff3537a138907e0aa6ba4a565d4de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 47/54] fix: mesh files depended on the global locale of the
 program

With a locale that groups digits or has a decimal comma the written VTK and
FPMA files were malformed and valid files failed to load.
---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index a0f520e..c5f73f9 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -3,6 +3,7 @@
 #include "MeshElements/MeshElements.h"
 #include "vector"
 #include <fstream>
+#include <locale>
 #include <memory>
 #include <type_traits>
 #include "MeshFunctions/MeshFunctions.h"
@@ -247,6 +248,8 @@ public:
         retType reader_ptr;
 
         std::ifstream file(filePath, std::ios::binary);
+        // the formats do not depend on the locale of the program
+        file.imbue(std::locale::classic());
         if (!file.is_open()) {
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
@@ -287,6 +290,8 @@ public:
         retType reader_ptr;
 
         std::ifstream file(filePath, std::ios::binary);
+        // the formats do not depend on the locale of the program
+        file.imbue(std::locale::classic());
         if (!file.is_open()) {
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
@@ -425,6 +430,8 @@ public:
         } else {
 
             std::ofstream file(filePath, std::ios::binary);
+            // the formats do not depend on the locale of the program
+            file.imbue(std::locale::classic());
             if (!file.is_open()) {
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
@@ -507,6 +514,8 @@ public:
         } else {
 
             std::ofstream file(filePath, std::ios::binary);
+            // the formats do not depend on the locale of the program
+            file.imbue(std::locale::classic());
             if (!file.is_open()) {
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
-- 
2.43.0


From b422ba55a0cc3793074336bbdef0f60801f9d077 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 48/54] fix: JSON and HTML logs depended on the global locale
 of the program

With a locale that groups digits or has a decimal comma the numbers in the
logs were not numbers of JSON and JavaScript any more.
---
 src/GTMesh/Debug/HTMLLogger.h | 3 +++
 src/GTMesh/Debug/JSONLogger.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index ead78c8..5048b41 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <fstream>
 #include <string>
+#include <locale>
 
 /**
  * @brief The HtmlLogger class
@@ -59,6 +60,8 @@ public:
     void create(const char* fileName){
         destroy();
         logFile = new std::ofstream(fileName);
+        // the format does not depend on the locale of the program
+        logFile->imbue(std::locale::classic());
 
 
         writeScript();
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 8e3eba3..1d035e8 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -1,6 +1,7 @@
 #ifndef JSONLOGGER_H
 #define JSONLOGGER_H
 #include <string>
+#include <locale>
 #include <fstream>
 #include "VariableExport.h"
 #include <iostream>
@@ -44,6 +45,8 @@ public:
         destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
+        // the format does not depend on the locale of the program
+        logFile->imbue(std::locale::classic());
         (*logFile) << "{\n\"logs\":[\n";
     }
 
-- 
2.43.0


From f9cfe0377f44618af83ec2ce81461cba28efecc4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 49/54] fix: subtracting a temporary from a traited structure
 returned nothing

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..bb8ab1d 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -206,7 +206,7 @@ typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
-
+    return op2;
 }
 
 
-- 
2.43.0


From 5aed73858b8e242a6686eac32f3c26c942554ed6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 50/54] fix: names of the dimensions of a data container lost
 their zeros

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..1ed6b6e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,13 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From a2694e08f4802e9bf9e9f7dc82ff5513c0b9c29f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 51/54] fix: reading cell data into more arrays of one
 container did not compile

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 46c5405..400f2e8 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -233,7 +233,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
-- 
2.43.0


From f5e2b1243f8d9b1e0b958d08e92c50efe778de9f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 52/54] fix: export and import of a single array of cell data
 did not compile

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h            | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 400f2e8..08a31c9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -202,7 +202,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index fdda8ce..321055c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -233,7 +233,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 8d29e76efd4260dd1c3773a62fae926113ffd0f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:10:57 +0000
Subject: [PATCH 53/54] fix: setting given centers of the elements did not
 compile

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index c5f73f9..09efa0a 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -57,10 +57,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From 5ebdad41c3cda01b253bedda64abc4011d308163 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:11:43 +0000
Subject: [PATCH 54/54] fix: normals of faces of meshes with float coordinates
 did not compile

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
index 50f44e6..05afedd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
@@ -26,7 +26,7 @@ struct _ComputeNormals{
                         const MeshElements<MeshDimension, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
@@ -82,7 +82,7 @@ struct _ComputeNormals<3, Method>{
                         const MeshElements<3, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
-- 
2.43.0

