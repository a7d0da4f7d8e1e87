From 8f7a53bf04ed3bef75e679cd3b60207b4ffc97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:35 +0000
Subject: [PATCH 01/61] fix: pass RWORK to zgelss in the complex pseudoSolve

---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..4b08f92 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rwork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -898,8 +899,9 @@ void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
+    std::vector<double> rWork(5 * n);
     zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+            work.data(), &lWork, rWork.data(), &info);
 #else
     dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
             work.data(), &lWork, &info);
-- 
2.43.0


From 0a55146259a6b3590ed05717e33ab5339e889f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 02/61] fix: conforming prism face functions use the
 quadrilateral family and node order

---
 .../FE/BasisFunctions3DH1ConformingPrism.cpp  | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 47c9f3a..21a9c0b 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -695,7 +695,7 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 0, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
                     vectorOfPointIndexes[2], j, k));
             }
@@ -704,43 +704,43 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 1, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[1], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[3], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[1], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 2, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 3, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[0],
+                    vectorOfPointIndexes[3], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 4, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 5, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
                     vectorOfPointIndexes[3], j, k));
             }
@@ -749,18 +749,18 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 6, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[1],
+                    vectorOfPointIndexes[2], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 7, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[0], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[2], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[0], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], j, k));
             }
         }
         result.push_back(set);
-- 
2.43.0


From 5836c72210303049397a8f41587d32e91e320193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:11 +0000
Subject: [PATCH 03/61] fix: announce the true order of two tetrahedron
 quadrature rules

---
 .../QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
index 854c283..d1c63c7 100644
--- a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
+++ b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
@@ -399,7 +399,7 @@ T3_6_24::T3_6_24()
 // clang-format-off
 T3_7_31::T3_7_31()
     : StandardGaussQuadratureRule<3>(
-        "T3_7_35", 7, &Geometry::ReferenceTetrahedron::Instance(), {
+        "T3_7_35", 6, &Geometry::ReferenceTetrahedron::Instance(), {
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.9197896733368800,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.9197896733368800,  0.0267367755543735}},
@@ -644,7 +644,7 @@ T3_8_43::T3_8_43()
 // clang-format-off
 T3_9_53::T3_9_53()
     : StandardGaussQuadratureRule<3>(
-        "T3_9_56", 9, &Geometry::ReferenceTetrahedron::Instance(),{
+        "T3_9_56", 8, &Geometry::ReferenceTetrahedron::Instance(),{
         // Source [2]
         {0.0010373112336140 * TET_VOLUME, {0.0149520651530592, 0.0149520651530592, 0.0149520651530592}},
         {0.0010373112336140 * TET_VOLUME, {0.9551438045408220, 0.0149520651530592, 0.0149520651530592}},
-- 
2.43.0


From 2486d1638fec07b608aa535b5ee526e081ca743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:59 +0000
Subject: [PATCH 04/61] fix: map quadrilateral faces to their neighbour
 correctly when it is a quarter turn away

---
 kernel/Geometry/FaceGeometry.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kernel/Geometry/FaceGeometry.cpp b/kernel/Geometry/FaceGeometry.cpp
index 16ce724..af4a450 100644
--- a/kernel/Geometry/FaceGeometry.cpp
+++ b/kernel/Geometry/FaceGeometry.cpp
@@ -150,8 +150,17 @@ void FaceGeometry::initialiseFaceToFaceMapIndex(
     const std::vector<std::size_t>& rightNodes) {
     logger.assert_debug(leftNodes.size() == rightNodes.size(),
                         "Inconsistent amount of nodes for left and right face");
-    faceToFaceMapIndex_ =
-        getReferenceGeometry()->getCodim0MappingIndex(leftNodes, rightNodes);
+    if (getReferenceGeometry()->getGeometryType() ==
+        ReferenceGeometryType::SQUARE) {
+        // ReferenceSquare numbers its mappings by where they take the second
+        // list, which for the quarter turns is the inverse of the mapping from
+        // the left face to the right face
+        faceToFaceMapIndex_ = getReferenceGeometry()->getCodim0MappingIndex(
+            rightNodes, leftNodes);
+    } else {
+        faceToFaceMapIndex_ = getReferenceGeometry()->getCodim0MappingIndex(
+            leftNodes, rightNodes);
+    }
 }
 
 bool FaceGeometry::isInternal() const {
-- 
2.43.0


From 27a0a1676f1d7c77f2d7469cbd674bb0e563be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:59 +0000
Subject: [PATCH 05/61] fix: orient edges by their topological end points, also
 across periodic boundaries and on curved elements

---
 kernel/Base/Edge.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/Edge.cpp b/kernel/Base/Edge.cpp
index 8e8e683..6ede00c 100644
--- a/kernel/Base/Edge.cpp
+++ b/kernel/Base/Edge.cpp
@@ -59,9 +59,12 @@ void Edge::addElement(Element* element, std::size_t edgeNumber) {
     std::vector<std::size_t> indices =
         element->getReferenceGeometry()->getCodim2EntityLocalIndices(
             edgeNumber);
-    indices[0] = element->getPhysicalGeometry()->getNodeIndex(indices[0]);
-    indices[1] = element->getPhysicalGeometry()->getNodeIndex(indices[1]);
-    orientation_.push_back((indices[0] < indices[1] ? 0 : 1));
+    // Compare the end points (a curved edge has more nodes in between) by the
+    // topological node, since the coordinates of the same node differ between
+    // the two sides of a periodic boundary.
+    const Node* firstNode = element->getNode(indices.front());
+    const Node* lastNode = element->getNode(indices.back());
+    orientation_.push_back(firstNode->getID() < lastNode->getID() ? 0 : 1);
 
     if (numberOfConformingDOFOnTheEdge_.size() == 0) {
         numberOfConformingDOFOnTheEdge_.resize(element->getNumberOfUnknowns(),
-- 
2.43.0


From 4b4561bb49b1c5846a3ee57bb1be39630940867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:59 +0000
Subject: [PATCH 06/61] fix: conforming cube face functions follow the
 directions of a turned face

---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..0b3afff 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -238,8 +238,12 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
-    mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
-                                           // be consistent for one face
+    if ((node0 / 2) % 2 == (node1 / 2) % 2) {
+        // the face is turned: its first direction is our z-direction
+        std::swap(node1, node2);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
+    mirroring1_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
@@ -290,6 +294,11 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
+    if (node0 % 2 == node1 % 2) {
+        // the face is turned: its first direction is our z-direction
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
@@ -348,6 +357,11 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
+    if (node0 % 2 == node1 % 2) {
+        // the face is turned: its first direction is our y-direction
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring1_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
-- 
2.43.0


From 7540baf2b4da71776e33eb2dce9ae0f66f9507ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:59 +0000
Subject: [PATCH 07/61] fix: cubes and prisms use the same conforming functions
 on a common face

---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 18 +++++++++---------
 .../FE/BasisFunctions3DH1ConformingPrism.cpp   | 16 ++++++++--------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 0b3afff..9eeb4cc 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -94,7 +94,7 @@ BasisFunction3DEdgeCube_0::BasisFunction3DEdgeCube_0(
         "This class is intended for edges aligned in the x-direction");
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_0::eval(
@@ -142,7 +142,7 @@ BasisFunction3DEdgeCube_1::BasisFunction3DEdgeCube_1(
         "This class is intended for edges aligned in the y-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_1::eval(
@@ -190,7 +190,7 @@ BasisFunction3DEdgeCube_2::BasisFunction3DEdgeCube_2(
         "This class is intended for edges aligned in the z-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_2::evalDeriv0(
@@ -243,8 +243,8 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
         std::swap(node1, node2);
         std::swap(polynomialOrder1_, polynomialOrder2_);
     }
-    mirroring1_ = node0 < node1 ? 1 : -1;
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring1_ = node0 < node1 ? -1 : 1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
 
@@ -299,8 +299,8 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
         std::swap(node1, node2);
         std::swap(polynomialOrder0_, polynomialOrder2_);
     }
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
 }
 
@@ -362,8 +362,8 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
         std::swap(node1, node2);
         std::swap(polynomialOrder0_, polynomialOrder1_);
     }
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring1_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring1_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
 }
 
diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 21a9c0b..46ce2ed 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -697,7 +697,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[2], j, k));
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
@@ -706,7 +706,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
@@ -715,7 +715,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
@@ -724,7 +724,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[2], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[3], j, k));
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
@@ -733,7 +733,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
@@ -742,7 +742,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[3], j, k));
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
@@ -751,7 +751,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[3], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[2], j, k));
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
@@ -760,7 +760,7 @@ std::vector<const OrientedBasisFunctionSet*>
             for (std::size_t k = 0; k + 2 <= order; ++k) {
                 set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
-- 
2.43.0


From bb2bcc30f622cdfcd046a2b13a9eee312dcecaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:39 +0000
Subject: [PATCH 08/61] fix: report a failed Newton inversion of the element
 maps instead of its last iterate

The check on the number of iterations never fired, so a diverged iterate that
happens to lie in the reference element made physicalToReference return a wrong
element; the point returned for a failure had two entries in 3D and 4D.
---
 .../Mappings/MappingToPhysHypercubeLinear.cpp     | 15 ++++++++++++---
 kernel/Geometry/Mappings/MappingToPhysPyramid.cpp |  5 ++++-
 .../Mappings/MappingToPhysTriangularPrism.cpp     |  5 ++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/kernel/Geometry/Mappings/MappingToPhysHypercubeLinear.cpp b/kernel/Geometry/Mappings/MappingToPhysHypercubeLinear.cpp
index 2b6b699..8670ec6 100644
--- a/kernel/Geometry/Mappings/MappingToPhysHypercubeLinear.cpp
+++ b/kernel/Geometry/Mappings/MappingToPhysHypercubeLinear.cpp
@@ -153,7 +153,9 @@ PointReference<2> MappingToPhysHypercubeLinear<2>::inverseTransform(
         comparison = transform(result);
         error = (pointPhysical - comparison).l2NormSquared();
     }
-    if (loop_count == 100) {
+    // The tolerance above is absolute, so rounding may keep the iteration from
+    // reaching it. It has diverged if it is also still making large steps.
+    if (error > 1e-28 && !(correction.l2NormSquared() < 1e-12)) {
         return {std::numeric_limits<double>::quiet_NaN(),
                 std::numeric_limits<double>::quiet_NaN()};
     }
@@ -244,8 +246,11 @@ PointReference<3> MappingToPhysHypercubeLinear<3>::inverseTransform(
         comparison = transform(result);
         error = (pointPhysical - comparison).l2NormSquared();
     }
-    if (loop_count == 100) {
+    // The tolerance above is absolute, so rounding may keep the iteration from
+    // reaching it. It has diverged if it is also still making large steps.
+    if (error > 1e-28 && !(correction.l2NormSquared() < 1e-12)) {
         return {std::numeric_limits<double>::quiet_NaN(),
+                std::numeric_limits<double>::quiet_NaN(),
                 std::numeric_limits<double>::quiet_NaN()};
     }
     return result;
@@ -346,8 +351,12 @@ PointReference<4> MappingToPhysHypercubeLinear<4>::inverseTransform(
         comparison = transform(result);
         error = (pointPhysical - comparison).l2NormSquared();
     }
-    if (loop_count == 100) {
+    // The tolerance above is absolute, so rounding may keep the iteration from
+    // reaching it. It has diverged if it is also still making large steps.
+    if (error > 1e-28 && !(correction.l2NormSquared() < 1e-12)) {
         return {std::numeric_limits<double>::quiet_NaN(),
+                std::numeric_limits<double>::quiet_NaN(),
+                std::numeric_limits<double>::quiet_NaN(),
                 std::numeric_limits<double>::quiet_NaN()};
     }
     return result;
diff --git a/kernel/Geometry/Mappings/MappingToPhysPyramid.cpp b/kernel/Geometry/Mappings/MappingToPhysPyramid.cpp
index f04f2ef..2d3a4a4 100644
--- a/kernel/Geometry/Mappings/MappingToPhysPyramid.cpp
+++ b/kernel/Geometry/Mappings/MappingToPhysPyramid.cpp
@@ -97,8 +97,11 @@ PointReference<3> MappingToPhysPyramid::inverseTransform(
         comparison = transform(result);
         error = (pointPhysical - comparison).l2NormSquared();
     }
-    if (loop_count == 100) {
+    // The tolerance above is absolute, so rounding may keep the iteration from
+    // reaching it. It has diverged if it is also still making large steps.
+    if (error > 1e-28 && !(correction.l2NormSquared() < 1e-12)) {
         return {std::numeric_limits<double>::quiet_NaN(),
+                std::numeric_limits<double>::quiet_NaN(),
                 std::numeric_limits<double>::quiet_NaN()};
     }
     return result;
diff --git a/kernel/Geometry/Mappings/MappingToPhysTriangularPrism.cpp b/kernel/Geometry/Mappings/MappingToPhysTriangularPrism.cpp
index beb3b5f..b3cbd30 100644
--- a/kernel/Geometry/Mappings/MappingToPhysTriangularPrism.cpp
+++ b/kernel/Geometry/Mappings/MappingToPhysTriangularPrism.cpp
@@ -98,8 +98,11 @@ PointReference<3> MappingToPhysTriangularPrism::inverseTransform(
         comparison = transform(result);
         error = (pointPhysical - comparison).l2NormSquared();
     }
-    if (loop_count == 100) {
+    // The tolerance above is absolute, so rounding may keep the iteration from
+    // reaching it. It has diverged if it is also still making large steps.
+    if (error > 1e-28 && !(correction.l2NormSquared() < 1e-12)) {
         return {std::numeric_limits<double>::quiet_NaN(),
+                std::numeric_limits<double>::quiet_NaN(),
                 std::numeric_limits<double>::quiet_NaN()};
     }
     return result;
-- 
2.43.0


From 1aae440bf2e424ddc81275992149cbf6b00225bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:45 +0000
Subject: [PATCH 09/61] fix: evaluate the solution of every unknown with its
 own basis functions

Element and PhysicalElement used the functions of the first unknown for all of
them; unknowns that were not given a transformation indexed past the end of the
list of transformations.
---
 kernel/Base/Element.h              | 4 ++--
 kernel/Base/PhysicalElement_Impl.h | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/Element.h b/kernel/Base/Element.h
index 6eec26d..508466b 100644
--- a/kernel/Base/Element.h
+++ b/kernel/Base/Element.h
@@ -787,7 +787,7 @@ Element::SolutionVector Element::getSolution(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVB) * basisFunction(iB, p);
+            solution[iV] += data(iVB) * basisFunction(iB, p, iV);
         }
     }
     return solution;
@@ -813,7 +813,7 @@ std::vector<LinearAlgebra::SmallVector<DIM>> Element::getSolutionGradient(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            auto derivative = basisFunctionDeriv(iB, p);
+            auto derivative = basisFunctionDeriv(iB, p, iV);
             jacobean.solve(derivative);
             solution[iV] += data(iVB) * derivative;
         }
diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index ffbeafb..5e696ab 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -429,7 +429,7 @@ inline const LinearAlgebra::MiddleSizeVector&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVb = theElement_->convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVb) * basisFunction(iB);
+            solution[iV] += data(iVb) * basisFunction(iB, iV);
         }
     }
     return solution;
@@ -459,7 +459,7 @@ inline const std::vector<LinearAlgebra::SmallVector<DIM> >&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB);
+            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB, iV);
         }
     }
     return solutionDeriv;
@@ -676,6 +676,10 @@ inline void PhysicalElement<DIM>::setElement(const Element* element) {
     }
     resultMatrix.resize(numberOfEntries, numberOfEntries);
     resultVector.resize(numberOfEntries);
+    // unknowns without a transformation of their own use the first one
+    if (transform_.size() < unknowns) {
+        transform_.resize(unknowns, transform_[0]);
+    }
 
     theElement_ = element;
     hasElement = true;
-- 
2.43.0


From ba23386a9e3166f5db80a9711cc74f09d71dc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:57 +0000
Subject: [PATCH 10/61] fix: PhysicalFace follows faces whose elements have
 other basis functions

The sizes were taken from the first face only, and the products with the normal
used the functions of the first unknown for all of them.
---
 kernel/Base/PhysicalFace_Impl.h | 72 +++++++++++++++++----------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..e30a225 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
@@ -845,51 +846,54 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
-        std::size_t leftCoefficients =
-            face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
-        nLeftBasisFunctions.resize(numberOfUnknowns);
-        basisFunctionNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionNormal_.resize(numberOfUnknowns);
-        basisFunctionUnitNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
-        std::size_t rightCoefficients = 0;
-        for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+    // the elements of the next face may have other basis functions
+    std::size_t leftCoefficients =
+        face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+    nLeftBasisFunctions.resize(numberOfUnknowns);
+    basisFunctionNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionNormal_.resize(numberOfUnknowns);
+    basisFunctionUnitNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
+    std::size_t rightCoefficients = 0;
+    for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+        std::size_t numBasis =
+            face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+        basisFunctionNormal_[i].resize(numBasis);
+        vectorBasisFunctionNormal_[i].resize(numBasis);
+        basisFunctionUnitNormal_[i].resize(numBasis);
+        vectorBasisFunctionUnitNormal_[i].resize(numBasis);
+        nLeftBasisFunctions[i] = numBasis;
+    }
+    if (isInternal_) {
+        rightCoefficients =
+            face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        // We assume that in the left and right element the number of
+        // unknowns is equal.
+        for (std::size_t i = 0;
+             i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
             std::size_t numBasis =
-                face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+                face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
+                face->getPtrElementRight()->getNumberOfBasisFunctions(i);
             basisFunctionNormal_[i].resize(numBasis);
             vectorBasisFunctionNormal_[i].resize(numBasis);
             basisFunctionUnitNormal_[i].resize(numBasis);
             vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            nLeftBasisFunctions[i] = numBasis;
         }
-        if (isInternal_) {
-            rightCoefficients =
-                face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
-            // We assume that in the left and right element the number of
-            // unknowns is equal.
-            for (std::size_t i = 0;
-                 i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
-                std::size_t numBasis =
-                    face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
-                    face->getPtrElementRight()->getNumberOfBasisFunctions(i);
-                basisFunctionNormal_[i].resize(numBasis);
-                vectorBasisFunctionNormal_[i].resize(numBasis);
-                basisFunctionUnitNormal_[i].resize(numBasis);
-                vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            }
-        }
-        resultMatrix.resize(leftCoefficients, rightCoefficients);
-        leftRightMatrix.resize(leftCoefficients, rightCoefficients);
-        rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
-        resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    resultMatrix.resize(leftCoefficients, rightCoefficients);
+    leftRightMatrix.resize(leftCoefficients, rightCoefficients);
+    rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
+    resultVector.resize(leftCoefficients + rightCoefficients);
     face_ = face;
     hasFace = true;
     left.setElement(face->getPtrElementLeft());
     if (isInternal_) {
         right.setElement(face->getPtrElementRight());
     }
+    // unknowns without a transformation of their own use the first one
+    if (transform_.size() < numberOfUnknowns) {
+        transform_.resize(numberOfUnknowns, transform_[0]);
+    }
     if (hasPointReference) {
         left.setPointReference(face_->mapRefFaceToRefElemL(pointReference_));
         if (isInternal_) {
-- 
2.43.0


From a13bcb30b6bdf4c68be447b59d1cf13bf6b8af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:27 +0000
Subject: [PATCH 11/61] fix: raise the quadrature order of the faces also when
 the rule of the element is already good enough

---
 kernel/Base/Element.cpp | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/kernel/Base/Element.cpp b/kernel/Base/Element.cpp
index 6764fca..081dbf3 100644
--- a/kernel/Base/Element.cpp
+++ b/kernel/Base/Element.cpp
@@ -142,33 +142,27 @@ std::size_t Element::getID() const { return id_; }
 std::size_t Element::getID() { return id_; }
 
 void Element::setQuadratureRulesWithOrder(std::size_t quadrROrder) {
-    bool changed = false;
-    if (quadratureRule_ == nullptr) {
+    if (quadratureRule_ == nullptr ||
+        quadrROrder > quadratureRule_->order()) {
         quadratureRule_ = Geometry::ElementGeometry::referenceGeometry_
                               ->getGaussQuadratureRule(quadrROrder);
-        changed = true;
-    } else if (quadrROrder > quadratureRule_->order()) {
-        quadratureRule_ = Geometry::ElementGeometry::referenceGeometry_
-                              ->getGaussQuadratureRule(quadrROrder);
-        changed = true;
     }
     // The quadrature orders of the faces are assigned when they are created
     // based on the current quadrature order on its neighbouring elements.
-    // If the quadrature order changes on this element it probably also has
-    // to change on the face.
-    if (changed) {
-        for (std::size_t i = 0; i < facesList_.size(); ++i) {
-            Face *face = facesList_[i];
-            if (face != nullptr) {
-                QuadratureRules::GaussQuadratureRule *rule =
-                    face->getGaussQuadratureRule();
-                std::size_t currentOrder = rule == nullptr ? 0 : rule->order();
-                if (quadrROrder > currentOrder) {
-                    face->setGaussQuadratureRule(
-                        this->getReferenceGeometry()
-                            ->getCodim1ReferenceGeometry(i)
-                            ->getGaussQuadratureRule(quadrROrder));
-                }
+    // The rule of a face may have a lower order than that of this element (not
+    // every order is available for every shape), so it can be too low even if
+    // the rule of this element is good enough.
+    for (std::size_t i = 0; i < facesList_.size(); ++i) {
+        Face *face = facesList_[i];
+        if (face != nullptr) {
+            QuadratureRules::GaussQuadratureRule *rule =
+                face->getGaussQuadratureRule();
+            std::size_t currentOrder = rule == nullptr ? 0 : rule->order();
+            if (quadrROrder > currentOrder) {
+                face->setGaussQuadratureRule(
+                    this->getReferenceGeometry()
+                        ->getCodim1ReferenceGeometry(i)
+                        ->getGaussQuadratureRule(quadrROrder));
             }
         }
     }
-- 
2.43.0


From c84b9d317cd7fe6c250947a7666a248b322f5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 12/61] fix: forget the functions of faces, edges and nodes
 when an unknown gets discontinuous basis functions

---
 kernel/Base/MeshManipulator_Impl.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..a74f184 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -239,6 +239,19 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    // All functions belong to the elements, also when this unknown had
+    // conforming basis functions before.
+    for (Base::Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Base::Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    if (dimension_ > 1) {
+        for (Base::Node *node : getNodesList(IteratorType::GLOBAL)) {
+            node->setLocalNumberOfBasisFunctions(0, unknown);
+        }
+    }
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
-- 
2.43.0


From efbc6683fb164991bfdc8c424da0fc9cb283f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 13/61] fix: leave out the other unknowns when a vector is
 constructed from one unknown

---
 kernel/Utilities/GlobalVector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..6bccabd 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -101,6 +101,9 @@ void GlobalPetscVector::createVec() {
                         indexing_.getNumberOfLocalBasisFunctions(),
                         PETSC_DETERMINE, &b_);
     CHKERRV(ierr);
+    // Used to skip unknowns in constructFromTimeIntegrationVector
+    ierr = VecSetOption(b_, VEC_IGNORE_NEGATIVE_INDICES, PETSC_TRUE);
+    CHKERRV(ierr);
 }
 
 void GlobalPetscVector::zeroVector() {
-- 
2.43.0


From d42e6302ac548def1c601a355d6253629701d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 14/61] fix: write the coefficients of an unknown with its own
 number of basis functions

---
 kernel/Utilities/GlobalVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index 6bccabd..952918c 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -457,8 +457,9 @@ void GlobalPetscVector::writeTimeIntegrationVector(
         logger.assert_debug(localData.size() == runningTotal,
                             "not enough info to fill the vector");
         LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
+            (*it)->getNumberOfBasisFunctions(unknown));
+        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(unknown);
+             ++i) {
             singleUnknownData[i] =
                 localData[(*it)->convertToSingleIndex(i, unknown)];
         }
-- 
2.43.0


From 38493c2e77999af6642feda7c9986dc8310f92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 15/61] fix: stage times of the TVD and Bogacki-Shampine
 Runge-Kutta methods

The stage times c have to be the row sums of a; with other values the methods
are only first order accurate for right hand sides that depend on time.
---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 kernel/Base/TimeIntegration/RK2TVD.cpp          | 2 +-
 kernel/Base/TimeIntegration/RK3TVD.cpp          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From e78c6abc1029617f65bca7c9e0a0cb5d3f0ed495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:28 +0000
Subject: [PATCH 16/61] fix: constant time steps end at the final time

Without output frames the time step was not adapted to the time interval and
the last step went past the final time. With many steps the rounding errors in
the time exceeded the fixed tolerance of 1e-14, which gave one step too many.
---
 kernel/Base/HpgemAPISimplified_Impl.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..e6ef675 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -987,14 +987,13 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                               (numberOfTimeSteps % numberOfOutputFrames)) %
                              numberOfOutputFrames;
 
-        // Recompute dt.
-        dt = T / numberOfTimeSteps;
-
         // Compute the number of timesteps after which to create an output
         // frame.
         numberOfTimeStepsForOutput =
             (std::size_t)(numberOfTimeSteps / numberOfOutputFrames);
     }
+    // Recompute dt.
+    dt = T / numberOfTimeSteps;
 
     // if the user wants an adaptive time step, the default of 0.01 for dt is
     // silly
@@ -1024,8 +1023,11 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
         logger(INFO, "Minimum number of time steps for output: %.",
                numberOfTimeStepsForOutput);
     }
+    // Rounding errors in the time grow with the number of time steps. Constant
+    // time steps are meant to end exactly at the final and the output times.
+    const double timeTolerance = error.isUsed() ? 0. : 0.5 * dt;
     std::size_t actualNumberOfTimeSteps = 0;
-    while (time < finalTime - 1e-14) {
+    while (time < finalTime - std::max(1e-14, timeTolerance)) {
         actualNumberOfTimeSteps++;
         if (error.isUsed()) {
             computeOneTimeStep(
@@ -1035,7 +1037,7 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
             computeOneTimeStep(time, dt);
         }
 
-        if (time > outputTime - 1e-12) {
+        if (time > outputTime - std::max(1e-12, timeTolerance)) {
             outputTime += outputDt;
             tecplotWriter.write(this->meshes_[0], solutionTitle_, false, this,
                                 time);
-- 
2.43.0


From 4733bf11c23402a1a11faf45a6da03e892e50dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:28 +0000
Subject: [PATCH 17/61] fix: adaptive time steps of a solution that vanishes

The estimate for the next time step was 0/0 when the solution and its update
were both zero, after which the time became NaN.
---
 kernel/Base/HpgemAPISimplified_Impl.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index e6ef675..1c39573 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -853,9 +853,15 @@ void HpgemAPISimplified<DIM>::computeOneTimeStep(
                           1. / ptrButcherTableau_->getOrder());
         }
     }
-    dtEstimate = 0.9 * dt *
-                 std::pow(maximumRelativeError / currentError * solutionNorm,
-                          1. / ptrButcherTableau_->getOrder());
+    if (currentError > 0) {
+        dtEstimate =
+            0.9 * dt *
+            std::pow(maximumRelativeError / currentError * solutionNorm,
+                     1. / ptrButcherTableau_->getOrder());
+    } else {
+        // avoid 0/0 if the solution vanishes as well
+        dtEstimate = std::numeric_limits<double>::infinity();
+    }
     logger(VERBOSE, "dt: %; new estimate: %", dt, dtEstimate);
     time += dt;
 }
-- 
2.43.0


From 0f5166df69a40e1e39c5ffc47c135cfec4399273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 18/61] fix: tensors in VTK files have nine components

---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..a756e7d 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From 62c54c03ab9592cdd498951a53232618f94f6cd9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:23:23 +0000
Subject: [PATCH 19/61] fix: gmsh elements without tags

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..dc3ef2d 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -357,7 +357,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From ff3d8ccfc8e1c90d683250989cd884986fc8e69d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:23:23 +0000
Subject: [PATCH 20/61] fix: linear tetrahedra in gmsh files

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index dc3ef2d..d3df598 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -321,7 +321,7 @@ void GmshReader::readElements() {
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
     // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From 1f96c614302b455dcbd6dfceea6544e9df034d9b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:23:38 +0000
Subject: [PATCH 21/61] fix: gmsh nodes that are not numbered consecutively

---
 applications/Preprocessor/lib/gmsh.cpp | 7 +++----
 applications/Preprocessor/lib/gmsh.h   | 3 +++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index d3df598..acd7904 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -299,6 +299,7 @@ void GmshReader::readNodes(double tol) {
         temp.nodeId =
             nodeTag - 1;  // gmsh ids are 1 indexed hpgem is zero indexed
         temp.coordinate = std::vector<double>{x, y, z};
+        nodeIndices_[nodeTag] = nodes_.size();
         nodes_.push_back(temp);
     }
     readSectionEnd("Nodes");
@@ -366,8 +367,7 @@ void GmshReader::readElements() {
         for (std::size_t i = 0; i < num_points; i++) {
             size_t nodetag;
             Filehandle_ >> nodetag;
-            // gmsh ids are 1 indexed hpgem is zero indexed
-            element.coordinates_.push_back(nodetag - 1);
+            element.coordinates_.push_back(nodeIndices_.at(nodetag));
         }
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
@@ -466,8 +466,7 @@ void GmshReader::readPBCs() {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
-            // gmsh is 1 indexed hpgem is zero indexed
-            merge[node2 - 1] = node1 - 1;
+            merge[nodeIndices_.at(node2)] = nodeIndices_.at(node1);
         }
     }
     readSectionEnd("Periodic");
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..0307230 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -135,6 +135,9 @@ class GmshReader final : public MeshSource2 {
     std::vector<MeshSource2::Element> elements_;
 
     std::vector<MeshSource2::Coord> nodes_;
+    /// Position in nodes_ of each gmsh node number. The numbers are neither
+    /// ordered nor consecutive in general.
+    std::map<std::size_t, std::size_t> nodeIndices_;
 
     std::ifstream Filehandle_;
     std::map<size_t, size_t> nodesPerElementtype_;
-- 
2.43.0


From ae85ae2b341bad833a02a3520890ba8459a8e24d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 22/61] fix: zones of Centaur meshes with several types of
 elements

---
 applications/Preprocessor/lib/centaur.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index 50a7c6c..aa4fc99 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -509,17 +509,19 @@ void CentaurReader::readZoneInfo() {
     // four different positions in the element vector.
 
     // Index in the element vector for the four different element types.
-    std::array<std::size_t, 4> positions({0, 0, 0, 0});
+    std::array<std::size_t, 4> starts({0, 0, 0, 0});
     // Set at the start of each element type
     for (std::size_t elemType = 1; elemType < 4; ++elemType) {
-        positions[elemType] =
-            positions[elemType - 1] + elementCount[elemType - 1];
+        starts[elemType] = starts[elemType - 1] + elementCount[elemType - 1];
     }
+    std::array<std::size_t, 4> positions = starts;
     for (const ZoneInformation& zone : zones) {
         std::string zoneName = zone.getZoneName();
         // Assign the zone for each elementtype
         for (std::size_t elemType = 0; elemType < 4; ++elemType) {
-            for (; positions[elemType] < zone.endOffsets[elemType];
+            // The offsets of the zones count the elements of one type
+            for (; positions[elemType] <
+                   starts[elemType] + zone.endOffsets[elemType];
                  ++positions[elemType]) {
                 elements[positions[elemType]].zoneName = zoneName;
             }
-- 
2.43.0


From 89fb855c0a9b41aaf064734b6bc33797d1a03a26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 23/61] fix: Centaur meshes without zones are in the default
 zone

---
 applications/Preprocessor/lib/centaur.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index aa4fc99..e011fe5 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -391,6 +391,9 @@ void CentaurReader::readZoneInfo() {
         }
         zones[0].endOffsets[0] = elementCount[0];
         zones[0].endOffsets[1] = elementCount[1];
+        for (MeshSource2::Element& element : elements) {
+            element.zoneName = zones[0].getZoneName();
+        }
         return;
     }
     GroupSize groupSize = readGroupSize(false);
-- 
2.43.0


From 668d8b00ec6aac4921217b0e8d4e2879ea1208a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 24/61] fix: gmsh files that only name entities of lower
 dimension

---
 applications/Preprocessor/lib/gmsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index acd7904..1ca3d6e 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -493,7 +493,8 @@ void GmshReader::convertRawElements() {
 
         if (element.physicalNameTag == Element::NO_TAG) {
             newElement.zoneName = "Main";
-        } else if (!physicalNames_.empty()) {
+        } else if (physicalNames_.size() > dimension_ &&
+                   !physicalNames_[dimension_].empty()) {
             newElement.zoneName =
                 physicalNames_[dimension_][element.physicalNameTag];
         } else {
-- 
2.43.0


From 5f64a689304caeca1ba427b62bc05000c854b8d0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 25/61] fix: preprocessor input files with a short name

---
 applications/Preprocessor/main.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/main.cpp b/applications/Preprocessor/main.cpp
index 6af283e..b0d5fe7 100644
--- a/applications/Preprocessor/main.cpp
+++ b/applications/Preprocessor/main.cpp
@@ -248,6 +248,12 @@ void processMesh(Preprocessor::Mesh<dimension> mesh) {
  * convert supported file formats to the hpGEM native format
  *
  */
+bool hasExtension(const std::string& fileName, const std::string& extension) {
+    return fileName.size() >= extension.size() &&
+           fileName.compare(fileName.size() - extension.size(),
+                            extension.size(), extension) == 0;
+}
+
 int main(int argc, char** argv) {
     auto start = std::chrono::steady_clock::now();
     Base::parse_options(argc, argv);
@@ -260,10 +266,9 @@ int main(int argc, char** argv) {
         std::string fileName = inputFileName.getValue();
         std::transform(fileName.begin(), fileName.end(), fileName.begin(),
                        tolower);
-        std::size_t nameSize = fileName.size();
         if ((fileType.isUsed() && fileType.getValue() == "hpgem") ||
             (!fileType.isUsed() &&
-             fileName.compare(nameSize - 6, 6, ".hpgem") == 0)) {
+             hasExtension(fileName, ".hpgem"))) {
             auto hpgemFile =
                 Preprocessor::HpgemReader(inputFileName.getValue());
             if (dimension.isUsed()) {
@@ -285,7 +290,7 @@ int main(int argc, char** argv) {
             }
         } else if ((fileType.isUsed() && fileType.getValue() == "centaur") ||
                    (!fileType.isUsed() &&
-                    fileName.compare(nameSize - 4, 4, ".hyb") == 0)) {
+                    hasExtension(fileName, ".hyb"))) {
             auto centaurFile =
                 Preprocessor::CentaurReader(inputFileName.getValue());
             if (dimension.isUsed()) {
@@ -308,7 +313,7 @@ int main(int argc, char** argv) {
             }
         } else if ((fileType.isUsed() && fileType.getValue() == "gmsh") ||
                    (!fileType.isUsed() &&
-                    fileName.compare(nameSize - 4, 4, ".msh") == 0)) {
+                    hasExtension(fileName, ".msh"))) {
             auto gmshFile = Preprocessor::GmshReader(inputFileName.getValue());
             if (dimension.isUsed()) {
                 logger.assert_always(
-- 
2.43.0


From b2c5340730c890be1d0fdfefa59a91d9d7216409 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 26/61] fix: coordinates of elements that are their own
 periodic neighbour

---
 applications/Preprocessor/lib/output_impl.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/applications/Preprocessor/lib/output_impl.h b/applications/Preprocessor/lib/output_impl.h
index 82fb591..7d9f8a4 100644
--- a/applications/Preprocessor/lib/output_impl.h
+++ b/applications/Preprocessor/lib/output_impl.h
@@ -178,10 +178,19 @@ void outputMesh(Mesh<dimension>& mesh,
     output << "elements" << std::endl;
     for (auto element : mesh.getElements()) {
         output << element.getNumberOfNodes() << " ";
-        for (auto node : element.getNodesList()) {
+        auto nodes = element.getNodesList();
+        for (std::size_t i = 0; i < nodes.size(); ++i) {
+            const auto& node = nodes[i];
             output << node.getGlobalIndex().id << " ";
-            output << coordinateIndices[node][node.getElementIndex(element)]
-                   << " ";
+            // A node can be present more than once in an element that is
+            // connected to itself by periodicity
+            for (std::size_t j = 0; j < node.getNumberOfElements(); ++j) {
+                if (node.getElement(j) == element &&
+                    node.getLocalIndex(j).id == i) {
+                    output << coordinateIndices[node][j] << " ";
+                    break;
+                }
+            }
         }
         output << partitions[element] << " ";
         std::set<std::size_t> shadowPartitions;
-- 
2.43.0


From 7f72bf64b8aa2835e2e8374ac4aced6fa7f30041 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:46:20 +0000
Subject: [PATCH 27/61] fix: indices of faces of one-dimensional meshes on
 several processes

---
 kernel/Base/MeshManipulator_Impl.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index a74f184..bae4a4d 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1597,7 +1597,9 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
 
     // we need some leeway later on to synchronize face indices with node
     // indices later on
-    if (DIM == 1) GlobalUniqueIndex::instance().getNodeIndex();
+    std::size_t firstNodeIndex = 0;
+    if (DIM == 1)
+        firstNodeIndex = GlobalUniqueIndex::instance().getNodeIndex() + 1;
 
     for (std::size_t i = 0; i < numberOfNodes; ++i) {
         std::size_t nodePartitions;
@@ -1822,12 +1824,15 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         }
     }
 
-    std::size_t lastIndex = GlobalUniqueIndex::instance().getFaceIndex();
+    GlobalUniqueIndex::instance().getFaceIndex();
 
     if (DIM == 1) {
+        // every process reserves an index for each node in the file, so that
+        // all of them use the same index for the same face
+        std::size_t reserved = 0;
         logger.suppressWarnings([&]() {
             for (auto node : getNodesList(Base::IteratorType::GLOBAL)) {
-                while (lastIndex++ < node->getID() - 1)
+                for (; reserved < node->getID() - firstNodeIndex; ++reserved)
                     GlobalUniqueIndex::instance().getFaceIndex();
                 if (node->getNumberOfElements() == 1) {
                     addFace(node->getElement(0), node->getNodeNumber(0),
@@ -1836,8 +1841,11 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                     addFace(node->getElement(0), node->getNodeNumber(0),
                             node->getElement(1), node->getNodeNumber(1));
                 }
+                ++reserved;
             }
         });
+        for (; reserved < numberOfNodes; ++reserved)
+            GlobalUniqueIndex::instance().getFaceIndex();
     }
 
     for (auto pair : getPullElements()) {
-- 
2.43.0


From 51efc5b302227a1c3f0903ea85b433e8f3117125 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 28/61] fix: normal jump penalty of DivDGMax multiplies the
 jumps of both functions

The interior penalty form of the second flux overwrote the jump of the test
function with that of the trial function, so the matrix was not that of the
penalty on the jump of the normal component.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..446b5bc 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -645,7 +645,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From 1c01e7c4d3d610601668971730cb6fed04d492b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 29/61] fix: energy fluxes of DivDGMax take the coefficients of
 the right element

The coefficients on the face are those of the field only, first of the left and
then of the right element. The index used was that for coefficients with the
potential in between, and too large even for those.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 446b5bc..39d5606 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,8 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From 5a5511a4acecb42fca5a6cfd8dd80b8beb5fb3b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 30/61] fix: field integral of DivDGMax over the right side of
 a face

The functions and coefficients on a face are those of the field, so those of the
right element come after the field functions of the left element.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 39d5606..bb9d347 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -421,7 +421,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From 30a421b9562b1f31bd831a38e82b6d34f9e33751 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 31/61] fix: DivDGMax adds the Brezzi boundary term only with
 that flux

The term belongs to the first flux. It was added too when only one of the
others is of the Brezzi type, where the bilinear form has no counterpart.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index bb9d347..5af6419 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From c627d68c2e030190966ff0cfd30933c0b2e8bcfb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 32/61] fix: normal lift of DivDGMax uses the permittivity of
 the right element

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 5af6419..c874be9 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -960,7 +960,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From f3dc665fea2fbdb2d8fbbde0850e8ca08caa2578 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 33/61] fix: Brezzi normal penalty of DivDGMax with complex
 materials

The stabilizer was formed with the plain transpose, which is not Hermitian for
the complex material tensor of a PML, and the assertion on it did not allow for
the rounding errors of the products.
---
 .../DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index c874be9..09a1363 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -1105,8 +1105,13 @@ LinearAlgebra::MiddleSizeMatrix
         pmassMat.cholesky();
         LinearAlgebra::MiddleSizeMatrix vectorStabilizer =
             computeVectorNormalLiftProjector(face);
-        pmassMat.solveLowerTriangular(vectorStabilizer);  // L^{-T} S
-        vectorStabilizer = vectorStabilizer.transpose() * vectorStabilizer;
+        pmassMat.solveLowerTriangular(vectorStabilizer);  // L^{-1} S
+        // The material tensor may be complex, hence the conjugate transpose
+        LinearAlgebra::MiddleSizeMatrix adjoint = vectorStabilizer.transpose();
+        for (std::size_t i = 0; i < adjoint.size(); ++i) {
+            adjoint[i] = std::conj(adjoint[i]);
+        }
+        vectorStabilizer = adjoint * vectorStabilizer;
         vectorStabilizer *= stab_.stab2;
         // Copy stabilizer to result matrix
         distributeFaceMatrix(faceInfo, true, vectorStabilizer, result);
@@ -1125,7 +1130,12 @@ LinearAlgebra::MiddleSizeMatrix
         // Copy the scalar stabilizer into the result matrix
         distributeFaceMatrix(faceInfo, false, scalarStabilizer, result);
     }
-    logger.assert_debug(result.isHermitian(0),
+    // Hermitian up to the rounding errors in the products
+    double size = 0.0;
+    for (std::size_t i = 0; i < result.size(); ++i) {
+        size = std::max(size, std::abs(result[i]));
+    }
+    logger.assert_debug(result.isHermitian(1e-12 * size),
                         "Non Hermitian penalty parameter.");
     return result;
 }
-- 
2.43.0


From 5cc6ccd996a4f18ccdcbd59b4fc2c256f921a696 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:27:25 +0000
Subject: [PATCH 34/61] fix: energy fluxes between elements of different
 permeability

The average of the curls was divided by the permeability of one of the elements.
What is continuous, and has to be averaged, is the curl divided by the
permeability of the element itself.
---
 .../DG-Max/Algorithms/DGMaxDiscretization.cpp | 25 +++++++++++++------
 .../Algorithms/DivDGMaxDiscretization.cpp     | 22 +++++++++++-----
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..56c9dce 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -684,9 +684,21 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
 
     double factor = face.isInternal() ? 0.5 : 1.0;
 
+    // The flux of curl(E)/mu is the average of the values on both sides. The
+    // permeability of the chosen side is divided out at the end.
+    const double mu = ElementInfos::get(*face.getPtrElement(side)).getPermeability();
+    const double leftFactor =
+        factor * mu /
+        ElementInfos::get(*face.getPtrElementLeft()).getPermeability();
+    const double rightFactor =
+        face.isInternal()
+            ? factor * mu /
+                  ElementInfos::get(*face.getPtrElementRight()).getPermeability()
+            : 0.0;
+
     auto flux = faceIntegrator_.integrate(
-        &face,
-        [&coefficients, &factor, background](Base::PhysicalFace<DIM>& pface) {
+        &face, [&coefficients, &factor, leftFactor, rightFactor, leftDoFs,
+                background](Base::PhysicalFace<DIM>& pface) {
             LinearAlgebra::SmallVector<4> result;
             // Average curl of the field
             VecC avgCurl;
@@ -695,8 +707,8 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
             for (int i = 0; i < pface.getNumberOfBasisFunctions(); ++i) {
-                avgCurl +=
-                    factor * coefficients[i] * pface.basisFunctionCurl(i);
+                avgCurl += (i < leftDoFs ? leftFactor : rightFactor) *
+                           coefficients[i] * pface.basisFunctionCurl(i);
                 pface.basisFunction(i, phi);
                 avgE += factor * coefficients[i] * normal.crossProduct(phi);
             }
@@ -724,10 +736,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
     if (side == hpgem::Base::Side::RIGHT) {
         flux *= -1.0;
     }
-    auto infos =
-        dynamic_cast<ElementInfos*>(face.getPtrElement(side)->getUserData());
-    logger.assert_debug(infos != nullptr, "No material information");
-    return flux / (wavenumber * infos->getPermeability());
+    return flux / (wavenumber * mu);
 }
 
 template <std::size_t DIM>
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 09a1363..a438d6c 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -374,8 +374,20 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
 
     double factor = face.isInternal() ? 0.5 : 1.0;
 
+    // The flux of curl(E)/mu is the average of the values on both sides. The
+    // permeability of the chosen side is divided out at the end.
+    const double mu = ElementInfos::get(*face.getPtrElement(side)).getPermeability();
+    const double leftFactor =
+        factor * mu /
+        ElementInfos::get(*face.getPtrElementLeft()).getPermeability();
+    const double rightFactor =
+        face.isInternal()
+            ? factor * mu /
+                  ElementInfos::get(*face.getPtrElementRight()).getPermeability()
+            : 0.0;
+
     auto flux = faceIntegrator_.integrate(
-        &face, [&coefficients, &dofInfo, &factor,
+        &face, [&coefficients, &dofInfo, &factor, leftFactor, rightFactor,
                 background](Base::PhysicalFace<DIM>& pface) {
             LinearAlgebra::SmallVector<4> result;
             VecC avgCurl;
@@ -384,7 +396,8 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC normal = pface.getUnitNormalVector();
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
                 const auto& coefficient = coefficients[i];
-                avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
+                avgCurl += (i < dofInfo.leftUDoFs ? leftFactor : rightFactor) *
+                           coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
             }
@@ -406,10 +419,7 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
     if (side == hpgem::Base::Side::RIGHT) {
         flux *= -1.0;
     }
-    auto infos =
-        dynamic_cast<ElementInfos*>(face.getPtrElement(side)->getUserData());
-    logger.assert_debug(infos != nullptr, "No material information");
-    return flux / (wavenumber * infos->getPermeability());
+    return flux / (wavenumber * mu);
 }
 
 template <std::size_t DIM>
-- 
2.43.0


From 10f0afa8e5739e44fa2815c652d622512feaef9d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 35/61] fix: DGMaxEigenvalue keeps the eigenvectors of the
 previous k-point

They were combined and projected in place to start the next solve, so the
overlap integrals of the next k-point used modified vectors.
---
 .../DG-Max/Algorithms/DGMaxEigenvalue.cpp     | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
index 1f099a7..92b08ae 100644
--- a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
@@ -631,36 +631,48 @@ void DGMaxEigenvalue<DIM>::SolverWorkspace::solve(
     // Setup search space //
     ////////////////////////
 
+    // The search space is a copy, as the eigenvectors of the previous k-point
+    // are still needed for the overlap integrals.
+    PetscInt initialSize = std::max<PetscInt>(1, eigenpairs_.size());
+    Vec* initialSpace;
+    error = VecDuplicateVecs(tempFieldVector_, initialSize, &initialSpace);
+    CHKERRABORT(PETSC_COMM_WORLD, error);
+
     if (eigenpairs_.size() == 0) {
         // Generate fresh starting vector
-        eigenpairs_.reserve(1, tempFieldVector_);
         DGMaxLogger(INFO, "Generating initial vector");
-        error = VecSetRandom(eigenpairs_.getRawEigenvectors()[0], nullptr);
+        error = VecSetRandom(initialSpace[0], nullptr);
         CHKERRABORT(PETSC_COMM_WORLD, error);
     } else {
         DGMaxLogger(INFO, "Combining previous eigen vectors");
-        for (PetscInt j = 1; j < eigenpairs_.size(); ++j) {
+        for (PetscInt j = 0; j < initialSize; ++j) {
+            error =
+                VecCopy(eigenpairs_.getRawEigenvectors()[j], initialSpace[j]);
+            CHKERRABORT(PETSC_COMM_WORLD, error);
+        }
+        for (PetscInt j = 1; j < initialSize; ++j) {
             // Some eigenvalue solvers only uses a single starting vector.
             // Mix the eigenvalue spaces from the previous k-point in the
             // hope that these are rich in the eigenvectors for the next
             // space.
-            error = VecAYPX(eigenpairs_.getRawEigenvectors()[0], 1,
-                            eigenpairs_.getRawEigenvectors()[j]);
+            error = VecAYPX(initialSpace[0], 1, initialSpace[j]);
             CHKERRABORT(PETSC_COMM_WORLD, error);
         }
         // Add all previous eigenvectors to the eigenvalue solver, even
         // if they are not all used.
     }
     if (config_.useProjector_ != DGMaxEigenvalueBase::NONE) {
-        for (std::size_t j = 0; j < eigenpairs_.size(); ++j) {
-            projector->project(eigenpairs_.getRawEigenvectors()[j]);
+        for (PetscInt j = 0; j < initialSize; ++j) {
+            projector->project(initialSpace[j]);
         }
         DGMaxLogger(INFO, "Projected initial vector");
     }
 
     // Use solution of previous time as starting point for the next one.
-    error = EPSSetInitialSpace(solver_, eigenpairs_.size(),
-                               eigenpairs_.getRawEigenvectors());
+    error = EPSSetInitialSpace(solver_, initialSize, initialSpace);
+    CHKERRABORT(PETSC_COMM_WORLD, error);
+    // The solver keeps its own reference
+    error = VecDestroyVecs(initialSize, &initialSpace);
     CHKERRABORT(PETSC_COMM_WORLD, error);
 
     // Final Options //
-- 
2.43.0


From 48ca9b0fbb8c65f35381deebc14f64e8eb2c58ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 36/61] fix: field overlap of DGMaxEigenvalue uses the mass
 matrix

The stored matrix is the inverse of the mass matrix or its Cholesky factor.
---
 .../DG-Max/Algorithms/DGMaxEigenvalue.cpp     | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
index 92b08ae..0fac7c6 100644
--- a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
@@ -739,9 +739,30 @@ LinearAlgebra::MiddleSizeMatrix
     LinearAlgebra::MiddleSizeMatrix result(eigenpairs_.size(),
                                            previousEigenpairs_.size());
     PetscErrorCode err;
+    KSP massSolver = nullptr;
+    if (!config_.useHermitian_) {
+        // massMatrix_ is the inverse of the mass matrix, with a block per
+        // element. The incomplete factorization of that is exact.
+        PC pc;
+        err = KSPCreate(PETSC_COMM_WORLD, &massSolver);
+        CHKERRABORT(PETSC_COMM_WORLD, err);
+        err = KSPSetType(massSolver, KSPPREONLY);
+        CHKERRABORT(PETSC_COMM_WORLD, err);
+        err = KSPSetOperators(massSolver, massMatrix_, massMatrix_);
+        CHKERRABORT(PETSC_COMM_WORLD, err);
+        err = KSPGetPC(massSolver, &pc);
+        CHKERRABORT(PETSC_COMM_WORLD, err);
+        err = PCSetType(pc, PCBJACOBI);
+        CHKERRABORT(PETSC_COMM_WORLD, err);
+    }
     for (std::size_t i = 0; i < eigenpairs_.size(); ++i) {
-        err = MatMult(massMatrix_, eigenpairs_.getEigenvector(i),
-                      tempFieldVector_);
+        if (config_.useHermitian_) {
+            // The basis is orthonormal
+            err = VecCopy(eigenpairs_.getEigenvector(i), tempFieldVector_);
+        } else {
+            err = KSPSolve(massSolver, eigenpairs_.getEigenvector(i),
+                           tempFieldVector_);
+        }
         CHKERRABORT(PETSC_COMM_WORLD, err);
         for (std::size_t j = 0; j < previousEigenpairs_.size(); ++j) {
             // Note VecMDot might be a bit faster, but
@@ -753,6 +774,8 @@ LinearAlgebra::MiddleSizeMatrix
             CHKERRABORT(PETSC_COMM_WORLD, err);
         }
     }
+    err = KSPDestroy(&massSolver);
+    CHKERRABORT(PETSC_COMM_WORLD, err);
     return result;
 }
 
-- 
2.43.0


From 43f3ce8b50d9669729a4e159d7411e1eb734d7a4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:36:04 +0000
Subject: [PATCH 37/61] fix: Bragg stack root finder loses a root when two lie
 in one interval

---
 applications/DG-Max/Utils/BraggStackBandstructure.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/applications/DG-Max/Utils/BraggStackBandstructure.cpp b/applications/DG-Max/Utils/BraggStackBandstructure.cpp
index 0148ed5..3c3159f 100644
--- a/applications/DG-Max/Utils/BraggStackBandstructure.cpp
+++ b/applications/DG-Max/Utils/BraggStackBandstructure.cpp
@@ -172,6 +172,14 @@ void BraggStackBandstructure::findRootsInterval(
         double fc = func(c), fd = func(d);
 
         bool rootsFound = false;
+        if (fc < 0 || fd < 0) {
+            // One of the initial internal points is already beyond the zeros,
+            // shrinking the interval could lose one of them.
+            double mid = fc < 0 ? c : d;
+            out.emplace_back(bisect(func, a, mid));
+            out.emplace_back(bisect(func, mid, b));
+            rootsFound = true;
+        }
         // Golden section loop
         while (std::abs(c - d) > 1e-8 && !rootsFound) {
             if (fc < fd) {
-- 
2.43.0


From 85fc779ae61a5b139b699338e0ba49d36a8ffe86 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:36:04 +0000
Subject: [PATCH 38/61] fix: homogeneous band structure misses lines far from
 the first point

---
 .../DG-Max/Utils/HomogeneousBandStructure.cpp | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/applications/DG-Max/Utils/HomogeneousBandStructure.cpp b/applications/DG-Max/Utils/HomogeneousBandStructure.cpp
index c674458..6adbd58 100644
--- a/applications/DG-Max/Utils/HomogeneousBandStructure.cpp
+++ b/applications/DG-Max/Utils/HomogeneousBandStructure.cpp
@@ -108,6 +108,14 @@ std::unique_ptr<typename BandStructure<DIM>::LineSet>
     // Identify the resulting lines/modes by the two coordinates, x,y
     // and associate with it the multiplicity.
     std::map<LinearAlgebra::SmallVector<2>, std::size_t> modes;
+    // Lattice points below maxFrequency need not be neighbours of each other or
+    // of those near point1. They are connected via points that are half a cell
+    // further away.
+    double halfCell = 0;
+    for (const LinearAlgebra::SmallVector<DIM>& vec : reciprocalVectors_) {
+        halfCell += 0.5 * vec.l2Norm();
+    }
+    halfCell /= std::sqrt(permittivity_);
 
     for (LatticePoint<DIM> n :
          LatticePoint<DIM>::getNearestNeighbours(point1, reciprocalVectors_)) {
@@ -127,20 +135,22 @@ std::unique_ptr<typename BandStructure<DIM>::LineSet>
         // Note that x=0 corresponds to k1, and x=-l corresponds to k2.
         double xmin = intervalDist(x, -l, 0);
         double fmin = std::sqrt(xmin * xmin + y * y) / std::sqrt(permittivity_);
-        if (fmin > maxFrequency) {
+        if (fmin > maxFrequency + halfCell) {
             continue;
         }
-        // Add the point to the result
-        LinearAlgebra::SmallVector<2> newMode({x, y});
-        bool added = false;
-        for (auto& mode : modes) {
-            if ((mode.first - newMode).l2NormSquared() < 1e-10) {
-                mode.second++;
-                added = true;
+        if (fmin <= maxFrequency) {
+            // Add the point to the result
+            LinearAlgebra::SmallVector<2> newMode({x, y});
+            bool added = false;
+            for (auto& mode : modes) {
+                if ((mode.first - newMode).l2NormSquared() < 1e-10) {
+                    mode.second++;
+                    added = true;
+                }
+            }
+            if (!added) {
+                modes[newMode] = 1;
             }
-        }
-        if (!added) {
-            modes[newMode] = 1;
         }
 
         for (LatticePoint<DIM> n : p.getNeighbours()) {
-- 
2.43.0


From a71297f3334c1c8360ed75d1f9bc6954690e9b7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 39/61] fix: homogeneous spectrum misses modes on skewed
 lattices

---
 .../DG-Max/Utils/HomogeneousBandStructure.cpp | 54 +++++++++----------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/applications/DG-Max/Utils/HomogeneousBandStructure.cpp b/applications/DG-Max/Utils/HomogeneousBandStructure.cpp
index 6adbd58..82ecf96 100644
--- a/applications/DG-Max/Utils/HomogeneousBandStructure.cpp
+++ b/applications/DG-Max/Utils/HomogeneousBandStructure.cpp
@@ -2,6 +2,7 @@
 #include "HomogeneousBandStructure.h"
 #include "BandstructureUtils.h"
 
+#include <algorithm>
 #include <queue>
 #include <iostream>
 
@@ -19,9 +20,17 @@ std::vector<double> HomogeneousBandStructure<DIM>::computeLinearSpectrum(
     // Using this order so that points are first ordered by frequency.
     using Key = std::tuple<double, LatticePoint<DIM>>;
 
-    // Abusing a set as priority queue, so that we can check if points have
-    // already been entered into it.
+    // Abusing a set as priority queue.
     std::set<Key> queue;
+    // Points that are in the queue or have been in the queue.
+    std::set<LatticePoint<DIM>> considered;
+    // Lattice points below maxFrequency are connected to the nearest ones via
+    // points that are at most half a cell further away.
+    double halfCell = 0;
+    for (const LinearAlgebra::SmallVector<DIM>& vec : reciprocalVectors_) {
+        halfCell += 0.5 * vec.l2Norm();
+    }
+    halfCell /= std::sqrt(permittivity_);
     {
         std::vector<LatticePoint<DIM>> points =
             LatticePoint<DIM>::getNearestNeighbours(kpoint, reciprocalVectors_);
@@ -29,8 +38,7 @@ std::vector<double> HomogeneousBandStructure<DIM>::computeLinearSpectrum(
             LinearAlgebra::SmallVector<DIM> dk =
                 p.k(reciprocalVectors_) - kpoint;
             double frequency = dk.l2Norm() / std::sqrt(permittivity_);
-            if (frequency > maxFrequency) continue;
-
+            considered.emplace(p);
             queue.emplace(frequency, p);
         }
     }
@@ -47,39 +55,31 @@ std::vector<double> HomogeneousBandStructure<DIM>::computeLinearSpectrum(
         std::tie(frequency, point) = *next;
         queue.erase(next);
 
-        // Insert in the frequency table
-        frequencies.emplace_back(frequency);
-        // Two polarization modes for 3D
-        if (DIM > 2) {
-            frequencies.emplace_back(frequency);
-        }
-        // Zero mode has an extra mode, (thus for each cardinal direction once)
-        if (std::abs(frequency) < 1e-12) {
+        if (frequency <= maxFrequency) {
+            // Insert in the frequency table
             frequencies.emplace_back(frequency);
+            // Two polarization modes for 3D
+            if (DIM > 2) {
+                frequencies.emplace_back(frequency);
+            }
+            // Zero mode has an extra mode, (thus for each cardinal direction
+            // once)
+            if (std::abs(frequency) < 1e-12) {
+                frequencies.emplace_back(frequency);
+            }
         }
 
         for (LatticePoint<DIM> n : point.getNeighbours()) {
             double neighbourFrequency =
                 (n.k(reciprocalVectors_) - kpoint).l2Norm() /
                 std::sqrt(permittivity_);
-            if (neighbourFrequency > frequency &&
-                neighbourFrequency < maxFrequency) {
-                // Prevent double insertion by checking if the neighbour is
-                // already in the queue. We explicitly check the
-                // coordinates, as the frequency is a floating point number.
-                bool found = false;
-                for (auto iter = queue.begin(); iter != queue.end(); ++iter) {
-                    if (std::get<1>(*iter) == n) {
-                        found = true;
-                        break;
-                    }
-                }
-                if (!found) {
-                    queue.emplace(neighbourFrequency, n);
-                }
+            if (neighbourFrequency < maxFrequency + halfCell &&
+                considered.emplace(n).second) {
+                queue.emplace(neighbourFrequency, n);
             }
         }
     }
+    std::sort(frequencies.begin(), frequencies.end());
     return frequencies;
 }
 
-- 
2.43.0


From 10dadd1f8c2bcce3af0b51f13501614d7847f6b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 40/61] fix: Bragg stack counts a touching root near a sample
 point three times

---
 .../DG-Max/Utils/BraggStackBandstructure.cpp  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/applications/DG-Max/Utils/BraggStackBandstructure.cpp b/applications/DG-Max/Utils/BraggStackBandstructure.cpp
index 3c3159f..a894612 100644
--- a/applications/DG-Max/Utils/BraggStackBandstructure.cpp
+++ b/applications/DG-Max/Utils/BraggStackBandstructure.cpp
@@ -117,13 +117,32 @@ void BraggStackBandstructure::findRootsInterval(
     std::vector<double>& out) const {
     double fval1 = tm ? valuetm(omin, k) : valuete(omin, k);
     double fval2 = tm ? valuetm(omax, k) : valuete(omax, k);
+    // Distance within which roots are attributed to an endpoint that is very
+    // close to a root.
+    const double margin = std::min(3e-4, 0.1 * (omax - omin));
     if (std::abs(fval1) < 1e-8) {
         // Left endpoint is small enough to expect there to be a root very
         // nearby either due to finite precision in computing f, or in the point
         // omin. We do not do the same check for fval2 to prevent duplicate
         // detection.
         out.emplace_back(omin);
-    } else if (std::abs(fval2) > 1e-8 && fval1 * fval2 < 0) {
+        // If f does not change sign it only touches (or nearly touches) zero,
+        // so that there are two roots. Except at zero, as f is even.
+        const double left = omin - margin, right = omin + margin;
+        const double fleft = tm ? valuetm(left, k) : valuete(left, k);
+        const double fright = tm ? valuetm(right, k) : valuete(right, k);
+        if (omin > 0 && fleft * fright > 0) {
+            out.emplace_back(omin);
+        }
+        omin = right;
+        fval1 = fright;
+    }
+    if (std::abs(fval2) < 1e-8) {
+        // The roots near the right endpoint belong to the next interval
+        omax -= margin;
+        fval2 = tm ? valuetm(omax, k) : valuete(omax, k);
+    }
+    if (fval1 * fval2 < 0) {
         // We have different signs of fval1 and fval2 thus there must be a zero
         // crossing inbetween omin and omax.
         std::function<double(double)> func = [=](double o) {
-- 
2.43.0


From 9748515d329e834fbf0e5f684a08a8fbaaabd7b4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 07:06:31 +0000
Subject: [PATCH 41/61] fix: index of functions of the right element of a face
 skips all functions of the left

---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From 01635fed308877f36c98a0777868df7f645a7982 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 07:22:06 +0000
Subject: [PATCH 42/61] fix: trees with branches of different lengths are not
 walked completely

The end of a level by level walk was taken to be behind the last root's last
descendant, which need not be on the last level; walking back from the end
started there too. Iterators on different levels of one entry compared equal,
and walking back in post-order kept the level of the parent.
---
 kernel/Base/LevelTree_Impl.h | 12 ++++++++----
 kernel/Base/TreeIterator.h   |  8 +++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index 811b277..d53349b 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -137,12 +137,14 @@ TreeIterator<V> LevelTree<V>::end() {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
@@ -176,12 +178,14 @@ TreeIteratorConst<V> LevelTree<V>::end() const {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index ce96767..1ae711f 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -263,7 +263,7 @@ class TreeIterator {
         // more elaborate
         if (ptr_ != end_ && traversalMethod_ == i.traversalMethod_ &&
             i.ptr_ != i.end_) {
-            return *ptr_ == *i.ptr_;
+            return *ptr_ == *i.ptr_ && depthCounter_ == i.depthCounter_;
         }
         // a == b implies ++a == ++b, and --a == --b implies a == b, but the
         // reverses are not required and having one end() for all
@@ -583,6 +583,7 @@ class TreeIterator {
                 moveToParent();
             }
             --ptr_;
+            depthCounter_ = 0;
         }
     }
 
@@ -605,10 +606,15 @@ class TreeIterator {
             "iterator has to be dereferenceable to be incrementable");
         moveToNextOnLevel();
         if (ptr_ == end_) {
+            TreeIterator pastTheEnd = *this;
             --ptr_;
             std::size_t level = (*ptr_)->getLevel() + depthCounter_ + 1;
             // will move to end_ again if this was the last level
             moveToFirstOnLevel(level);
+            if (ptr_ == end_) {
+                // stay just past the last entry of the last level
+                *this = pastTheEnd;
+            }
         }
     }
 
-- 
2.43.0


From 2132db82d35062e712a0b052416fd63cc559d3b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:26:21 +0000
Subject: [PATCH 43/61] fix: source term of Euler uses the pressure of the
 numerical solution

---
 applications/Euler/Euler_Impl.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/applications/Euler/Euler_Impl.h b/applications/Euler/Euler_Impl.h
index 5dea76c..7c8869b 100644
--- a/applications/Euler/Euler_Impl.h
+++ b/applications/Euler/Euler_Impl.h
@@ -192,14 +192,22 @@ LinearAlgebra::MiddleSizeVector Euler<DIM>::integrandSourceAtElement(
                              sourceValue(iD + 1);  // dp/dx or dp/dy or dp/dz
     }
 
+    // Pressure of the exact state
+    double exactPressure = 0.0;
+    for (std::size_t iD = 0; iD < DIM; iD++) {
+        exactPressure += exactState(iD + 1) * exactState(iD + 1);
+    }
+    exactPressure = (gamma_ - 1) * (exactState(DIM + 1) -
+                                    0.5 * inverseDensity * exactPressure);
+
     // Calculate Source term values: Enthalpy convection
     LinearAlgebra::MiddleSizeVector sourceEnthalpy(DIM);
     for (std::size_t iD = 0; iD < DIM; iD++) {
         sourceEnthalpy(iD) =
             (exactState(iD + 1) + exactState(DIM + 1) -
              exactState(iD + 1) * exactState(DIM + 1) * inverseDensity +
-             pressureTerm -
-             exactState(iD + 1) * pressureTerm * inverseDensity) *
+             exactPressure -
+             exactState(iD + 1) * exactPressure * inverseDensity) *
                 sourceValue(iD + 1) * inverseDensity +
             exactState(iD + 1) * inverseDensity *
                 sourcePressure(iD);  // d(rho*u*h)/dx or d(rho*v*h)/dy or
-- 
2.43.0


From 4a366689c34f3465040798d7e3ba5b1191b6ab0a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:26:21 +0000
Subject: [PATCH 44/61] fix: states on both sides of a wall are swapped in
 Euler

---
 applications/Euler/Euler_Impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Euler/Euler_Impl.h b/applications/Euler/Euler_Impl.h
index 7c8869b..5f9a067 100644
--- a/applications/Euler/Euler_Impl.h
+++ b/applications/Euler/Euler_Impl.h
@@ -553,7 +553,7 @@ LinearAlgebra::MiddleSizeVector Euler<DIM>::integrandRightHandSideOnRefFace(
     // Compute flux
     // todo:RoeRiemannFluxFunction might benefit from features of PhysicalFace
     LinearAlgebra::MiddleSizeVector flux = RoeRiemannFluxFunction(
-        qReconstructionRight, qReconstructionLeft, normal);
+        qReconstructionLeft, qReconstructionRight, normal);
 
     // todo: Other implementation is simply to put the flux to zero. No mass,
     // momentum and energy should get out. This saves computational time
-- 
2.43.0


From 8dcb8e1ee5cc3dbb2c4a01e91fa700638e0bf97f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:31:41 +0000
Subject: [PATCH 45/61] fix: weights of the unknowns are swapped in the energy
 of the acoustic wave

---
 .../ExampleMultipleVariableProblem/AcousticWaveLinear_Impl.h    | 2 +-
 applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/ExampleMultipleVariableProblem/AcousticWaveLinear_Impl.h b/applications/ExampleMultipleVariableProblem/AcousticWaveLinear_Impl.h
index db65bca..3b4a461 100644
--- a/applications/ExampleMultipleVariableProblem/AcousticWaveLinear_Impl.h
+++ b/applications/ExampleMultipleVariableProblem/AcousticWaveLinear_Impl.h
@@ -299,7 +299,7 @@ double AcousticWaveLinear<DIM>::integrandErrorOnRefElement(
         element.getSolution();
 
     for (std::size_t jV = 0; jV < numberOfVariables_; jV++) {
-        if (jV > 0) {
+        if (jV == 0) {
             integrand += std::pow(numericalSolution(jV) - realSolution(jV), 2);
         } else {
             integrand += getCInv(pPhys) *
diff --git a/applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h b/applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h
index 5eab10e..e0efeeb 100644
--- a/applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h
+++ b/applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h
@@ -389,7 +389,7 @@ double AcousticWave<DIM>::integrandErrorOnRefElement(
         element.getSolution();
 
     for (std::size_t jV = 0; jV < numberOfVariables_; jV++) {
-        if (jV > 0) {
+        if (jV == 0) {
             integrand += std::pow(numericalSolution(jV) - realSolution(jV), 2);
         } else {
             integrand += getCInv(pPhys) *
-- 
2.43.0


From 469d503198e3062156b16adc5deeac746b4d11f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 46/61] fix: options accept empty, incomplete, too large and
 negative unsigned numbers

---
 kernel/Base/CommandLineOptions.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/CommandLineOptions.h b/kernel/Base/CommandLineOptions.h
index 0bfdc35..6037d98 100644
--- a/kernel/Base/CommandLineOptions.h
+++ b/kernel/Base/CommandLineOptions.h
@@ -151,7 +151,11 @@ typename std::enable_if<
     std::istringstream arg(*p);
     T retVal = 0;
     arg >> retVal;
-    if (!arg.eof()) {
+    // Reading sets fail() for an empty, incomplete or too large number, but
+    // accepts (and wraps around) negative numbers for unsigned types.
+    bool wrongSign = std::is_unsigned<T>::value &&
+                     std::string(*p).find('-') != std::string::npos;
+    if (arg.fail() || !arg.eof() || wrongSign) {
         std::string error = "Argument could not be converted to ";
         if (std::is_unsigned<T>::value) error += "unsigned ";
 
-- 
2.43.0


From 92b2846836df02e85fc63f7e803803024885d823 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:13:08 +0000
Subject: [PATCH 47/61] fix: CO4 time integration ignores source and boundary
 conditions

---
 .../Algorithms/DGMaxTimeIntegration.cpp       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index 7f44443..67244c3 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -240,19 +240,27 @@ void DGMaxTimeIntegration<DIM>::solve(
                 CHKERRABORT(PETSC_COMM_WORLD, error);
 
                 sourceTime = t + (alpha_sum[k - 1] + beta_sum[k - 1]) * tau;
-                double eta = input.timeScalingBoundary(sourceTime);
-                // error = VecCopy(RHS_, dummy2);
+                error = VecCopy(rhsBoundary, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-                error = VecScale(dummy2, beta[k] * tau * eta);
+                error = VecScale(dummy2, input.timeScalingBoundary(sourceTime));
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecAXPY(dummy2, input.timeScalingSource(sourceTime),
+                                rhsSource);
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecScale(dummy2, beta[k] * tau);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
                 VecAYPX(dummy, -(beta[k] + alpha[k]) * tau, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
 
                 sourceTime = t + (alpha_sum[k] + beta_sum[k]) * tau;
-                eta = input.timeScalingBoundary(sourceTime);
-                // error = VecCopy(RHS_, dummy2);
+                error = VecCopy(rhsBoundary, dummy2);
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecScale(dummy2, input.timeScalingBoundary(sourceTime));
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecAXPY(dummy2, input.timeScalingSource(sourceTime),
+                                rhsSource);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-                error = VecScale(dummy2, alpha[k] * tau * eta);
+                error = VecScale(dummy2, alpha[k] * tau);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
                 error = VecAXPY(dummy, 1.0, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-- 
2.43.0


From 899860f35c6a0bd0029268fe93c65d3c815f063c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:13:08 +0000
Subject: [PATCH 48/61] fix: the last time step is not stored when it is not a
 multiple of the snapshot stride

---
 .../DG-Max/Algorithms/DGMaxTimeIntegration.cpp     | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index 67244c3..0f26125 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -279,14 +279,12 @@ void DGMaxTimeIntegration<DIM>::solve(
         // getArrayRead only gets local values, so make the entire std::vector
         // local
     }
-    // Save the last snapshot if needed.
-    if (parameters.numberOfSteps % parameters.snapshotStride == 0) {
-        logger(DEBUG, "Writing snapshot at timestep %, (t=%)",
-               parameters.numberOfSteps, t);
-        resultVector.writeTimeIntegrationVector(snapshotIndex);
-        snapshotTime[snapshotIndex] = t;
-        snapshotIndex++;
-    }
+    // Save the last time step (the loop only saves the start of a step).
+    logger(DEBUG, "Writing snapshot at timestep %, (t=%)",
+           parameters.numberOfSteps, t);
+    resultVector.writeTimeIntegrationVector(snapshotIndex);
+    snapshotTime[snapshotIndex] = t;
+    snapshotIndex++;
     // Save the number of snapshots for writing the output.
     numberOfSnapshots = snapshotIndex;
 }
-- 
2.43.0


From 442036fc5a512b252347617cc93ea3945ab8c89f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:14:24 +0000
Subject: [PATCH 49/61] fix: initial conditions of the time integration miss
 the permittivity

---
 .../DG-Max/Algorithms/DGMaxTimeIntegration.cpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index 0f26125..5ee2544 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -43,6 +43,8 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "Utilities/GlobalMatrix.h"
 #include "Utilities/GlobalVector.h"
 
+#include "ElementInfos.h"
+
 using namespace hpgem;
 
 template <std::size_t DIM>
@@ -88,15 +90,20 @@ void DGMaxTimeIntegration<DIM>::solve(
         [&input](const Base::Element&, const Geometry::PointPhysical<DIM>& p) {
             return input.sourceTermRef(p);
         };
+    // The mass matrix that is inverted for the projection of the initial
+    // conditions contains the permittivity.
     elementVectors[DGMaxDiscretizationBase::INITIAL_CONDITION_VECTOR_ID] =
-        [&input](const Base::Element&, const Geometry::PointPhysical<DIM>& p) {
-            return input.initialCondition(p);
+        [&input](const Base::Element& element,
+                 const Geometry::PointPhysical<DIM>& p) {
+            return input.initialCondition(p) *
+                   ElementInfos::get(element).getPermittivity();
         };
     elementVectors
         [DGMaxDiscretizationBase::INITIAL_CONDITION_DERIVATIVE_VECTOR_ID] =
-            [&input](const Base::Element&,
+            [&input](const Base::Element& element,
                      const Geometry::PointPhysical<DIM>& p) {
-                return input.initialConditionDerivative(p);
+                return input.initialConditionDerivative(p) *
+                       ElementInfos::get(element).getPermittivity();
             };
 
     discretization.setMatrixHandling(DGMaxDiscretizationBase::INVERT);
-- 
2.43.0


From 76e69afc52058ca9d0c05f9d285cb1fa90165448 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:42:11 +0000
Subject: [PATCH 50/61] fix: a surface at the far side of a periodic mesh has
 its own coordinates

ExtractSurface took the coordinates of a face from its first element. In a
periodic mesh that element can be at the other side, whose coordinates are not
in the map, so that all of them became coordinate 0 and a degenerate mesh was
written.
---
 applications/Preprocessor/extractSurface.cpp | 36 ++++++++------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/applications/Preprocessor/extractSurface.cpp b/applications/Preprocessor/extractSurface.cpp
index 731b718..90eca96 100644
--- a/applications/Preprocessor/extractSurface.cpp
+++ b/applications/Preprocessor/extractSurface.cpp
@@ -182,8 +182,6 @@ void processMesh(Preprocessor::HpgemReader& meshFile) {
     Preprocessor::Mesh<dimension - 1> resultMesh;
     Preprocessor::MeshData<std::size_t, dimension - 1, dimension - 1>
         resultPartitionID(&resultMesh);
-    // Ids of the nodes in the original mesh that are on the boundary
-    std::vector<EntityGId> boundaryNodes;
     // Mapping from coordinateId in the old mesh to that in the new mesh. Only
     // has coordinateIds of coordinates on the boundary.
     std::map<CoordId, CoordId> toBoundaryIndex;
@@ -205,7 +203,6 @@ void processMesh(Preprocessor::HpgemReader& meshFile) {
                     // Only add the node to the new mesh if it has at least one
                     // coordinate on the boundary.
                     newNodeId = resultMesh.addNode();
-                    boundaryNodes.push_back(node.getGlobalIndex());
                     added = true;
                 }
                 // Project the coordinate and add it to the new mesh and update
@@ -221,37 +218,32 @@ void processMesh(Preprocessor::HpgemReader& meshFile) {
     // The faces from the input mesh that are on the boundary will form the
     // elements of the target mesh.
     for (auto& face : inputMesh.getFaces()) {
-        // Due to the input mesh restriction we know that a face is on the
-        // boundary if all its nodes are on the boundary.
-        auto nodeIndices = face.template getIncidenceListAsIndices<0>();
-        bool onBoundary = true;
-        for (auto index : nodeIndices) {
-            if (std::find(boundaryNodes.begin(), boundaryNodes.end(), index) ==
-                boundaryNodes.end()) {
-                onBoundary = false;
-            }
-        }
-        if (onBoundary) {
-            // To get coordinates for the face we need to go through a adjacent
-            // element.
-            auto inputElement = face.getElement(0);
+        // A face is on the boundary if all its coordinates are on the boundary.
+        // To get coordinates for the face we need to go through an adjacent
+        // element. With a periodic input mesh the two adjacent elements can
+        // have different coordinates, so look for one that is at the boundary.
+        for (std::size_t i = 0; i < face.getNumberOfElements(); ++i) {
+            auto inputElement = face.getElement(i);
             auto localNodeIndices =
                 inputElement.template getLocalIncidenceListAsIndices<0>(face);
-            // Coordinate ids in the original mesh
+            // Coordinate ids in the new mesh
             std::vector<CoordId> globalCoordinateIndices;
             for (auto localIndex : localNodeIndices) {
-                globalCoordinateIndices.push_back(
+                auto boundaryIndex = toBoundaryIndex.find(
                     inputElement.getCoordinateIndex(localIndex));
+                if (boundaryIndex != toBoundaryIndex.end()) {
+                    globalCoordinateIndices.push_back(boundaryIndex->second);
+                }
             }
-            // Overwrite the coordinates with coordinates from the new mesh
-            for (auto& inputIndex : globalCoordinateIndices) {
-                inputIndex = toBoundaryIndex[inputIndex];
+            if (globalCoordinateIndices.size() != localNodeIndices.size()) {
+                continue;
             }
             resultMesh.addElement(globalCoordinateIndices);
             auto resultElement = resultMesh.getElements().back();
             // Assign the partition of the face based on the element it belonged
             // to.
             resultPartitionID[resultElement] = inputPartitionID[inputElement];
+            break;
         }
     }
     Preprocessor::outputMesh(resultMesh, resultPartitionID,
-- 
2.43.0


From b9360c19facf079d8da2f1bfdca21575e4a488f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:51:51 +0000
Subject: [PATCH 51/61] fix: SavageHutter 1D: do not multiply the flux through
 a face with the normal twice

---
 applications/SavageHutter/SavageHutter1DBase.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/applications/SavageHutter/SavageHutter1DBase.cpp b/applications/SavageHutter/SavageHutter1DBase.cpp
index 42e0e72..c2e066e 100644
--- a/applications/SavageHutter/SavageHutter1DBase.cpp
+++ b/applications/SavageHutter/SavageHutter1DBase.cpp
@@ -98,8 +98,11 @@ const LinearAlgebra::MiddleSizeVector
         Helpers::getSolution<1>(face.getPhysicalElement(Base::Side::RIGHT),
                                 solutionCoefficientsRight, numberOfVariables_);
 
-    const LinearAlgebra::MiddleSizeVector flux = hllcFlux(
-        solutionLeft, solutionRight, face.getUnitNormalVector()[0], face);
+    // the flux in the direction of the x-axis, since the basis functions below
+    // are multiplied with the normal vector as well
+    const double normal = face.getUnitNormalVector()[0];
+    const LinearAlgebra::MiddleSizeVector flux =
+        normal * hllcFlux(solutionLeft, solutionRight, normal, face);
 
     LinearAlgebra::MiddleSizeVector &integrand = face.getResultVector(
         iSide);  // Integrand value based on n number of testbasisfunctions from
@@ -129,8 +132,11 @@ std::pair<LinearAlgebra::MiddleSizeVector, LinearAlgebra::MiddleSizeVector>
         Helpers::getSolution<1>(face.getPhysicalElement(Base::Side::RIGHT),
                                 solutionCoefficientsRight, numberOfVariables_);
 
-    const LinearAlgebra::MiddleSizeVector flux = hllcFlux(
-        solutionLeft, solutionRight, face.getUnitNormalVector()[0], face);
+    // the flux in the direction of the x-axis, since the basis functions below
+    // are multiplied with the normal vector as well
+    const double normal = face.getUnitNormalVector()[0];
+    const LinearAlgebra::MiddleSizeVector flux =
+        normal * hllcFlux(solutionLeft, solutionRight, normal, face);
 
     const std::size_t numOfTestBasisFunctionsLeft =
         face.getPhysicalElement(Base::Side::LEFT).getNumberOfBasisFunctions();
-- 
2.43.0


From bdac3b18fb719ffcf8a798c94d8cb01d72a39c3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:51:51 +0000
Subject: [PATCH 52/61] fix: SavageHutter 1D: the state outside a subcritical
 outflow boundary has all variables

---
 applications/SavageHutter/SavageHutter1DBase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/applications/SavageHutter/SavageHutter1DBase.cpp b/applications/SavageHutter/SavageHutter1DBase.cpp
index c2e066e..857c493 100644
--- a/applications/SavageHutter/SavageHutter1DBase.cpp
+++ b/applications/SavageHutter/SavageHutter1DBase.cpp
@@ -211,7 +211,10 @@ const LinearAlgebra::MiddleSizeVector
                 logger(
                     DEBUG, "new h and u and F: %, %, %", hOut, uOut,
                     uOut / std::sqrt(epsilon_ * std::cos(chuteAngle_) * hOut));
-                const auto stateNew = MiddleSizeVector({hOut, hOut * uOut});
+                // any further variables are carried along with the flow
+                MiddleSizeVector stateNew = (hOut / solution[0]) * solution;
+                stateNew[0] = hOut;
+                stateNew[1] = hOut * uOut;
                 flux = hllcFlux(solution, stateNew, 1, face);
             } else {
                 // supercritical outflow:
-- 
2.43.0


From e7798942e61a9a4ffff145f082a3ab1bc2f31a61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 53/61] fix: SavageHutter 1D: the friction coefficient depends
 on the speed, not on the direction of the flow

---
 applications/SavageHutter/SavageHutter1DBase.cpp          | 3 ++-
 applications/SavageHutter/SavageHutter1DBidispersed.cpp   | 7 ++++---
 applications/SavageHutter/SavageHutter1DWidthAveraged.cpp | 3 ++-
 applications/SavageHutter/SavageHutter1DWidthHAndU.cpp    | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/applications/SavageHutter/SavageHutter1DBase.cpp b/applications/SavageHutter/SavageHutter1DBase.cpp
index 857c493..6a624af 100644
--- a/applications/SavageHutter/SavageHutter1DBase.cpp
+++ b/applications/SavageHutter/SavageHutter1DBase.cpp
@@ -350,7 +350,8 @@ double SavageHutter1DBase::computeFriction(
     const double h = numericalSolution[0];
     if (h < dryLimit_) return std::tan(delta1);
     const double u = numericalSolution[1] / h;
-    const double F = u / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
+    const double F =
+        std::abs(u) / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
     return std::tan(delta1) + (std::tan(delta2) - std::tan(delta1)) /
                                   (beta * h / (A * d * (F - gamma)) + 1);
 }
diff --git a/applications/SavageHutter/SavageHutter1DBidispersed.cpp b/applications/SavageHutter/SavageHutter1DBidispersed.cpp
index 55711f2..46e3bb1 100644
--- a/applications/SavageHutter/SavageHutter1DBidispersed.cpp
+++ b/applications/SavageHutter/SavageHutter1DBidispersed.cpp
@@ -196,7 +196,8 @@ double SavageHutter1DBidispersed::computeFrictionBidispersed(
     logger.assert_debug(
         phi > -1e-10 && (phi - 1) < 1e-10,
         "the fraction of small particles should be between 0 and 1");
-    const double F = u / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
+    const double F =
+        std::abs(u) / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
 
     double delta1 = 17.518 / 180 * M_PI;
     double delta2 = 29.712 / 180 * M_PI;
@@ -256,11 +257,11 @@ double SavageHutter1DBidispersed::computeFrictionExponentialBidispersed(
     const double frictionSmall =
         std::tan(delta1Small) +
         (std::tan(delta2Small) - std::tan(delta1Small)) *
-            std::exp(-std::pow(epsilon_ * h, (1.5)) / u);
+            std::exp(-std::pow(epsilon_ * h, (1.5)) / std::abs(u));
     const double frictionLarge =
         std::tan(delta1Large) +
         (std::tan(delta2Large) - std::tan(delta1Large)) *
-            std::exp(-std::pow(epsilon_ * h, (1.5)) / u);
+            std::exp(-std::pow(epsilon_ * h, (1.5)) / std::abs(u));
 
     return phi * frictionSmall + (1 - phi) * frictionLarge;
 }
diff --git a/applications/SavageHutter/SavageHutter1DWidthAveraged.cpp b/applications/SavageHutter/SavageHutter1DWidthAveraged.cpp
index b3e0b98..b0fe9a1 100644
--- a/applications/SavageHutter/SavageHutter1DWidthAveraged.cpp
+++ b/applications/SavageHutter/SavageHutter1DWidthAveraged.cpp
@@ -265,7 +265,8 @@ double SavageHutter1DWidthAveraged::computeFriction(const double h,
     const double gamma = -.080;
     const double d = 2;
     if (h < dryLimit_) return std::tan(delta1);
-    const double F = u / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
+    const double F =
+        std::abs(u) / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
     return std::tan(delta1) + (std::tan(delta2) - std::tan(delta1)) /
                                   (beta * h / (A * d * (F - gamma)) + 1);
 }
diff --git a/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp b/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp
index b725d13..1e89820 100644
--- a/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp
+++ b/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp
@@ -234,7 +234,8 @@ double SavageHutter1DWidthHAndU::computeFriction(const double h,
     const double gamma = -.080;
     const double d = 2;
     if (h < dryLimit_) return std::tan(delta1);
-    const double F = u / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
+    const double F =
+        std::abs(u) / std::sqrt(epsilon_ * std::cos(chuteAngle_) * h);
     return std::tan(delta1) + (std::tan(delta2) - std::tan(delta1)) /
                                   (beta * h / (A * d * (F - gamma)) + 1);
 }
-- 
2.43.0


From 101268ac15690d750642e6bcceb2f7d72f49fb26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 54/61] fix: SavageHutter1DWidthHAndU: friction follows from
 the depth, not from depth times width

---
 applications/SavageHutter/SavageHutter1DWidthHAndU.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp b/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp
index 1e89820..b1ce5fe 100644
--- a/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp
+++ b/applications/SavageHutter/SavageHutter1DWidthHAndU.cpp
@@ -143,7 +143,7 @@ LinearAlgebra::MiddleSizeVector SavageHutter1DWidthHAndU::computeSourceTerm(
     const PointPhysicalT& pPhys, const double time) {
     logger.assert_debug(chuteAngle_ < M_PI,
                         "Angle must be in radians, not degrees!");
-    const double h = numericalSolution(0);
+    const double h = numericalSolution(0) / getWidth(pPhys);
     const double u = numericalSolution(1);
     double mu = computeFriction(h, u);
     const int signU = Helpers::sign(u);
-- 
2.43.0


From ceeec82365aeba72208b9eb904a27597a42328ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:52:59 +0000
Subject: [PATCH 55/61] fix: SavageHutter 1D: number the coefficients of one
 side of a face within that side

---
 applications/SavageHutter/SavageHutter1DBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/SavageHutter/SavageHutter1DBase.cpp b/applications/SavageHutter/SavageHutter1DBase.cpp
index 6a624af..7d0ddf4 100644
--- a/applications/SavageHutter/SavageHutter1DBase.cpp
+++ b/applications/SavageHutter/SavageHutter1DBase.cpp
@@ -110,7 +110,8 @@ const LinearAlgebra::MiddleSizeVector
 
     for (std::size_t iFun = 0; iFun < numberOfTestBasisFunctions; ++iFun) {
         for (std::size_t iVar = 0; iVar < numberOfVariables_; ++iVar) {
-            std::size_t iVarFun = face.convertToSingleIndex(iSide, iFun, iVar);
+            std::size_t iVarFun =
+                face.getPhysicalElement(iSide).convertToSingleIndex(iFun, iVar);
             integrand(iVarFun) =
                 -flux(iVar) * face.basisFunctionNormal(iSide, iFun)(0);
         }
-- 
2.43.0


From 9942463b84cd83e94bff1ca10d874cf8e58013d9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:56:25 +0000
Subject: [PATCH 56/61] fix: PositiveLayerLimiter: no negative height if both
 end points of an element are too low

---
 .../SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h b/applications/SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h
index b87c393..6a31b0c 100644
--- a/applications/SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h
+++ b/applications/SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h
@@ -70,9 +70,11 @@ void PositiveLayerLimiter<DIM>::limit(
         const double solutionRight = element->getSolution(0, pRefR)(0);
 
         double slopeDischarge = averageDischarge;
+        // for higher order polynomials both end points can be too low, while
+        // the average is not
         double slopeHeight =
-            std::min((solutionLeft + solutionRight - 2 * minH_) / 2,
-                     averageHeight - minH_);
+            std::max(0., std::min((solutionLeft + solutionRight - 2 * minH_) / 2,
+                                  averageHeight - minH_));
 
         if (solutionRight < solutionLeft) {
             slopeHeight *= -1;
-- 
2.43.0


From bec7ba5871614e571ae96121daef57259beb3a79 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 57/61] fix: AdvectionTest: no third coordinate of vectors and
 points in the plane

---
 applications/AdvectionTest/main.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/applications/AdvectionTest/main.cpp b/applications/AdvectionTest/main.cpp
index f3dfb71..264f160 100644
--- a/applications/AdvectionTest/main.cpp
+++ b/applications/AdvectionTest/main.cpp
@@ -68,12 +68,9 @@ class AdvectionTest : public Base::HpgemAPILinear<DIM> {
         // Choose the "direction" of the advection.
         // This cannot be implemented with iterators, and since the dimension is
         // not always 2, this is the most generic way to write it.
-        // for (std::size_t i = 0; i < DIM; ++i)
-        //{
-        //    a[i] = 0.1 + 0.1 * i;
-        //}
-        a[0] = 0.1;
-        a[2] = 0.3;
+        for (std::size_t i = 0; i < DIM; ++i) {
+            a[i] = 0.1 + 0.1 * i;
+        }
     }
 
     void readMesh(const std::string meshName) override final {
@@ -186,8 +183,11 @@ class AdvectionTest : public Base::HpgemAPILinear<DIM> {
 
     /// Define a solution at time zero.
     double getSolutionAtTimeZero(const PointPhysicalT& point) {
-        return (std::sin(2 * M_PI * point[0]) * std::sin(2 * M_PI * point[1])) *
-               std::sin(2 * M_PI * point[2]);
+        double result = 1;
+        for (std::size_t i = 0; i < DIM; ++i) {
+            result *= std::sin(2 * M_PI * point[i]);
+        }
+        return result;
     }
 
     /// Define the exact solution. In this case that is \f$
-- 
2.43.0


From 1d4f8b9c7b725e8c0cb21deaf792546bda7c5be6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:13:17 +0000
Subject: [PATCH 58/61] fix: AdvectionTest: give the mesh its basis functions

---
 applications/AdvectionTest/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/AdvectionTest/main.cpp b/applications/AdvectionTest/main.cpp
index 264f160..cebaef6 100644
--- a/applications/AdvectionTest/main.cpp
+++ b/applications/AdvectionTest/main.cpp
@@ -83,7 +83,7 @@ class AdvectionTest : public Base::HpgemAPILinear<DIM> {
         // Create mesh and set basis functions.
         this->addMesh(meshName, numberOfElementMatrices, numberOfElementVectors,
                       numberOfFaceMatrices, numberOfFaceVectors);
-        // this->meshes_[0]->useDefaultDGBasisFunctions();
+        this->meshes_[0]->useDefaultDGBasisFunctions(this->polynomialOrder_);
 
         // Set the number of time integration vectors according to the size of
         // the Butcher tableau.
-- 
2.43.0


From 5028dfec1a0979c599eb64b54537e180a8a83a78 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:22:27 +0000
Subject: [PATCH 59/61] fix: SavageHutter: averages over elements that are not
 rectangles are wrong

---
 applications/SavageHutter/HelperFunctions.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/applications/SavageHutter/HelperFunctions.h b/applications/SavageHutter/HelperFunctions.h
index 29c84d3..c75cc15 100644
--- a/applications/SavageHutter/HelperFunctions.h
+++ b/applications/SavageHutter/HelperFunctions.h
@@ -109,17 +109,11 @@ LinearAlgebra::MiddleSizeVector computeAverageOfSolution(
     };
     LinearAlgebra::MiddleSizeVector average = (elementIntegrator.integrate(
         element, integrandFunction, element->getGaussQuadratureRule()));
-    //\todo: generalise to other than rectangular grid
-    Geometry::PointPhysical<DIM> p0 =
-        element->getPhysicalGeometry()->getLocalNodeCoordinates(0);
-    Geometry::PointPhysical<DIM> p1 =
-        element->getPhysicalGeometry()->getLocalNodeCoordinates(1);
-    average /= (p1 - p0).l2Norm();
-    if (DIM == 2) {
-        Geometry::PointPhysical<DIM> p2 =
-            element->getPhysicalGeometry()->getLocalNodeCoordinates(2);
-        average /= (p2 - p0).l2Norm();
-    }
+    // divide by the size of the element
+    const std::function<double(Base::PhysicalElement<DIM> &)> one =
+        [](Base::PhysicalElement<DIM> &) -> double { return 1; };
+    average /= elementIntegrator.integrate(element, one,
+                                           element->getGaussQuadratureRule());
 
     logger(DEBUG, "Average over element %: %", element->getID(), average);
     logger.assert_always(average(0) > -1e-16,
-- 
2.43.0


From c6596b534cfc02048ecc99258bc69e4deac9610c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:25:17 +0000
Subject: [PATCH 60/61] fix: SqueezeLimiterWithLayer: keep the mean discharge,
 and find the lowest point

---
 .../HeightLimiters/SqueezeLimiterWithLayer_Impl.h    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/applications/SavageHutter/HeightLimiters/SqueezeLimiterWithLayer_Impl.h b/applications/SavageHutter/HeightLimiters/SqueezeLimiterWithLayer_Impl.h
index b075b7d..2d2cd1b 100644
--- a/applications/SavageHutter/HeightLimiters/SqueezeLimiterWithLayer_Impl.h
+++ b/applications/SavageHutter/HeightLimiters/SqueezeLimiterWithLayer_Impl.h
@@ -74,9 +74,13 @@ void SqueezeLimiterWithLayer::limit(
         double squeezeFactorH =
             (averageHeight - minH_) / (averageHeight - minimumHeight);
         const PointReferenceT &pRef = *getMinimumHeightPoint(element);
-        double squeezeFactorHu =
-            std::min(1., averageDischarge / (averageDischarge -
-                                             element->getSolution(0, pRef)(1)));
+        // squeeze the discharge only if the flow turns around
+        const double minimumDischarge = element->getSolution(0, pRef)(1);
+        double squeezeFactorHu = 1;
+        if (averageDischarge * minimumDischarge < 0) {
+            squeezeFactorHu =
+                averageDischarge / (averageDischarge - minimumDischarge);
+        }
 
         std::function<double(const PointReferenceT &)> heightFun =
             [=](const PointReferenceT &pRef) {
@@ -151,7 +155,7 @@ const Geometry::PointReference<1>
         element->getTimeIntegrationVector(0);
     const std::size_t numOfVariables = element->getNumberOfUnknowns();
     const double solutionLeft = element->getSolution(0, pRefL)(0);
-    const double solutionRight = element->getSolution(0, pRefL)(1);
+    const double solutionRight = element->getSolution(0, pRefR)(0);
     double minimum = solutionLeft;
     PointReferenceT const *minPoint = &pRefL;
     if (solutionRight < solutionLeft) {
-- 
2.43.0


From 33fb10761b094a08a9f3609b6c595c8da993a285 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:40:59 +0000
Subject: [PATCH 61/61] fix: logger: escapes after the last argument are not
 processed

---
 kernel/Logger.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kernel/Logger.h b/kernel/Logger.h
index d28014c..4f3964e 100644
--- a/kernel/Logger.h
+++ b/kernel/Logger.h
@@ -538,7 +538,12 @@ class Logger {
             }
         }
         fmt++;  // Consume the % sign
-        msg << arg << fmt;
+        msg << arg;
+        // The remainder has no placeholders, but may have escapes
+        for (; *fmt != '\0'; fmt++) {
+            if (*fmt == '\\' && fmt[1] != '\0') fmt++;
+            msg << *fmt;
+        }
     }
 
     /*!
-- 
2.43.0

