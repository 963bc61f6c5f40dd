From fb87a39768da5beab47259b4d50f3cdf2c27ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:34 +0000
Subject: [PATCH 01/38] fix: conforming cube face functions on transposed faces

When the two elements sharing a square face see it transposed, the two
polynomial orders of a face function have to be swapped as well; otherwise
the functions with the same index do not match and the conforming space is
discontinuous for order 3 and higher.
---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..60e5bf4 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -36,6 +36,7 @@
  OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <utility>
 #include "BasisFunctions3DH1ConformingCube.h"
 #include "helperFunctions.h"
 #include "BasisFunctionSet.h"
@@ -238,6 +239,11 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
+    if ((node0 ^ node1) > (node0 ^ node2)) {
+        // the face is transposed with respect to the element
+        std::swap(node1, node2);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
     mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
                                            // be consistent for one face
     mirroring2_ = node0 < node2 ? 1 : -1;
@@ -290,6 +296,11 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
+    if ((node0 ^ node1) > (node0 ^ node2)) {
+        // the face is transposed with respect to the element
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
@@ -348,6 +359,11 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
+    if ((node0 ^ node1) > (node0 ^ node2)) {
+        // the face is transposed with respect to the element
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring1_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
-- 
2.43.0


From e54c6bc2e2d6d79772e287d995cace666a331e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:34 +0000
Subject: [PATCH 02/38] fix: use the direction convention of tetrahedra and
 prisms on cubes

Edge and face functions on tetrahedra and prisms take the first node as the
positive end of the local coordinate, cubes took the second. The odd
functions therefore had opposite signs on the two sides of a face between a
prism and a cube.
---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 60e5bf4..47aeee0 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -95,7 +95,7 @@ BasisFunction3DEdgeCube_0::BasisFunction3DEdgeCube_0(
         "This class is intended for edges aligned in the x-direction");
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_0::eval(
@@ -143,7 +143,7 @@ BasisFunction3DEdgeCube_1::BasisFunction3DEdgeCube_1(
         "This class is intended for edges aligned in the y-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_1::eval(
@@ -191,7 +191,7 @@ BasisFunction3DEdgeCube_2::BasisFunction3DEdgeCube_2(
         "This class is intended for edges aligned in the z-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_2::evalDeriv0(
@@ -244,9 +244,9 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
         std::swap(node1, node2);
         std::swap(polynomialOrder1_, polynomialOrder2_);
     }
-    mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
+    mirroring1_ = node0 < node1 ? -1 : 1;  // choices about mirroring need only
                                            // be consistent for one face
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
 
@@ -301,8 +301,8 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
         std::swap(node1, node2);
         std::swap(polynomialOrder0_, polynomialOrder2_);
     }
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
 }
 
@@ -364,8 +364,8 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
         std::swap(node1, node2);
         std::swap(polynomialOrder0_, polynomialOrder1_);
     }
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring1_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring1_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
 }
 
-- 
2.43.0


From feda4f9cd28d74b6f25be9d3f5a5739ac5722e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:26 +0000
Subject: [PATCH 03/38] fix: conforming functions on the square faces of the
 prism

The functions for the square faces were created as functions of the
triangular faces (which aborts on an assertion for order >= 2), and swapped
the polynomial orders on the wrong diagonal.
---
 .../FE/BasisFunctions3DH1ConformingPrism.cpp  | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 47c9f3a..46ce2ed 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -695,72 +695,72 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 0, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[2], j, k));
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 1, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[1], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[3], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[1], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 2, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 3, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[0],
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 4, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 5, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[3], j, k));
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 6, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[1],
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 7, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[0], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[2], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[0], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
-- 
2.43.0


From 4a55d405bc5a6fabf7fb1abd6b3044de72bfc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:16 +0000
Subject: [PATCH 04/38] fix: relation between both sides of a square face
 rotated by 90 degrees

The square returns the mapping from the second to the first list of nodes,
contrary to the triangle. For faces that are rotated by 90 degrees the point
on the right hand side did therefore not coincide with that on the left.
---
 kernel/Geometry/FaceGeometry.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kernel/Geometry/FaceGeometry.cpp b/kernel/Geometry/FaceGeometry.cpp
index 16ce724..6d46309 100644
--- a/kernel/Geometry/FaceGeometry.cpp
+++ b/kernel/Geometry/FaceGeometry.cpp
@@ -150,8 +150,16 @@ void FaceGeometry::initialiseFaceToFaceMapIndex(
     const std::vector<std::size_t>& rightNodes) {
     logger.assert_debug(leftNodes.size() == rightNodes.size(),
                         "Inconsistent amount of nodes for left and right face");
-    faceToFaceMapIndex_ =
-        getReferenceGeometry()->getCodim0MappingIndex(leftNodes, rightNodes);
+    if (getReferenceGeometry()->getGeometryType() ==
+        ReferenceGeometryType::SQUARE) {
+        // The square relates the nodes the other way around: its mapping goes
+        // from the second list of nodes to the first one.
+        faceToFaceMapIndex_ = getReferenceGeometry()->getCodim0MappingIndex(
+            rightNodes, leftNodes);
+    } else {
+        faceToFaceMapIndex_ = getReferenceGeometry()->getCodim0MappingIndex(
+            leftNodes, rightNodes);
+    }
 }
 
 bool FaceGeometry::isInternal() const {
-- 
2.43.0


From 553866ae6af8c92a982d7add14158416a4ffb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 05/38] fix: evaluate the basis functions of the unknown asked
 for

The solution of an element, its gradient and the normal basis functions on a
face used the basis functions of the first unknown for all unknowns.
---
 kernel/Base/Element.h           | 4 ++--
 kernel/Base/PhysicalFace_Impl.h | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/Element.h b/kernel/Base/Element.h
index 6eec26d..508466b 100644
--- a/kernel/Base/Element.h
+++ b/kernel/Base/Element.h
@@ -787,7 +787,7 @@ Element::SolutionVector Element::getSolution(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVB) * basisFunction(iB, p);
+            solution[iV] += data(iVB) * basisFunction(iB, p, iV);
         }
     }
     return solution;
@@ -813,7 +813,7 @@ std::vector<LinearAlgebra::SmallVector<DIM>> Element::getSolutionGradient(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            auto derivative = basisFunctionDeriv(iB, p);
+            auto derivative = basisFunctionDeriv(iB, p, iV);
             jacobean.solve(derivative);
             solution[iV] += data(iVB) * derivative;
         }
diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..bc433e9 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
-- 
2.43.0


From b92b332aaa64ec0c6c781be242e97076597f1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:48 +0000
Subject: [PATCH 06/38] fix: faces with different numbers of basis functions on
 one physical face

The storage and the number of functions of the left element were only set for
the first face that was treated, and used for all later ones.
---
 kernel/Base/PhysicalFace_Impl.h | 63 ++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index bc433e9..69b9281 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -846,45 +846,44 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
-        std::size_t leftCoefficients =
-            face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
-        nLeftBasisFunctions.resize(numberOfUnknowns);
-        basisFunctionNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionNormal_.resize(numberOfUnknowns);
-        basisFunctionUnitNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
-        std::size_t rightCoefficients = 0;
-        for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+    // the number of basis functions may differ between faces
+    std::size_t leftCoefficients =
+        face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+    nLeftBasisFunctions.resize(numberOfUnknowns);
+    basisFunctionNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionNormal_.resize(numberOfUnknowns);
+    basisFunctionUnitNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
+    std::size_t rightCoefficients = 0;
+    for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+        std::size_t numBasis =
+            face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+        basisFunctionNormal_[i].resize(numBasis);
+        vectorBasisFunctionNormal_[i].resize(numBasis);
+        basisFunctionUnitNormal_[i].resize(numBasis);
+        vectorBasisFunctionUnitNormal_[i].resize(numBasis);
+        nLeftBasisFunctions[i] = numBasis;
+    }
+    if (isInternal_) {
+        rightCoefficients =
+            face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        // We assume that in the left and right element the number of
+        // unknowns is equal.
+        for (std::size_t i = 0;
+             i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
             std::size_t numBasis =
-                face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+                face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
+                face->getPtrElementRight()->getNumberOfBasisFunctions(i);
             basisFunctionNormal_[i].resize(numBasis);
             vectorBasisFunctionNormal_[i].resize(numBasis);
             basisFunctionUnitNormal_[i].resize(numBasis);
             vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            nLeftBasisFunctions[i] = numBasis;
-        }
-        if (isInternal_) {
-            rightCoefficients =
-                face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
-            // We assume that in the left and right element the number of
-            // unknowns is equal.
-            for (std::size_t i = 0;
-                 i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
-                std::size_t numBasis =
-                    face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
-                    face->getPtrElementRight()->getNumberOfBasisFunctions(i);
-                basisFunctionNormal_[i].resize(numBasis);
-                vectorBasisFunctionNormal_[i].resize(numBasis);
-                basisFunctionUnitNormal_[i].resize(numBasis);
-                vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            }
         }
-        resultMatrix.resize(leftCoefficients, rightCoefficients);
-        leftRightMatrix.resize(leftCoefficients, rightCoefficients);
-        rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
-        resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    resultMatrix.resize(leftCoefficients, rightCoefficients);
+    leftRightMatrix.resize(leftCoefficients, rightCoefficients);
+    rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
+    resultVector.resize(leftCoefficients + rightCoefficients);
     face_ = face;
     hasFace = true;
     left.setElement(face->getPtrElementLeft());
-- 
2.43.0


From a32514e7515634029984bf3e3d64284babb722be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:34 +0000
Subject: [PATCH 07/38] fix: pass the real work space to the complex least
 squares solver

---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..b1ae3f2 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rWork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -898,8 +899,9 @@ void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
+    std::vector<double> rWork(5 * n);
     zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+            work.data(), &lWork, rWork.data(), &info);
 #else
     dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
             work.data(), &lWork, &info);
-- 
2.43.0


From 92cfe143c2a8f380cf0b6c51f91172cd6ec84c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:34 +0000
Subject: [PATCH 08/38] fix: number right basis functions of a face after all
 left ones

---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From 7aa6a824e8ff1921802668124574c94ffbdde50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:34 +0000
Subject: [PATCH 09/38] fix: local indexing without any unknowns

---
 kernel/Utilities/ElementLocalIndexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Utilities/ElementLocalIndexing.cpp b/kernel/Utilities/ElementLocalIndexing.cpp
index 0f7a23c..eb769d4 100644
--- a/kernel/Utilities/ElementLocalIndexing.cpp
+++ b/kernel/Utilities/ElementLocalIndexing.cpp
@@ -54,7 +54,7 @@ void ElementLocalIndexing::reinit(
     std::sort(includedUnknowns_.begin(), includedUnknowns_.end());
 #ifdef HPGEM_ASSERTS
     // Check for duplicates, easy after sorting
-    for (std::size_t i = 0; i < includedUnknowns_.size() - 1; ++i) {
+    for (std::size_t i = 0; i + 1 < includedUnknowns_.size(); ++i) {
         logger.assert_debug(includedUnknowns_[i] != includedUnknowns_[i + 1],
                             "Duplicate unknown");
     }
-- 
2.43.0


From 55cb32fd6197633b8a5e02ff46b2c85da0524eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:34 +0000
Subject: [PATCH 10/38] fix: offset of unknowns not included in the indexing of
 a face

---
 kernel/Utilities/FaceLocalIndexing.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/Utilities/FaceLocalIndexing.h b/kernel/Utilities/FaceLocalIndexing.h
index 9954f6b..bc102f4 100644
--- a/kernel/Utilities/FaceLocalIndexing.h
+++ b/kernel/Utilities/FaceLocalIndexing.h
@@ -79,9 +79,11 @@ class FaceLocalIndexing {
             hpgem::logger.assert_debug(
                 right_.getElement() != nullptr,
                 "Asking for the right side of an internal face");
-            // Also works for non included unknowns, as
-            // left_.getNumberOfDoFs() == 0 for such an unknown
-            return left_.getNumberOfDoFs() + right_.getDoFOffset(unknown);
+            std::size_t offset = right_.getDoFOffset(unknown);
+            if (offset == ElementLocalIndexing::UNKNOWN_NOT_INCLUDED) {
+                return offset;
+            }
+            return left_.getNumberOfDoFs() + offset;
         }
     }
 
-- 
2.43.0


From f67616d18c283230ccca0055432e6157071cdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:49 +0000
Subject: [PATCH 11/38] fix: evaluate the second stage of RK2TVD at the end of
 the step

---
 kernel/Base/TimeIntegration/RK2TVD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
-- 
2.43.0


From 9a4a0e6e74013c50a13f2d0b33b5b5ba5e8781b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:49 +0000
Subject: [PATCH 12/38] fix: evaluate the stages of RK3TVD at their own times

---
 kernel/Base/TimeIntegration/RK3TVD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From 8270a2a5ada240ff632199220571fc53992c017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:49 +0000
Subject: [PATCH 13/38] fix: evaluate the stages of Bogacki-Shampine at their
 own times

---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
-- 
2.43.0


From c5b58fb63e25cd7876e6a599b8ecd91ea7a64b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:39 +0000
Subject: [PATCH 14/38] fix: forget the old functions on faces, edges and nodes
 when an unknown gets a new basis

---
 kernel/Base/MeshManipulator.h      |  4 ++++
 kernel/Base/MeshManipulator_Impl.h | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/kernel/Base/MeshManipulator.h b/kernel/Base/MeshManipulator.h
index 4195724..57a2693 100644
--- a/kernel/Base/MeshManipulator.h
+++ b/kernel/Base/MeshManipulator.h
@@ -110,6 +110,10 @@ class MeshManipulator : public MeshManipulatorBase {
 
     void clearBasisFunctionAssignment();
 
+    /// Clear the association of the basis functions of a single unknown with
+    /// the faces, edges and nodes.
+    void clearBasisFunctionAssignment(std::size_t unknown);
+
     /// creates some cheap, easy to construct basis function set (monomials) to
     /// use as a placeholder Note that they usually result in very badly
     /// conditioned matrices.
diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..04e5117 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -118,6 +118,21 @@ void MeshManipulator<DIM>::clearBasisFunctionAssignment() {
     }
 }
 
+template <std::size_t DIM>
+void MeshManipulator<DIM>::clearBasisFunctionAssignment(std::size_t unknown) {
+    for (Base::Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Base::Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    if (dimension_ > 1) {
+        for (Base::Node *node : getNodesList(IteratorType::GLOBAL)) {
+            node->setLocalNumberOfBasisFunctions(0, unknown);
+        }
+    }
+}
+
 template <std::size_t DIM>
 void MeshManipulator<DIM>::useMonomialBasisFunctions(std::size_t order) {
     FE::BasisFunctionSet *bFset1 = new FE::BasisFunctionSet(order);
@@ -239,6 +254,7 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    clearBasisFunctionAssignment(unknown);
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
@@ -711,6 +727,7 @@ void MeshManipulator<DIM>::useDefaultConformingBasisFunctions(
                         "Basis function may not have an empty union of "
                         "supporting elements. Use a DG basis function on a "
                         "single element non-periodic mesh instead");
+    clearBasisFunctionAssignment(unknown);
     // collBasisFSet_.clear();
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
-- 
2.43.0


From 08827d8927238e35fe3e63bf45c98b92351fd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:39 +0000
Subject: [PATCH 15/38] fix: write a single unknown with its own number of
 basis functions to the elements

---
 kernel/Utilities/GlobalVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..66e23f2 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -454,8 +454,9 @@ void GlobalPetscVector::writeTimeIntegrationVector(
         logger.assert_debug(localData.size() == runningTotal,
                             "not enough info to fill the vector");
         LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
+            (*it)->getNumberOfBasisFunctions(unknown));
+        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(unknown);
+             ++i) {
             singleUnknownData[i] =
                 localData[(*it)->convertToSingleIndex(i, unknown)];
         }
-- 
2.43.0


From 93b7abadd74fcab970892637e6591c8e3913fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:10 +0000
Subject: [PATCH 16/38] fix: do not mark a face between two shadow elements as
 periodic

---
 kernel/Base/MeshManipulator_Impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index 04e5117..091b285 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1848,10 +1848,12 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         for (Base::Element *element : pair.second) {
             for (Base::Face *face : element->getFacesList()) {
                 if (face->isInternal()) {
+                    // Faces between two shadow elements are visited twice
                     if (face->getFaceType() == Geometry::FaceType::INTERNAL) {
                         face->setFaceType(
                             Geometry::FaceType::SUBDOMAIN_BOUNDARY);
-                    } else {
+                    } else if (face->getFaceType() ==
+                               Geometry::FaceType::PERIODIC_BC) {
                         face->setFaceType(
                             Geometry::FaceType::PERIODIC_SUBDOMAIN_BC);
                     }
-- 
2.43.0


From b31b011df52c00de341ec431b361e3bd3fb0fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:32 +0000
Subject: [PATCH 17/38] fix: label the outside of the shadow layer of a 1D mesh
 as partial face

---
 kernel/Base/MeshManipulator_Impl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index 091b285..91ebd66 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1650,6 +1650,9 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     }
 
     std::map<std::size_t, Element *> actualElement;
+    // Local indices of the nodes that also belong to an element that is neither
+    // owned by this processor nor in its shadow layer
+    std::unordered_set<std::size_t> incompleteNodes;
 
     for (std::size_t i = 0; i < numberOfElements; ++i) {
         // Read all the information about the element
@@ -1661,6 +1664,10 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         for (std::size_t j = 0; j < nodesPerElement; ++j) {
             std::size_t globalIndex, coordinateOffset;
             input >> globalIndex >> coordinateOffset;
+            if (localNodeIndex.count(globalIndex) == 0) {
+                // This node, and thus this element, is on another processor
+                continue;
+            }
             coordinateIndices.push_back(startOfCoordinates[globalIndex] +
                                         coordinateOffset);
             nodeNumbers.push_back(localNodeIndex[globalIndex]);
@@ -1711,6 +1718,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         } else {
             // reserve the index for use in another processor
             GlobalUniqueIndex::instance().getElementIndex();
+            incompleteNodes.insert(nodeNumbers.begin(), nodeNumbers.end());
         }
     }
 
@@ -1830,16 +1838,21 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
 
     if (DIM == 1) {
         logger.suppressWarnings([&]() {
+            std::size_t localIndex = 0;
             for (auto node : getNodesList(Base::IteratorType::GLOBAL)) {
                 while (lastIndex++ < node->getID() - 1)
                     GlobalUniqueIndex::instance().getFaceIndex();
                 if (node->getNumberOfElements() == 1) {
+                    const bool partial = incompleteNodes.count(localIndex) > 0;
                     addFace(node->getElement(0), node->getNodeNumber(0),
-                            nullptr, 0, Geometry::FaceType::WALL_BC);
+                            nullptr, 0,
+                            partial ? Geometry::FaceType::PARTIAL_FACE
+                                    : Geometry::FaceType::WALL_BC);
                 } else {
                     addFace(node->getElement(0), node->getNodeNumber(0),
                             node->getElement(1), node->getNodeNumber(1));
                 }
+                localIndex++;
             }
         });
     }
-- 
2.43.0


From 9593c982fa2bccbf0b0c84b7215d03c80342e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 18/38] fix: refuse node orders in which an index occurs twice

---
 applications/Preprocessor/lib/ElementReorder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/applications/Preprocessor/lib/ElementReorder.cpp b/applications/Preprocessor/lib/ElementReorder.cpp
index 279d0cf..4ffb09b 100644
--- a/applications/Preprocessor/lib/ElementReorder.cpp
+++ b/applications/Preprocessor/lib/ElementReorder.cpp
@@ -100,10 +100,12 @@ void ElementReorder::reorderFromHpGem(size_t dimension,
 
 void ElementReorder::Element::checkOrder(std::vector<size_t> order) const {
     std::sort(order.begin(), order.end());
-    std::adjacent_difference(order.begin(), order.end(), order.begin());
 
-    bool valid = (order[0] == 0) && (std::accumulate(order.begin(), order.end(),
-                                                     0) == order.size() - 1);
+    // Every index of 0..size-1 should occur exactly once
+    bool valid = !order.empty();
+    for (std::size_t i = 0; i < order.size(); ++i) {
+        valid = valid && order[i] == i;
+    }
     hpgem::logger.assert_always(valid,
                                 "Order has to contain 0 as an index and then "
                                 "contain all indices contiguously");
-- 
2.43.0


From 81440f84637566ecf7cbd2d6f4c9e47c0961add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 19/38] fix: copy the zones together with a preprocessor mesh

---
 applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
index 960fecd..47f88a8 100644
--- a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
+++ b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
@@ -71,7 +71,8 @@ class Mesh {
     Mesh(const Mesh& other)
         : elementsList(other.elementsList),
           coordinates(other.coordinates),
-          meshEntities(other.meshEntities) {
+          meshEntities(other.meshEntities),
+          zoneNames(other.zoneNames) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -81,7 +82,8 @@ class Mesh {
     Mesh(Mesh&& other)
         : elementsList(std::move(other.elementsList)),
           coordinates(std::move(other.coordinates)),
-          meshEntities(std::move(other.meshEntities)) {
+          meshEntities(std::move(other.meshEntities)),
+          zoneNames(std::move(other.zoneNames)) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -92,20 +94,24 @@ class Mesh {
         elementsList = other.elementsList;
         coordinates = other.coordinates;
         meshEntities = other.meshEntities;
+        zoneNames = other.zoneNames;
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     Mesh& operator=(Mesh&& other) {
         elementsList = std::move(other.elementsList);
         coordinates = std::move(other.coordinates);
         meshEntities = std::move(other.meshEntities);
+        zoneNames = std::move(other.zoneNames);
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     // Elements //
-- 
2.43.0


From ddfa8d8f7ef5562d01a67146f0db874534aa5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 20/38] fix: read tetrahedra from gmsh files

---
 applications/Preprocessor/lib/gmsh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..a4079b3 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -320,8 +320,8 @@ void GmshReader::readElements() {
     reorder.addElementType(2, "triangle2", {0, 3, 1, 5, 4, 2});
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
-    // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    // Tetrahedrons do not require reordering
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From bbdb0361698b5f93cb702d3ad54c83b5703b58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 21/38] fix: do not hang on gmsh elements without tags

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index a4079b3..4a97857 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -357,7 +357,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From 2ef96b51ef247ea287c4b6ec510eb66fff6a7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 22/38] fix: read names of gmsh element data that contain
 spaces

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 4a97857..3e7dc19 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -395,7 +395,7 @@ void GmshReader::readElementData() {
     Filehandle_ >> numStringelements;
     for (size_t i = 0; i < numStringelements; i++) {
         std::string view_names;
-        Filehandle_ >> view_names;
+        Filehandle_ >> std::quoted(view_names);
     }
     // Read  global reals (doubles)
     size_t numrealelements;
-- 
2.43.0


From 37f23ca54982637f13f368d2c0185d6a2a0d21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 23/38] fix: do not look for zone names beyond the named gmsh
 dimensions

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 3e7dc19..0cca07a 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -494,7 +494,7 @@ void GmshReader::convertRawElements() {
 
         if (element.physicalNameTag == Element::NO_TAG) {
             newElement.zoneName = "Main";
-        } else if (!physicalNames_.empty()) {
+        } else if (physicalNames_.size() > dimension_) {
             newElement.zoneName =
                 physicalNames_[dimension_][element.physicalNameTag];
         } else {
-- 
2.43.0


From bc003f3b897dec4f709973bc55f1268456cbc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 24/38] fix: support arbitrary node numbers in gmsh files

---
 applications/Preprocessor/lib/gmsh.cpp | 14 ++++++++++----
 applications/Preprocessor/lib/gmsh.h   |  5 +++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 0cca07a..2f73ac7 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -299,11 +299,19 @@ void GmshReader::readNodes(double tol) {
         temp.nodeId =
             nodeTag - 1;  // gmsh ids are 1 indexed hpgem is zero indexed
         temp.coordinate = std::vector<double>{x, y, z};
+        nodeIndices_[nodeTag] = nodes_.size();
         nodes_.push_back(temp);
     }
     readSectionEnd("Nodes");
 }
 
+std::size_t GmshReader::findNode(std::size_t nodeTag) const {
+    auto index = nodeIndices_.find(nodeTag);
+    logger.assert_always(index != nodeIndices_.end(),
+                         "Node % is not defined in the mesh file", nodeTag);
+    return index->second;
+}
+
 void GmshReader::readElements() {
 
     // Reordering of the nodes
@@ -366,8 +374,7 @@ void GmshReader::readElements() {
         for (std::size_t i = 0; i < num_points; i++) {
             size_t nodetag;
             Filehandle_ >> nodetag;
-            // gmsh ids are 1 indexed hpgem is zero indexed
-            element.coordinates_.push_back(nodetag - 1);
+            element.coordinates_.push_back(findNode(nodetag));
         }
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
@@ -466,8 +473,7 @@ void GmshReader::readPBCs() {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
-            // gmsh is 1 indexed hpgem is zero indexed
-            merge[node2 - 1] = node1 - 1;
+            merge[findNode(node2)] = findNode(node1);
         }
     }
     readSectionEnd("Periodic");
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..ea5424b 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -99,6 +99,8 @@ class GmshReader final : public MeshSource2 {
     void readPhysicalNames();
     /// Read a Nodes section
     void readNodes(double tol = 1e-12);
+    /// Index in nodes_ of the node with a certain number in the gmsh file
+    std::size_t findNode(std::size_t nodeTag) const;
     /// Read an Elements section
     void readElements();
     /// Read an ElementData section
@@ -135,6 +137,9 @@ class GmshReader final : public MeshSource2 {
     std::vector<MeshSource2::Element> elements_;
 
     std::vector<MeshSource2::Coord> nodes_;
+    /// For each node number in the gmsh file its index in nodes_. The numbers
+    /// do not have to be consecutive or ordered.
+    std::map<size_t, size_t> nodeIndices_;
 
     std::ifstream Filehandle_;
     std::map<size_t, size_t> nodesPerElementtype_;
-- 
2.43.0


From fa4d4de9aefd36c61b20198b02c8eb342b10808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 25/38] fix: announce the nine components of tensors in vtk
 files

---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..a756e7d 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From bb3d7eed630325ea4672341fe9ee72cc249fcddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 26/38] fix: clear the vectors of absent sources in DGMax

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..137079e 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -120,6 +120,7 @@ void DGMaxDiscretization<DIM>::computeElementIntegralsImpl(
             std::size_t numberOfBasisFunctions =
                 element->getNumberOfBasisFunctions(0);
             tempElementVector.resize(numberOfBasisFunctions);
+            tempElementVector.set(0.0);
             if (elementVectorDef.second) {
                 tempElementVector = elementIntegrator_.integrate(
                     element, [&](Base::PhysicalElement<DIM>& element) {
@@ -173,6 +174,7 @@ void DGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
             }
 
             tempFaceVector.resize(numberOfBasisFunctions);
+            tempFaceVector.set(0.0);
             using BCT = DGMax::BoundaryConditionType;
             BCT bct =
                 face->isInternal() ? BCT::INTERNAL : boundaryIndicator(*face);
-- 
2.43.0


From 9d5ee9a71d07367cbcb55fa83cb339a1e02e2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 27/38] fix: use the coefficients of each side for DGMax energy
 fluxes in the orthogonalised basis

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 137079e..2c7e120 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -657,7 +657,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
         face.getPtrElementLeft()
             ->getElementMatrix(MASS_MATRIX_ID)
             .solveLowerTriangular(
-                coefficients, hpgem::LinearAlgebra::Side::OP_LEFT,
+                solveCoefs, hpgem::LinearAlgebra::Side::OP_LEFT,
                 hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
 
         if (face.isInternal()) {
@@ -671,7 +671,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                 face.getPtrElementRight()->getNumberOfBasisFunctions();
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                temp[i] = coefficients[i + rightDoFs];
+                temp[i] = coefficients[i + leftDoFs];
             }
             face.getPtrElementRight()
                 ->getElementMatrix(MASS_MATRIX_ID)
@@ -679,7 +679,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                     temp, hpgem::LinearAlgebra::Side::OP_LEFT,
                     hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                coefficients[i + rightDoFs] = temp[i];
+                coefficients[i + leftDoFs] = temp[i];
             }
         }
     }
-- 
2.43.0


From 0b1f0b016c58a37ed616df57eb2da64a63418c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 28/38] fix: offset of the right element in the DGMax field
 norm on faces

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 2c7e120..b8e5580 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -742,7 +742,7 @@ double DGMaxDiscretization<DIM>::computeFieldL2Integral(Base::Face& face,
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From d698b8b6396998009cc307bdada8d1b1be3dc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 29/38] fix: add the Brezzi boundary term only for a Brezzi
 tangential flux

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..68d0423 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From 63b3ab8946dd0a969ff1aaaac23e66e7f35e3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 30/38] fix: coefficients of the field in DivDGMax energy
 fluxes

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 68d0423..8e71cda 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,9 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                // Only the coefficients of the field, left followed by right
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From a1d770c1f152432c2d5834f0a0fbf51c8d971677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 31/38] fix: offset of the right element in the DivDGMax field
 norm on faces

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 8e71cda..21d9ea1 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -422,7 +422,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From 69f6054c53f59ebbfd8c27b532c763f9b5cb6962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 32/38] fix: conjugate the test function in the normal penalty
 of DivDGMax

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 21d9ea1..0eb4510 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -643,7 +643,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From 6f19e149df748ad42cbe5bcbd623824e2b055308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 33/38] fix: material of the right side in the normal lifting
 of DivDGMax

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 0eb4510..161605a 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -961,7 +961,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From 8d7c1cfe6223eb1c648cb80a0ad4173c5a303c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 34/38] fix: children and faces of the refinement maps of
 triangles

---
 .../Mappings/RefinementMapsForTriangle.h      | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangle.h b/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
index d7a6e73..cf45e55 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
@@ -259,7 +259,10 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {(p[0] + subElementIndex) / 2., p[1]};
+        if (subElementIndex == 0) {
+            return {p[0] / 2., p[1]};
+        }
+        return {(1. + p[0] - p[1]) / 2., p[1]};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixL(
@@ -269,7 +272,10 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.}}, {{0., 1.}}}};
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.}}, {{0., 1.}}}};
+        }
+        return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.}}, {{-0.5, 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixR(
@@ -279,7 +285,10 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {-subelementIndex, 0, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{2., 0.}}, {{0., 1.}}}};
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<2, 2>{{{{2., 0.}}, {{0., 1.}}}};
+        }
+        return LinearAlgebra::SmallMatrix<2, 2>{{{{2., 0.}}, {{1., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 1; }
@@ -388,7 +397,10 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {p[0], (p[1] + subElementIndex) / 2.};
+        if (subElementIndex == 0) {
+            return {p[0], p[1] / 2.};
+        }
+        return {p[0], (1. + p[1] - p[0]) / 2.};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixL(
@@ -398,7 +410,10 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {0, subElementIndex / 2, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 0.5}}}};
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 0.5}}}};
+        }
+        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., -0.5}}, {{0., 0.5}}}};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixR(
@@ -408,7 +423,10 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {0, -subelementIndex, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 2.}}}};
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 2.}}}};
+        }
+        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 1.}}, {{0., 2.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 1; }
@@ -517,7 +535,7 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        if (subElementIndex == 0) {
+        if (subElementIndex == 1) {
             return {0.5 * p[0], 0.5 * p[0] + p[1]};
         }
         return {p[0] + 0.5 * p[1], 0.5 * p[1]};
@@ -529,7 +547,7 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        if (subElementIndex == 0) {
+        if (subElementIndex == 1) {
             // the bonus column might be {0, 0, 1}
             return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.5}}, {{0., 1.}}}};
         }
@@ -543,7 +561,7 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        if (subElementIndex == 0) {
+        if (subElementIndex == 1) {
             // the bonus column might be {0, 0, 1}
             return LinearAlgebra::SmallMatrix<2, 2>{{{{2., -1.}}, {{0., 1.}}}};
         }
@@ -1165,7 +1183,7 @@ class RefinementMapForTriangle6 : public RefinementMapping {
             case 1:
                 return std::make_tuple(0, face);
             case 2:
-                return std::make_tuple(subFaceIndex, subFaceIndex + 2);
+                return std::make_tuple(1 - subFaceIndex, subFaceIndex + 2);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1462,9 +1480,9 @@ class RefinementMapForTriangle8 : public RefinementMapping {
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
         const final {
         return std::vector<const RefinementMapping*>{
-            RefinementMapForLine0::instance(),
             RefinementMapForLine1::instance(),
-            RefinementMapForLine1::instance()};
+            RefinementMapForLine1::instance(),
+            RefinementMapForLine0::instance()};
     }
 
     std::vector<std::size_t> getCodim1LocalNodeIndices(
-- 
2.43.0


From 3b7ad7c51a63cd226466dd645cf4b8f18dee9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 35/38] fix: node tables of the refinement maps of cubes

---
 .../Geometry/Mappings/RefinementMapsForCube.h | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForCube.h b/kernel/Geometry/Mappings/RefinementMapsForCube.h
index 6a537cf..9a3f56d 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForCube.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForCube.h
@@ -1160,13 +1160,13 @@ class RefinementMapForCube5 : public RefinementMapping {
         std::size_t subElementIndex) const final {
         switch (subElementIndex) {
             case 0:
-                return std::vector<std::size_t>{0, 8, 2, 9, 12, 16, 14, 17};
+                return std::vector<std::size_t>{0, 8, 2, 13, 10, 12, 15, 17};
             case 1:
-                return std::vector<std::size_t>{8, 1, 9, 3, 16, 13, 17, 15};
+                return std::vector<std::size_t>{8, 1, 13, 3, 12, 11, 17, 16};
             case 2:
-                return std::vector<std::size_t>{12, 16, 14, 17, 4, 10, 6, 11};
+                return std::vector<std::size_t>{10, 12, 15, 17, 4, 9, 6, 14};
             case 3:
-                return std::vector<std::size_t>{16, 13, 17, 15, 10, 5, 11, 7};
+                return std::vector<std::size_t>{12, 11, 17, 16, 9, 5, 14, 7};
             default:
                 logger(
                     ERROR,
@@ -1219,9 +1219,9 @@ class RefinementMapForCube5 : public RefinementMapping {
             case 3:
                 return {1, 3, 5, 7, 11, 16};
             case 4:
-                return {2, 3, 6, 7, 9, 14};
+                return {2, 3, 6, 7, 13, 15, 16, 14, 17};
             case 5:
-                return {4, 5, 6, 7, 13, 15, 16, 14, 17};
+                return {4, 5, 6, 7, 9, 14};
             default:
                 logger(ERROR, "asked for Face %, but there are only % Faces",
                        localFaceNumber,
@@ -1361,13 +1361,13 @@ class RefinementMapForCube6 : public RefinementMapping {
         std::size_t subElementIndex) const final {
         switch (subElementIndex) {
             case 0:
-                return std::vector<std::size_t>{0, 1, 8, 9, 12, 13, 16, 17};
+                return std::vector<std::size_t>{0, 1, 8, 13, 10, 15, 12, 17};
             case 1:
-                return std::vector<std::size_t>{8, 9, 2, 3, 16, 17, 14, 15};
+                return std::vector<std::size_t>{8, 13, 2, 3, 12, 17, 11, 16};
             case 2:
-                return std::vector<std::size_t>{12, 13, 16, 17, 4, 5, 10, 11};
+                return std::vector<std::size_t>{10, 15, 12, 17, 4, 5, 9, 14};
             case 3:
-                return std::vector<std::size_t>{16, 17, 14, 15, 10, 11, 6, 7};
+                return std::vector<std::size_t>{12, 17, 11, 16, 9, 14, 6, 7};
             default:
                 logger(
                     ERROR,
@@ -1384,7 +1384,7 @@ class RefinementMapForCube6 : public RefinementMapping {
     Geometry::ReferenceGeometry* getSubElementReferenceGeometry(
         std::size_t subElement) const final {
         logger.assert_debug(
-            subElement == 0,
+            subElement < getNumberOfSubElements(),
             "asked for subElement %, but the % has only % subElements",
             subElement, getName(), getNumberOfSubElements());
         return &Geometry::ReferenceCube::Instance();
@@ -1602,21 +1602,21 @@ class RefinementMapForCube7 : public RefinementMapping {
         std::size_t subElementIndex) const final {
         switch (subElementIndex) {
             case 0:
-                return std::vector<std::size_t>{0, 8, 12, 20, 16, 22, 24, 26};
+                return std::vector<std::size_t>{0, 8, 12, 24, 16, 22, 20, 26};
             case 1:
-                return std::vector<std::size_t>{8, 1, 20, 13, 22, 17, 26, 25};
+                return std::vector<std::size_t>{8, 1, 24, 13, 22, 17, 26, 21};
             case 2:
-                return std::vector<std::size_t>{12, 20, 2, 9, 24, 26, 18, 23};
+                return std::vector<std::size_t>{12, 24, 2, 9, 20, 26, 18, 23};
             case 3:
-                return std::vector<std::size_t>{20, 13, 9, 3, 26, 25, 23, 19};
+                return std::vector<std::size_t>{24, 13, 9, 3, 26, 21, 23, 19};
             case 4:
-                return std::vector<std::size_t>{16, 22, 24, 26, 4, 10, 14, 21};
+                return std::vector<std::size_t>{16, 22, 20, 26, 4, 10, 14, 25};
             case 5:
-                return std::vector<std::size_t>{22, 17, 26, 25, 10, 5, 21, 15};
+                return std::vector<std::size_t>{22, 17, 26, 21, 10, 5, 25, 15};
             case 6:
-                return std::vector<std::size_t>{24, 26, 18, 23, 14, 21, 6, 11};
+                return std::vector<std::size_t>{20, 26, 18, 23, 14, 25, 6, 11};
             case 7:
-                return std::vector<std::size_t>{26, 25, 23, 19, 21, 15, 11, 7};
+                return std::vector<std::size_t>{26, 21, 23, 19, 25, 15, 11, 7};
             default:
                 logger(
                     ERROR,
@@ -1667,11 +1667,11 @@ class RefinementMapForCube7 : public RefinementMapping {
             case 1:
                 return {0, 1, 4, 5, 8, 16, 17, 10, 22};
             case 2:
-                return {0, 2, 4, 6, 16, 12, 14, 18, 20};
+                return {0, 2, 4, 6, 12, 16, 18, 14, 20};
             case 3:
-                return {1, 3, 5, 7, 17, 13, 15, 19, 21};
+                return {1, 3, 5, 7, 13, 17, 19, 15, 21};
             case 4:
-                return {2, 3, 6, 7, 18, 9, 11, 19, 23};
+                return {2, 3, 6, 7, 9, 18, 19, 11, 23};
             case 5:
                 return {4, 5, 6, 7, 10, 14, 15, 11, 25};
             default:
-- 
2.43.0


From 9e0a0385b9483a724591ca932b933f467ea78e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 36/38] fix: children and faces of the refinement maps of
 prisms

---
 .../RefinementMapsForTriangularPrism.h        | 210 ++++++------------
 1 file changed, 74 insertions(+), 136 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
index b3e409a..da675f3 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
@@ -312,7 +312,10 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {(p[0] + subElementIndex) / 2., p[1], p[2]};
+        if (subElementIndex == 0) {
+            return {p[0] / 2., p[1], p[2]};
+        }
+        return {(1. + p[0] - p[1]) / 2., p[1], p[2]};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixL(
@@ -322,8 +325,12 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 0, 1}
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<3, 3>{
+                {{{0.5, 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+        }
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{0.5, 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+            {{{0.5, 0., 0.}}, {{-0.5, 1., 0.}}, {{0., 0., 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixR(
@@ -333,8 +340,12 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is most likely {-subelementIndex, 0, 0, 1}
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<3, 3>{
+                {{{2., 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+        }
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{2., 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+            {{{2., 0., 0.}}, {{1., 1., 0.}}, {{0., 0., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 2; }
@@ -454,7 +465,10 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {p[0], (p[1] + subElementIndex) / 2., p[2]};
+        if (subElementIndex == 0) {
+            return {p[0], p[1] / 2., p[2]};
+        }
+        return {p[0], (1. + p[1] - p[0]) / 2., p[2]};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixL(
@@ -464,8 +478,12 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 0, 1}
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<3, 3>{
+                {{{1., 0., 0.}}, {{0., 0.5, 0.}}, {{0., 0., 1.}}}};
+        }
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{1., 0., 0.}}, {{0., 0.5, 0.}}, {{0., 0., 1.}}}};
+            {{{1., -0.5, 0.}}, {{0., 0.5, 0.}}, {{0., 0., 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixR(
@@ -475,8 +493,12 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is most likely {-subelementIndex, 0, 0, 1}
+        if (subElementIndex == 0) {
+            return LinearAlgebra::SmallMatrix<3, 3>{
+                {{{1., 0., 0.}}, {{0., 2., 0.}}, {{0., 0., 1.}}}};
+        }
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{1., 0., 0.}}, {{0., 2., 0.}}, {{0., 0., 1.}}}};
+            {{{1., 1., 0.}}, {{0., 2., 0.}}, {{0., 0., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 2; }
@@ -564,7 +586,7 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             case 1:
                 return std::make_tuple(subFaceIndex, face);
             case 2:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             case 3:
                 return std::make_tuple(0, face);
             case 4:
@@ -717,13 +739,13 @@ class RefinementMapForTriangularPrism3 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             case 2:
                 return std::make_tuple(0, face);
             case 3:
                 return std::make_tuple(1, face);
             case 4:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -911,33 +933,17 @@ class RefinementMapForTriangularPrism4 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
             case 0:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(
+                    subFaceIndex % 3 == 0 ? subFaceIndex : 3 - subFaceIndex,
+                    face);
             case 1:
                 return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+            case 2:
+                return std::make_tuple(2 - 2 * subFaceIndex, face);
+            case 3:
+                return std::make_tuple(subFaceIndex, face);
+            case 4:
+                return std::make_tuple(subFaceIndex + 1, face);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1050,7 +1056,7 @@ class RefinementMapForTriangularPrism5 : public RefinementMapping {
 
     std::vector<Geometry::PointReference<3>> getNewNodeLocations(
         const PointReference<3>&) const final {
-        return {{0., 0., 0.}, {0., 1., 0.}, {1., 0., 0.}};
+        return {{0., 0., 0.}, {1., 0., 0.}, {0., 1., 0.}};
     }
 
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
@@ -1303,33 +1309,18 @@ class RefinementMapForTriangularPrism6 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
             case 0:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(
+                    subFaceIndex % 3 == 0 ? subFaceIndex : 3 - subFaceIndex,
+                    face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, 5);
+            case 2:
+                return std::make_tuple(2 - 2 * subFaceIndex,
+                                       3 - 2 * subFaceIndex);
+            case 3:
+                return std::make_tuple(subFaceIndex, 3 - 2 * subFaceIndex);
+            case 4:
+                return std::make_tuple(subFaceIndex + 1, 3 - 2 * subFaceIndex);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1505,31 +1496,13 @@ class RefinementMapForTriangularPrism7 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, subFaceIndex == 0 ? 5 : 1);
+            case 2:
+                return std::make_tuple(0, 2);
+            case 3:
+                return std::make_tuple(subFaceIndex, subFaceIndex == 0 ? 1 : 3);
+            case 4:
+                return std::make_tuple(1 - subFaceIndex, 4);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1705,31 +1678,13 @@ class RefinementMapForTriangularPrism8 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, subFaceIndex == 0 ? 5 : 1);
+            case 2:
+                return std::make_tuple(1 - subFaceIndex, 2);
+            case 3:
+                return std::make_tuple(0, 1);
+            case 4:
+                return std::make_tuple(subFaceIndex, subFaceIndex == 0 ? 3 : 4);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1906,31 +1861,14 @@ class RefinementMapForTriangularPrism9 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, subFaceIndex == 0 ? 1 : 5);
+            case 2:
+                return std::make_tuple(1 - subFaceIndex,
+                                       subFaceIndex == 0 ? 4 : 2);
+            case 3:
+                return std::make_tuple(subFaceIndex, subFaceIndex == 0 ? 3 : 1);
+            case 4:
+                return std::make_tuple(1, 3);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
-- 
2.43.0


From 7b449bea7a1f6b052bbb35cf532941f7962fadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:34 +0000
Subject: [PATCH 37/38] fix: overlap integrals of the fields at consecutive
 wave vectors

They were computed with the stored matrix, which is the inverse of the mass
matrix or its factor, and with the fields of the previous wave vector after
those had been mixed to make up the initial search space.
---
 .../DG-Max/Algorithms/DGMaxEigenvalue.cpp     | 64 +++++++++++++++----
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
index 1f099a7..2e987de 100644
--- a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
@@ -126,6 +126,9 @@ class DGMaxEigenvalue<DIM>::SolverWorkspace {
 
     LinearAlgebra::MiddleSizeMatrix computeOverlapIntegrals();
 
+    /// Multiply coefficients of the basis functions with the mass matrix
+    void applyMass(Vec in, Vec out);
+
     /**
      * Take an eigenvector and write it to the element local timeintegration
      * vector.
@@ -631,36 +634,47 @@ void DGMaxEigenvalue<DIM>::SolverWorkspace::solve(
     // Setup search space //
     ////////////////////////
 
-    if (eigenpairs_.size() == 0) {
+    // Copies are used as search space, because the eigenvectors of the previous
+    // k-point are still needed for computing the overlap integrals.
+    const bool hasPrevious = eigenpairs_.size() > 0;
+    PetscInt searchSize = hasPrevious ? eigenpairs_.size() : 1;
+    Vec* searchSpace;
+    error = VecDuplicateVecs(tempFieldVector_, searchSize, &searchSpace);
+    CHKERRABORT(PETSC_COMM_WORLD, error);
+    if (!hasPrevious) {
         // Generate fresh starting vector
-        eigenpairs_.reserve(1, tempFieldVector_);
         DGMaxLogger(INFO, "Generating initial vector");
-        error = VecSetRandom(eigenpairs_.getRawEigenvectors()[0], nullptr);
+        error = VecSetRandom(searchSpace[0], nullptr);
         CHKERRABORT(PETSC_COMM_WORLD, error);
     } else {
         DGMaxLogger(INFO, "Combining previous eigen vectors");
-        for (PetscInt j = 1; j < eigenpairs_.size(); ++j) {
+        for (PetscInt j = 0; j < searchSize; ++j) {
+            error = VecCopy(eigenpairs_.getEigenvector(j), searchSpace[j]);
+            CHKERRABORT(PETSC_COMM_WORLD, error);
+        }
+        for (PetscInt j = 1; j < searchSize; ++j) {
             // Some eigenvalue solvers only uses a single starting vector.
             // Mix the eigenvalue spaces from the previous k-point in the
             // hope that these are rich in the eigenvectors for the next
             // space.
-            error = VecAYPX(eigenpairs_.getRawEigenvectors()[0], 1,
-                            eigenpairs_.getRawEigenvectors()[j]);
+            error = VecAYPX(searchSpace[0], 1, searchSpace[j]);
             CHKERRABORT(PETSC_COMM_WORLD, error);
         }
         // Add all previous eigenvectors to the eigenvalue solver, even
         // if they are not all used.
     }
     if (config_.useProjector_ != DGMaxEigenvalueBase::NONE) {
-        for (std::size_t j = 0; j < eigenpairs_.size(); ++j) {
-            projector->project(eigenpairs_.getRawEigenvectors()[j]);
+        for (PetscInt j = 0; j < searchSize; ++j) {
+            projector->project(searchSpace[j]);
         }
         DGMaxLogger(INFO, "Projected initial vector");
     }
 
     // Use solution of previous time as starting point for the next one.
-    error = EPSSetInitialSpace(solver_, eigenpairs_.size(),
-                               eigenpairs_.getRawEigenvectors());
+    error = EPSSetInitialSpace(solver_, searchSize, searchSpace);
+    CHKERRABORT(PETSC_COMM_WORLD, error);
+    // The solver keeps its own reference
+    error = VecDestroyVecs(searchSize, &searchSpace);
     CHKERRABORT(PETSC_COMM_WORLD, error);
 
     // Final Options //
@@ -721,6 +735,32 @@ void DGMaxEigenvalue<DIM>::SolverWorkspace::writeAsTimeIntegrationVector(
     tempFieldVector_.writeTimeIntegrationVector(timeIntegrationVectorId);
 }
 
+template <std::size_t DIM>
+void DGMaxEigenvalue<DIM>::SolverWorkspace::applyMass(Vec in, Vec out) {
+    PetscErrorCode err = VecCopy(in, out);
+    CHKERRABORT(PETSC_COMM_WORLD, err);
+    if (config_.useHermitian_) {
+        // The coefficients are for orthonormalized basis functions
+        return;
+    }
+    // The elements (and massMatrix_) have the inverse of the mass matrix
+    PetscScalar* data;
+    err = VecGetArray(out, &data);
+    CHKERRABORT(PETSC_COMM_WORLD, err);
+    for (const Base::Element* element : mesh_->getElementsList()) {
+        PetscScalar* local =
+            data + fieldIndex_.getProcessorLocalIndex(element, 0);
+        LinearAlgebra::MiddleSizeVector coefficients(
+            local, element->getNumberOfBasisFunctions(0));
+        element->getElementMatrix(DGMaxDiscretizationBase::MASS_MATRIX_ID)
+            .solve(coefficients);
+        std::copy(coefficients.data(),
+                  coefficients.data() + coefficients.size(), local);
+    }
+    err = VecRestoreArray(out, &data);
+    CHKERRABORT(PETSC_COMM_WORLD, err);
+}
+
 template <std::size_t DIM>
 LinearAlgebra::MiddleSizeMatrix
     DGMaxEigenvalue<DIM>::SolverWorkspace::computeOverlapIntegrals() {
@@ -728,9 +768,7 @@ LinearAlgebra::MiddleSizeMatrix
                                            previousEigenpairs_.size());
     PetscErrorCode err;
     for (std::size_t i = 0; i < eigenpairs_.size(); ++i) {
-        err = MatMult(massMatrix_, eigenpairs_.getEigenvector(i),
-                      tempFieldVector_);
-        CHKERRABORT(PETSC_COMM_WORLD, err);
+        applyMass(eigenpairs_.getEigenvector(i), tempFieldVector_);
         for (std::size_t j = 0; j < previousEigenpairs_.size(); ++j) {
             // Note VecMDot might be a bit faster, but
             // a) this is not needed
-- 
2.43.0


From 6335e5c443c61f6b72f0da56d6fa97aa5c0bc6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:34 +0000
Subject: [PATCH 38/38] fix: sources and boundary data in the fourth-order time
 integration

The copies of the load vector were commented out, so that the fourth-order
method silently solved the problem without sources and boundary data.
---
 .../Algorithms/DGMaxTimeIntegration.cpp       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index 7f44443..67244c3 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -240,19 +240,27 @@ void DGMaxTimeIntegration<DIM>::solve(
                 CHKERRABORT(PETSC_COMM_WORLD, error);
 
                 sourceTime = t + (alpha_sum[k - 1] + beta_sum[k - 1]) * tau;
-                double eta = input.timeScalingBoundary(sourceTime);
-                // error = VecCopy(RHS_, dummy2);
+                error = VecCopy(rhsBoundary, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-                error = VecScale(dummy2, beta[k] * tau * eta);
+                error = VecScale(dummy2, input.timeScalingBoundary(sourceTime));
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecAXPY(dummy2, input.timeScalingSource(sourceTime),
+                                rhsSource);
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecScale(dummy2, beta[k] * tau);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
                 VecAYPX(dummy, -(beta[k] + alpha[k]) * tau, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
 
                 sourceTime = t + (alpha_sum[k] + beta_sum[k]) * tau;
-                eta = input.timeScalingBoundary(sourceTime);
-                // error = VecCopy(RHS_, dummy2);
+                error = VecCopy(rhsBoundary, dummy2);
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecScale(dummy2, input.timeScalingBoundary(sourceTime));
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecAXPY(dummy2, input.timeScalingSource(sourceTime),
+                                rhsSource);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-                error = VecScale(dummy2, alpha[k] * tau * eta);
+                error = VecScale(dummy2, alpha[k] * tau);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
                 error = VecAXPY(dummy, 1.0, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-- 
2.43.0

