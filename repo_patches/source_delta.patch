From 099ef80ea11bbd482e84ded2bee398bfde60a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:13 +0000
Subject: [PATCH 01/48] fix: conforming functions of quadrilateral prism faces
 used the triangular face class and cyclic node order

---
 .../FE/BasisFunctions3DH1ConformingPrism.cpp  | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 47c9f3a..46ce2ed 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -695,72 +695,72 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 0, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[2], j, k));
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 1, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[1], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[3], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[1], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 2, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 3, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[0],
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 4, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 5, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[3], j, k));
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 6, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[1],
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 7, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[0], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[2], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[0], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
-- 
2.43.0


From bca8a078a3902e3d1862343f22f7bf7702c27474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:39 +0000
Subject: [PATCH 02/48] fix: conforming face functions of the cube ignored the
 transposition of the shared face

---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..385a143 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -238,6 +238,11 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
+    if (node0 / 4 != node1 / 4) {
+        // the first direction of the face is the z-direction
+        std::swap(node1, node2);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
     mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
                                            // be consistent for one face
     mirroring2_ = node0 < node2 ? 1 : -1;
@@ -290,6 +295,11 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
+    if (node0 / 4 != node1 / 4) {
+        // the first direction of the face is the z-direction
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
@@ -348,6 +358,11 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
+    if (node0 % 2 == node1 % 2) {
+        // the first direction of the face is the y-direction
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring1_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
-- 
2.43.0


From ed80593641ad59c8ffb0abf1a63f92d2d24a9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:39 +0000
Subject: [PATCH 03/48] fix: odd edge and face functions of the cube had the
 opposite sign of those of the prism

---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 385a143..8a6b8ec 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -94,7 +94,7 @@ BasisFunction3DEdgeCube_0::BasisFunction3DEdgeCube_0(
         "This class is intended for edges aligned in the x-direction");
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_0::eval(
@@ -142,7 +142,7 @@ BasisFunction3DEdgeCube_1::BasisFunction3DEdgeCube_1(
         "This class is intended for edges aligned in the y-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_1::eval(
@@ -190,7 +190,7 @@ BasisFunction3DEdgeCube_2::BasisFunction3DEdgeCube_2(
         "This class is intended for edges aligned in the z-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_2::evalDeriv0(
@@ -243,9 +243,9 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
         std::swap(node1, node2);
         std::swap(polynomialOrder1_, polynomialOrder2_);
     }
-    mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
+    mirroring1_ = node0 < node1 ? -1 : 1;  // choices about mirroring need only
                                            // be consistent for one face
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
 
@@ -300,8 +300,8 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
         std::swap(node1, node2);
         std::swap(polynomialOrder0_, polynomialOrder2_);
     }
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
 }
 
@@ -363,8 +363,8 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
         std::swap(node1, node2);
         std::swap(polynomialOrder0_, polynomialOrder1_);
     }
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring1_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring1_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
 }
 
-- 
2.43.0


From cb62bd08eab09fe88223ca7dfd9fc2c67aab07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:36 +0000
Subject: [PATCH 04/48] fix: IdentityTransformation did not override the
 transformations it implements and could not be instantiated

---
 kernel/Base/IdentityTransformation.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kernel/Base/IdentityTransformation.h b/kernel/Base/IdentityTransformation.h
index ad1df87..5586787 100644
--- a/kernel/Base/IdentityTransformation.h
+++ b/kernel/Base/IdentityTransformation.h
@@ -54,35 +54,35 @@ class IdentityTransformation : public CoordinateTransformation<DIM> {
    public:
     /// just do noting with the data
     double transform(double referenceData,
-                     CoordinateTransformationData<DIM>&) const override final {
+                     const CoordinateTransformationData<DIM>&) const override final {
         return referenceData;
     }
 
     /// just do noting with the data
     LinearAlgebra::SmallVector<DIM> transform(
         LinearAlgebra::SmallVector<DIM> referenceData,
-        CoordinateTransformationData<DIM>&) const override final {
+        const CoordinateTransformationData<DIM>&) const override final {
         return referenceData;
     }
 
     /// just do noting with the data
     LinearAlgebra::SmallVector<DIM> transformDeriv(
         LinearAlgebra::SmallVector<DIM> referenceData,
-        CoordinateTransformationData<DIM>&) const override final {
+        const CoordinateTransformationData<DIM>&) const override final {
         return referenceData;
     }
 
     /// just do noting with the data
     double transformDiv(
         double referenceData,
-        CoordinateTransformationData<DIM>&) const override final {
+        const CoordinateTransformationData<DIM>&) const override final {
         return referenceData;
     }
 
     /// just do noting with the data
     LinearAlgebra::SmallVector<DIM> transformCurl(
         LinearAlgebra::SmallVector<DIM> referenceData,
-        CoordinateTransformationData<DIM>&) const override final {
+        const CoordinateTransformationData<DIM>&) const override final {
         return referenceData;
     }
 };
-- 
2.43.0


From a6dc9caff2869cb34c0dfff20a59b1c1eb9c7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:53 +0000
Subject: [PATCH 05/48] fix: solution of the second and later unknowns was
 evaluated with the basis functions of the first

---
 kernel/Base/PhysicalElement_Impl.h | 14 ++++++++++++--
 kernel/Base/PhysicalFace_Impl.h    |  9 +++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index ffbeafb..d338e20 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -429,7 +429,7 @@ inline const LinearAlgebra::MiddleSizeVector&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVb = theElement_->convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVb) * basisFunction(iB);
+            solution[iV] += data(iVb) * basisFunction(iB, iV);
         }
     }
     return solution;
@@ -459,7 +459,7 @@ inline const std::vector<LinearAlgebra::SmallVector<DIM> >&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB);
+            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB, iV);
         }
     }
     return solutionDeriv;
@@ -677,6 +677,16 @@ inline void PhysicalElement<DIM>::setElement(const Element* element) {
     resultMatrix.resize(numberOfEntries, numberOfEntries);
     resultVector.resize(numberOfEntries);
 
+    // unknowns without a transformation of their own use the one of the first
+    if (transform_.size() < unknowns) {
+        transform_.resize(unknowns);
+    }
+    for (auto& transform : transform_) {
+        if (transform == nullptr) {
+            transform = transform_[0];
+        }
+    }
+
     theElement_ = element;
     hasElement = true;
     // even if they are already computed, the information is now out of date
diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..edfca97 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -884,6 +884,15 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
         rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
         resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    // unknowns without a transformation of their own use the one of the first
+    if (transform_.size() < numberOfUnknowns) {
+        transform_.resize(numberOfUnknowns);
+    }
+    for (auto& transform : transform_) {
+        if (transform == nullptr) {
+            transform = transform_[0];
+        }
+    }
     face_ = face;
     hasFace = true;
     left.setElement(face->getPtrElementLeft());
-- 
2.43.0


From 1d103effa10addb605378b870eab3af2928f6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:53 +0000
Subject: [PATCH 06/48] fix: normal times basis function of an unknown used the
 basis functions of the first unknown

---
 kernel/Base/PhysicalFace_Impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index edfca97..5dad6c4 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
-- 
2.43.0


From 6f6a0491c55a2d28a88756c35687494db23c3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:53 +0000
Subject: [PATCH 07/48] fix: cross products per side called the functions
 without cross product and did not compile

---
 kernel/Base/PhysicalFace_Impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5dad6c4..136a713 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -429,11 +429,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result);
+        return basisFunctionNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[0], result);
 }
 
 template <std::size_t DIM>
@@ -443,11 +443,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result, unknown);
+        return basisFunctionNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[unknown], result,
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
                                unknown);
 }
 
@@ -537,11 +537,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result);
+        return basisFunctionUnitNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[0], result);
 }
 template <std::size_t DIM>
 inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
@@ -550,11 +550,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result, unknown);
+        return basisFunctionUnitNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[unknown], result,
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown], result,
                                    unknown);
 }
 
-- 
2.43.0


From ad6a0ac84fe18317b96e652dbf77ed1d1e6bd9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:07 +0000
Subject: [PATCH 08/48] fix: a physical face kept the sizes of the first face
 it was used for

---
 kernel/Base/PhysicalFace_Impl.h | 62 ++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 136a713..62b334c 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -846,45 +846,43 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
-        std::size_t leftCoefficients =
-            face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
-        nLeftBasisFunctions.resize(numberOfUnknowns);
-        basisFunctionNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionNormal_.resize(numberOfUnknowns);
-        basisFunctionUnitNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
-        std::size_t rightCoefficients = 0;
-        for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+    std::size_t leftCoefficients =
+        face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+    nLeftBasisFunctions.resize(numberOfUnknowns);
+    basisFunctionNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionNormal_.resize(numberOfUnknowns);
+    basisFunctionUnitNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
+    std::size_t rightCoefficients = 0;
+    for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+        std::size_t numBasis =
+            face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+        basisFunctionNormal_[i].resize(numBasis);
+        vectorBasisFunctionNormal_[i].resize(numBasis);
+        basisFunctionUnitNormal_[i].resize(numBasis);
+        vectorBasisFunctionUnitNormal_[i].resize(numBasis);
+        nLeftBasisFunctions[i] = numBasis;
+    }
+    if (isInternal_) {
+        rightCoefficients =
+            face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        // We assume that in the left and right element the number of
+        // unknowns is equal.
+        for (std::size_t i = 0;
+             i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
             std::size_t numBasis =
-                face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+                face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
+                face->getPtrElementRight()->getNumberOfBasisFunctions(i);
             basisFunctionNormal_[i].resize(numBasis);
             vectorBasisFunctionNormal_[i].resize(numBasis);
             basisFunctionUnitNormal_[i].resize(numBasis);
             vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            nLeftBasisFunctions[i] = numBasis;
-        }
-        if (isInternal_) {
-            rightCoefficients =
-                face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
-            // We assume that in the left and right element the number of
-            // unknowns is equal.
-            for (std::size_t i = 0;
-                 i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
-                std::size_t numBasis =
-                    face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
-                    face->getPtrElementRight()->getNumberOfBasisFunctions(i);
-                basisFunctionNormal_[i].resize(numBasis);
-                vectorBasisFunctionNormal_[i].resize(numBasis);
-                basisFunctionUnitNormal_[i].resize(numBasis);
-                vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            }
         }
-        resultMatrix.resize(leftCoefficients, rightCoefficients);
-        leftRightMatrix.resize(leftCoefficients, rightCoefficients);
-        rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
-        resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    resultMatrix.resize(leftCoefficients, rightCoefficients);
+    leftRightMatrix.resize(leftCoefficients, rightCoefficients);
+    rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
+    resultVector.resize(leftCoefficients + rightCoefficients);
     // unknowns without a transformation of their own use the one of the first
     if (transform_.size() < numberOfUnknowns) {
         transform_.resize(numberOfUnknowns);
-- 
2.43.0


From 4f64e04531c6315b2c6e9f83d11e6fa9a609d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:07 +0000
Subject: [PATCH 09/48] fix: face index of the right element counted only the
 functions interior to the left element

---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From 33c7173c8f666eb14b87b64ebe45735815fc6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 10/48] fix: gradient of the solution on the right of a rotated
 periodic face was not rotated

---
 kernel/Base/PhysicalFace.h      | 2 ++
 kernel/Base/PhysicalFace_Impl.h | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/kernel/Base/PhysicalFace.h b/kernel/Base/PhysicalFace.h
index c29eaf9..5307740 100644
--- a/kernel/Base/PhysicalFace.h
+++ b/kernel/Base/PhysicalFace.h
@@ -402,6 +402,8 @@ class PhysicalFace final {
     std::vector<LinearAlgebra::SmallVector<DIM>> vectorSolutionNormal_;
     std::vector<LinearAlgebra::SmallVector<DIM>> solutionUnitNormal_;
     std::vector<LinearAlgebra::SmallVector<DIM>> vectorSolutionUnitNormal_;
+    /// derivative of the right solution in the coordinates of the left element
+    std::vector<LinearAlgebra::SmallVector<DIM>> rightSolutionDeriv_;
 
     Geometry::PointReference<DIM - 1> pointReference_;
     QuadratureRules::GaussQuadratureRule* quadratureRule_;
diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 62b334c..4d7a886 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -594,6 +594,14 @@ inline const std::vector<LinearAlgebra::SmallVector<DIM>>&
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
+    if (requiresTransformation) {
+        rightSolutionDeriv_ = right.getSolutionDeriv();
+        for (std::size_t i = 0; i < rightSolutionDeriv_.size(); ++i) {
+            rightSolutionDeriv_[i] = transform_[i]->transformDeriv(
+                rightSolutionDeriv_[i], rightVectorTransform);
+        }
+        return rightSolutionDeriv_;
+    }
     return right.getSolutionDeriv();
 }
 
-- 
2.43.0


From 20ae61599f1c189561384970475f532b95601e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 11/48] fix: Bogacki-Shampine used the stage times of
 Dormand-Prince

---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
-- 
2.43.0


From 124ee62292b35ac672cdb87d4c68bd7b327c9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 12/48] fix: RK2TVD and RK3TVD evaluated every stage at the
 start of the time step

---
 kernel/Base/TimeIntegration/RK2TVD.cpp | 2 +-
 kernel/Base/TimeIntegration/RK3TVD.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From d4060d2fd0731488970be85ba36c7557c46ccd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 13/48] fix: don't step past the output or final time with a
 fixed time step

The last step before an output or the final time was only shortened for
adaptive time stepping, so the simulation ended past the requested final
time (T=1, dt=0.3 without output frames ended at 1.2) or, because of
rounding in the accumulated time, with one full step too many.
---
 kernel/Base/HpgemAPISimplified_Impl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..801fef3 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -1027,12 +1027,14 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
     std::size_t actualNumberOfTimeSteps = 0;
     while (time < finalTime - 1e-14) {
         actualNumberOfTimeSteps++;
+        // don't step past the next output time or the final time, neither when
+        // dt does not divide the interval nor because of round off in the time
+        const double maximumDt =
+            std::min(std::min(dt, outputTime - time), finalTime - time);
         if (error.isUsed()) {
-            computeOneTimeStep(
-                time, maximumRelativeError,
-                std::min(std::min(dt, outputTime - time), finalTime - time));
+            computeOneTimeStep(time, maximumRelativeError, maximumDt);
         } else {
-            computeOneTimeStep(time, dt);
+            computeOneTimeStep(time, maximumDt);
         }
 
         if (time > outputTime - 1e-12) {
-- 
2.43.0


From 7e018e0f89c65380c20939831ce4f20cf9c3dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:56 +0000
Subject: [PATCH 14/48] fix: raise face quadrature also when the element rule
 already suffices

---
 kernel/Base/Element.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/kernel/Base/Element.cpp b/kernel/Base/Element.cpp
index 6764fca..501d45c 100644
--- a/kernel/Base/Element.cpp
+++ b/kernel/Base/Element.cpp
@@ -142,33 +142,25 @@ std::size_t Element::getID() const { return id_; }
 std::size_t Element::getID() { return id_; }
 
 void Element::setQuadratureRulesWithOrder(std::size_t quadrROrder) {
-    bool changed = false;
-    if (quadratureRule_ == nullptr) {
+    if (quadratureRule_ == nullptr || quadrROrder > quadratureRule_->order()) {
         quadratureRule_ = Geometry::ElementGeometry::referenceGeometry_
                               ->getGaussQuadratureRule(quadrROrder);
-        changed = true;
-    } else if (quadrROrder > quadratureRule_->order()) {
-        quadratureRule_ = Geometry::ElementGeometry::referenceGeometry_
-                              ->getGaussQuadratureRule(quadrROrder);
-        changed = true;
     }
     // The quadrature orders of the faces are assigned when they are created
     // based on the current quadrature order on its neighbouring elements.
-    // If the quadrature order changes on this element it probably also has
-    // to change on the face.
-    if (changed) {
-        for (std::size_t i = 0; i < facesList_.size(); ++i) {
-            Face *face = facesList_[i];
-            if (face != nullptr) {
-                QuadratureRules::GaussQuadratureRule *rule =
-                    face->getGaussQuadratureRule();
-                std::size_t currentOrder = rule == nullptr ? 0 : rule->order();
-                if (quadrROrder > currentOrder) {
-                    face->setGaussQuadratureRule(
-                        this->getReferenceGeometry()
-                            ->getCodim1ReferenceGeometry(i)
-                            ->getGaussQuadratureRule(quadrROrder));
-                }
+    // The rule of the element may have a higher order than requested, while
+    // those of its faces do not, so they have to be checked separately.
+    for (std::size_t i = 0; i < facesList_.size(); ++i) {
+        Face *face = facesList_[i];
+        if (face != nullptr) {
+            QuadratureRules::GaussQuadratureRule *rule =
+                face->getGaussQuadratureRule();
+            std::size_t currentOrder = rule == nullptr ? 0 : rule->order();
+            if (quadrROrder > currentOrder) {
+                face->setGaussQuadratureRule(
+                    this->getReferenceGeometry()
+                        ->getCodim1ReferenceGeometry(i)
+                        ->getGaussQuadratureRule(quadrROrder));
             }
         }
     }
-- 
2.43.0


From ae685fe15e54cc86a0d0854e9af49a79564914cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:56 +0000
Subject: [PATCH 15/48] fix: forget face, edge and node functions of an unknown
 that becomes discontinuous

---
 kernel/Base/MeshManipulator_Impl.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..6ad0223 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -239,6 +239,18 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    // All functions will belong to the elements, forget the conforming ones
+    for (Base::Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Base::Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    if (dimension_ > 1) {
+        for (Base::Node *node : getNodesList(IteratorType::GLOBAL)) {
+            node->setLocalNumberOfBasisFunctions(0, unknown);
+        }
+    }
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
-- 
2.43.0


From 7d3f228081e9858e41680a3c34d8c9d5016fdd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 16/48] fix: FaceLocalIndexing: no offset for unknowns that are
 not included, accept no face

The right offset of an unknown that is not included wrapped around instead of
being UNKNOWN_NOT_INCLUDED, and reinit(nullptr), documented as allowed,
dereferenced the face.
---
 kernel/Utilities/FaceLocalIndexing.cpp | 4 ++--
 kernel/Utilities/FaceLocalIndexing.h   | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kernel/Utilities/FaceLocalIndexing.cpp b/kernel/Utilities/FaceLocalIndexing.cpp
index 6b2f225..87e1239 100644
--- a/kernel/Utilities/FaceLocalIndexing.cpp
+++ b/kernel/Utilities/FaceLocalIndexing.cpp
@@ -52,8 +52,8 @@ void FaceLocalIndexing::reinit(
 
 void FaceLocalIndexing::reinit(const Base::Face *face) {
     face_ = face;
-    left_.reinit(face->getPtrElementLeft());
-    right_.reinit(face->getPtrElementRight());
+    left_.reinit(face == nullptr ? nullptr : face->getPtrElementLeft());
+    right_.reinit(face == nullptr ? nullptr : face->getPtrElementRight());
 }
 }  // namespace Utilities
 }  // namespace hpgem
diff --git a/kernel/Utilities/FaceLocalIndexing.h b/kernel/Utilities/FaceLocalIndexing.h
index 9954f6b..1aba20d 100644
--- a/kernel/Utilities/FaceLocalIndexing.h
+++ b/kernel/Utilities/FaceLocalIndexing.h
@@ -79,9 +79,11 @@ class FaceLocalIndexing {
             hpgem::logger.assert_debug(
                 right_.getElement() != nullptr,
                 "Asking for the right side of an internal face");
-            // Also works for non included unknowns, as
-            // left_.getNumberOfDoFs() == 0 for such an unknown
-            return left_.getNumberOfDoFs() + right_.getDoFOffset(unknown);
+            const std::size_t offset = right_.getDoFOffset(unknown);
+            if (offset == ElementLocalIndexing::UNKNOWN_NOT_INCLUDED) {
+                return ElementLocalIndexing::UNKNOWN_NOT_INCLUDED;
+            }
+            return left_.getNumberOfDoFs() + offset;
         }
     }
 
-- 
2.43.0


From 1a43bdbf4d9c10de8f20df954b0c0d6b87ccdf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 17/48] fix: ElementLocalIndexing: do not read past the end of
 an empty list of unknowns

---
 kernel/Utilities/ElementLocalIndexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Utilities/ElementLocalIndexing.cpp b/kernel/Utilities/ElementLocalIndexing.cpp
index 0f7a23c..eb769d4 100644
--- a/kernel/Utilities/ElementLocalIndexing.cpp
+++ b/kernel/Utilities/ElementLocalIndexing.cpp
@@ -54,7 +54,7 @@ void ElementLocalIndexing::reinit(
     std::sort(includedUnknowns_.begin(), includedUnknowns_.end());
 #ifdef HPGEM_ASSERTS
     // Check for duplicates, easy after sorting
-    for (std::size_t i = 0; i < includedUnknowns_.size() - 1; ++i) {
+    for (std::size_t i = 0; i + 1 < includedUnknowns_.size(); ++i) {
         logger.assert_debug(includedUnknowns_[i] != includedUnknowns_[i + 1],
                             "Duplicate unknown");
     }
-- 
2.43.0


From 299aa754115a34387b2e1b6ec3600c5d84cdfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 18/48] fix: GlobalIndexing: forget the included unknowns when
 reset to no mesh

---
 kernel/Utilities/GlobalIndexing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernel/Utilities/GlobalIndexing.cpp b/kernel/Utilities/GlobalIndexing.cpp
index 87071c0..986eeec 100644
--- a/kernel/Utilities/GlobalIndexing.cpp
+++ b/kernel/Utilities/GlobalIndexing.cpp
@@ -217,8 +217,10 @@ void GlobalIndexing::reset(Base::MeshManipulatorBase *mesh, Layout layout,
         }
     } else {
         localNumberOfBasisFunctions_ = 0;
+        globalNumberOfBasisFunctions_ = 0;
         totalNumberOfUnknowns_ = 0;
         offsets_.clear();
+        includedUnknowns_.clear();
     }
 }
 
-- 
2.43.0


From 7d5f4fc0d6f0f21f66250306666eae950065012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 19/48] fix: GlobalPetscVector: write one unknown when unknowns
 have different numbers of functions

---
 kernel/Utilities/GlobalVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..66e23f2 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -454,8 +454,9 @@ void GlobalPetscVector::writeTimeIntegrationVector(
         logger.assert_debug(localData.size() == runningTotal,
                             "not enough info to fill the vector");
         LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
+            (*it)->getNumberOfBasisFunctions(unknown));
+        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(unknown);
+             ++i) {
             singleUnknownData[i] =
                 localData[(*it)->convertToSingleIndex(i, unknown)];
         }
-- 
2.43.0


From 58f3e9cf1be4da7c6499476ef0efbb8009b5a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:13 +0000
Subject: [PATCH 20/48] fix: pass the real workspace zgelss requires in
 MiddleSizeMatrix::pseudoSolve

The complex LAPACK routine takes an RWORK array between LWORK and INFO.
Without it the complex configuration passes &info as RWORK and garbage as
INFO, which corrupts memory.
---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..b1ae3f2 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rWork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -898,8 +899,9 @@ void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
+    std::vector<double> rWork(5 * n);
     zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+            work.data(), &lWork, rWork.data(), &info);
 #else
     dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
             work.data(), &lWork, &info);
-- 
2.43.0


From 6528a072ea6b7d0b000f58942eb6da7c828f7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 21/48] fix: DG-Max: element and face vectors without input
 function are zero

The temporary vector is shared by all vectors that are computed; without an
input function it kept the values of the previous vector.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..137079e 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -120,6 +120,7 @@ void DGMaxDiscretization<DIM>::computeElementIntegralsImpl(
             std::size_t numberOfBasisFunctions =
                 element->getNumberOfBasisFunctions(0);
             tempElementVector.resize(numberOfBasisFunctions);
+            tempElementVector.set(0.0);
             if (elementVectorDef.second) {
                 tempElementVector = elementIntegrator_.integrate(
                     element, [&](Base::PhysicalElement<DIM>& element) {
@@ -173,6 +174,7 @@ void DGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
             }
 
             tempFaceVector.resize(numberOfBasisFunctions);
+            tempFaceVector.set(0.0);
             using BCT = DGMax::BoundaryConditionType;
             BCT bct =
                 face->isInternal() ? BCT::INTERNAL : boundaryIndicator(*face);
-- 
2.43.0


From 68170f2a306b0d07651272812d08a64471bc023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 22/48] fix: DG-Max: energy fluxes with orthogonalized basis
 functions

Solve for the left coefficients rather than for all coefficients of the face,
read the right coefficients after the left ones, and only use the basis
functions of the field.
---
 .../DG-Max/Algorithms/DGMaxDiscretization.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 137079e..8aec6f1 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -480,7 +480,7 @@ void DGMaxDiscretization<DIM>::faceVector(
     LinearAlgebra::MiddleSizeVector& ret,
     DGMax::BoundaryConditionType bct) const {
 
-    std::size_t numDoFs = fa.getNumberOfBasisFunctions();
+    std::size_t numDoFs = fa.getNumberOfBasisFunctions(0);
     ret.resize(numDoFs);
 
     const Base::Face* face = fa.getFace();
@@ -541,7 +541,7 @@ typename DGMaxDiscretization<DIM>::Fields
         physicalElement.basisFunction(i, phi, 0);
         result.electricField += coefficients[i] * phi;
         result.electricFieldCurl +=
-            coefficients[i] * physicalElement.basisFunctionCurl(i);
+            coefficients[i] * physicalElement.basisFunctionCurl(i, 0);
     }
     const ElementInfos& userData = ElementInfos::get(*element);
 
@@ -637,7 +637,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
     using VecC = LinearAlgebra::SmallVectorC<DIM>;
 
     auto coefficients = face.getTimeIntegrationVector(timeIntegrationVectorId);
-    auto leftDoFs = face.getPtrElementLeft()->getNumberOfBasisFunctions();
+    auto leftDoFs = face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     if (matrixHandling_ == ORTHOGONALIZE) {
         // We need to undo the orthogonalization
         // for boundary faces this is easy (see computing of fields). For
@@ -657,7 +657,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
         face.getPtrElementLeft()
             ->getElementMatrix(MASS_MATRIX_ID)
             .solveLowerTriangular(
-                coefficients, hpgem::LinearAlgebra::Side::OP_LEFT,
+                solveCoefs, hpgem::LinearAlgebra::Side::OP_LEFT,
                 hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
 
         if (face.isInternal()) {
@@ -668,10 +668,10 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
 
             // Same process but now for the coefficients on the right side.
             std::size_t rightDoFs =
-                face.getPtrElementRight()->getNumberOfBasisFunctions();
+                face.getPtrElementRight()->getNumberOfBasisFunctions(0);
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                temp[i] = coefficients[i + rightDoFs];
+                temp[i] = coefficients[i + leftDoFs];
             }
             face.getPtrElementRight()
                 ->getElementMatrix(MASS_MATRIX_ID)
@@ -679,7 +679,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                     temp, hpgem::LinearAlgebra::Side::OP_LEFT,
                     hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                coefficients[i + rightDoFs] = temp[i];
+                coefficients[i + leftDoFs] = temp[i];
             }
         }
     }
@@ -696,10 +696,10 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgE;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            for (int i = 0; i < pface.getNumberOfBasisFunctions(); ++i) {
+            for (int i = 0; i < pface.getNumberOfBasisFunctions(0); ++i) {
                 avgCurl +=
-                    factor * coefficients[i] * pface.basisFunctionCurl(i);
-                pface.basisFunction(i, phi);
+                    factor * coefficients[i] * pface.basisFunctionCurl(i, 0);
+                pface.basisFunction(i, phi, 0);
                 avgE += factor * coefficients[i] * normal.crossProduct(phi);
             }
             // Compute n . Re(S) = n . Re(E x flux[H]^*)
-- 
2.43.0


From faee05bd94a22629cbce50258a2aaa83ab0bb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 23/48] fix: DG-Max: the right coefficients follow the left
 coefficients of the field

Face vectors of unknown 0 have an offset of the number of basis functions of
that unknown on the left element, not of all unknowns.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp    | 2 +-
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 8aec6f1..97949b2 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -742,7 +742,7 @@ double DGMaxDiscretization<DIM>::computeFieldL2Integral(Base::Face& face,
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..5dc3035 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -424,7 +424,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From 26d47fd0adb2bd5f170ff8cfc428199772d04681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 24/48] fix: DivDGMax: field coefficients in the energy fluxes

The vector only has the coefficients of the field.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 5dc3035..cac29e6 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,9 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                // Only the coefficients of u, first left then right
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From 13cb2a3bfe54d669f2b09b9d5159468fc41a72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 25/48] fix: DivDGMax: conjugate the right function in the
 normal jump penalty

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index cac29e6..8c8705d 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -643,7 +643,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From 10fede13a868e6015e6c900d4d8aec27de76d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 26/48] fix: DivDGMax: material of the right element in the
 lifted normal penalty

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 8c8705d..07b2ce4 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -961,7 +961,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From 47147c8c44104a7c0caa044205c15adea6768a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 27/48] fix: DivDGMax: boundary lifting belongs to the
 tangential Brezzi flux

With an interior penalty flux for the tangential jump there is no lifting term
in the bilinear form either.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 07b2ce4..111d831 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From 47f303e54ce4021b11750ea04b417d8c2d68ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 28/48] fix: VTK output: tensors have nine components

---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..a756e7d 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From 8321ddd45c58f7999d635d292251e2d1253a7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:06 +0000
Subject: [PATCH 29/48] fix: LevelTree: all-level traversal of forests with
 uneven depth

The end is after the last entry of the deepest level, which need not be a
descendant of the last root.
---
 kernel/Base/LevelTree_Impl.h | 12 ++++++++----
 kernel/Base/TreeIterator.h   |  8 +++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index 811b277..d53349b 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -137,12 +137,14 @@ TreeIterator<V> LevelTree<V>::end() {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
@@ -176,12 +178,14 @@ TreeIteratorConst<V> LevelTree<V>::end() const {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index ce96767..5ad6b97 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -605,10 +605,16 @@ class TreeIterator {
             "iterator has to be dereferenceable to be incrementable");
         moveToNextOnLevel();
         if (ptr_ == end_) {
+            // the end of the current level, so that we can move back to its
+            // last entry with --
+            TreeIterator backup = *this;
             --ptr_;
             std::size_t level = (*ptr_)->getLevel() + depthCounter_ + 1;
-            // will move to end_ again if this was the last level
             moveToFirstOnLevel(level);
+            if (ptr_ == end_) {
+                // this was the last level
+                *this = backup;
+            }
         }
     }
 
-- 
2.43.0


From 45e004556bc374de83c2eb6516088709e5f08458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 30/48] fix: preprocessor: ElementReorder accepted orders that
 are no permutation

---
 applications/Preprocessor/lib/ElementReorder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/applications/Preprocessor/lib/ElementReorder.cpp b/applications/Preprocessor/lib/ElementReorder.cpp
index 279d0cf..d447fe7 100644
--- a/applications/Preprocessor/lib/ElementReorder.cpp
+++ b/applications/Preprocessor/lib/ElementReorder.cpp
@@ -38,7 +38,6 @@
 
 #include "ElementReorder.h"
 #include <algorithm>
-#include <numeric>
 #include "Logger.h"
 
 namespace Preprocessor {
@@ -100,10 +99,10 @@ void ElementReorder::reorderFromHpGem(size_t dimension,
 
 void ElementReorder::Element::checkOrder(std::vector<size_t> order) const {
     std::sort(order.begin(), order.end());
-    std::adjacent_difference(order.begin(), order.end(), order.begin());
-
-    bool valid = (order[0] == 0) && (std::accumulate(order.begin(), order.end(),
-                                                     0) == order.size() - 1);
+    bool valid = true;
+    for (size_t i = 0; i < order.size(); i++) {
+        valid = valid && order[i] == i;
+    }
     hpgem::logger.assert_always(valid,
                                 "Order has to contain 0 as an index and then "
                                 "contain all indices contiguously");
-- 
2.43.0


From bff91e2c94aaaf72acd27bc77250c098fff7dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 31/48] fix: Centaur reader: zones of the second and later
 element types, and of files without zones

---
 applications/Preprocessor/lib/centaur.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index 50a7c6c..7fe33c5 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -391,6 +391,9 @@ void CentaurReader::readZoneInfo() {
         }
         zones[0].endOffsets[0] = elementCount[0];
         zones[0].endOffsets[1] = elementCount[1];
+        for (MeshSource2::Element& element : elements) {
+            element.zoneName = zones[0].getZoneName();
+        }
         return;
     }
     GroupSize groupSize = readGroupSize(false);
@@ -515,11 +518,14 @@ void CentaurReader::readZoneInfo() {
         positions[elemType] =
             positions[elemType - 1] + elementCount[elemType - 1];
     }
+    // The offsets of the zones are counted per element type
+    const std::array<std::size_t, 4> starts = positions;
     for (const ZoneInformation& zone : zones) {
         std::string zoneName = zone.getZoneName();
         // Assign the zone for each elementtype
         for (std::size_t elemType = 0; elemType < 4; ++elemType) {
-            for (; positions[elemType] < zone.endOffsets[elemType];
+            for (; positions[elemType] <
+                   starts[elemType] + zone.endOffsets[elemType];
                  ++positions[elemType]) {
                 elements[positions[elemType]].zoneName = zoneName;
             }
-- 
2.43.0


From ab4ba82f5316ec8b9ad0ed7f552ce1dc3969640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 32/48] fix: preprocessor: Element::getIncidenceList returned
 nothing

---
 applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h b/applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h
index 31d7cf1..f3939cb 100644
--- a/applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h
+++ b/applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h
@@ -139,6 +139,7 @@ std::vector<MeshEntity<(d < 0 ? d + dimension : d), dimension>>
         result[i] = this->mesh->template getEntity<(d < 0 ? d + dimension : d)>(
             indices[i]);
     }
+    return result;
 }
 
 template <std::size_t dimension>
-- 
2.43.0


From c8906027030193d01984d5ef007be926fb693e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 33/48] fix: preprocessor: copies of a mesh lost the zone
 names, assignment returned nothing

---
 applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
index 960fecd..47f88a8 100644
--- a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
+++ b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
@@ -71,7 +71,8 @@ class Mesh {
     Mesh(const Mesh& other)
         : elementsList(other.elementsList),
           coordinates(other.coordinates),
-          meshEntities(other.meshEntities) {
+          meshEntities(other.meshEntities),
+          zoneNames(other.zoneNames) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -81,7 +82,8 @@ class Mesh {
     Mesh(Mesh&& other)
         : elementsList(std::move(other.elementsList)),
           coordinates(std::move(other.coordinates)),
-          meshEntities(std::move(other.meshEntities)) {
+          meshEntities(std::move(other.meshEntities)),
+          zoneNames(std::move(other.zoneNames)) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -92,20 +94,24 @@ class Mesh {
         elementsList = other.elementsList;
         coordinates = other.coordinates;
         meshEntities = other.meshEntities;
+        zoneNames = other.zoneNames;
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     Mesh& operator=(Mesh&& other) {
         elementsList = std::move(other.elementsList);
         coordinates = std::move(other.coordinates);
         meshEntities = std::move(other.meshEntities);
+        zoneNames = std::move(other.zoneNames);
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     // Elements //
-- 
2.43.0


From a928d769f37404445743966f9529932ab0736730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 34/48] fix: preprocessor: the adjacent shape of the same
 dimension is the shape itself

---
 applications/Preprocessor/lib/mesh/elementShape_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/mesh/elementShape_impl.h b/applications/Preprocessor/lib/mesh/elementShape_impl.h
index 24e7c81..0ec3607 100644
--- a/applications/Preprocessor/lib/mesh/elementShape_impl.h
+++ b/applications/Preprocessor/lib/mesh/elementShape_impl.h
@@ -209,7 +209,7 @@ void ElementShape<dimension>::completeSubShapes(tag<entityDimension> edimTag,
         if (targetDimension == entityDimension) {
             // Case 1: S and S' have the same dimension, hence S' == S
             shapeParts[edimTag][entityIndex].getAdjacentShapes(
-                targetDimension) = {entityDimension};
+                targetDimension) = {entityIndex};
         } else {
             // Mixed case where either S' is on the boundary of S or vice versa.
             //
-- 
2.43.0


From b1edfbcb9a667437d711571c1d8a6cc306c05dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 35/48] fix: Gmsh reader: elements without tags

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..dc3ef2d 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -357,7 +357,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From d3622d22ec6dc2d0bcd6014bacb1dc2b30de4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 36/48] fix: Gmsh reader: refuse sections that are not closed

---
 applications/Preprocessor/lib/gmsh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index dc3ef2d..ec8cb93 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -531,7 +531,7 @@ void GmshReader::skipSection(std::string sectionName) {
                              "Section '%' ended with '%'", sectionName, line);
         return;
     }
-    logger.assert_always("Section % was unclosed at the end of the file",
+    logger.assert_always(false, "Section % was unclosed at the end of the file",
                          sectionName);
 }
 
@@ -552,7 +552,7 @@ void GmshReader::readSectionEnd(std::string sectionName) {
                              "Section % ended with %", sectionName, line);
         return;
     }
-    logger.assert_always("Section % was unclosed at the end of the file",
+    logger.assert_always(false, "Section % was unclosed at the end of the file",
                          sectionName);
 }
 
-- 
2.43.0


From b3d23f3aed2c42951f0bc0ccd0ad3c974c9fbf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 37/48] fix: Gmsh reader: linear tetrahedra were refused

---
 applications/Preprocessor/lib/gmsh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index ec8cb93..6299ec1 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -320,8 +320,8 @@ void GmshReader::readElements() {
     reorder.addElementType(2, "triangle2", {0, 3, 1, 5, 4, 2});
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
-    // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    // Tetrahedrons do not require reordering
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From 4a1639d75fda7231b856f244e390e9bd5c3c72ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 38/48] fix: Gmsh reader: node tags that are not dense or not
 ordered

---
 applications/Preprocessor/lib/gmsh.cpp | 15 +++++++++++----
 applications/Preprocessor/lib/gmsh.h   |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 6299ec1..17adec3 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -299,11 +299,20 @@ void GmshReader::readNodes(double tol) {
         temp.nodeId =
             nodeTag - 1;  // gmsh ids are 1 indexed hpgem is zero indexed
         temp.coordinate = std::vector<double>{x, y, z};
+        nodeIndices_[nodeTag] = nodes_.size();
         nodes_.push_back(temp);
     }
     readSectionEnd("Nodes");
 }
 
+std::size_t GmshReader::nodeIndex(std::size_t nodeTag) const {
+    // The tags of the nodes are neither dense nor ordered in general
+    auto entry = nodeIndices_.find(nodeTag);
+    logger.assert_always(entry != nodeIndices_.end(),
+                         "The file has no node with number %", nodeTag);
+    return entry->second;
+}
+
 void GmshReader::readElements() {
 
     // Reordering of the nodes
@@ -366,8 +375,7 @@ void GmshReader::readElements() {
         for (std::size_t i = 0; i < num_points; i++) {
             size_t nodetag;
             Filehandle_ >> nodetag;
-            // gmsh ids are 1 indexed hpgem is zero indexed
-            element.coordinates_.push_back(nodetag - 1);
+            element.coordinates_.push_back(nodeIndex(nodetag));
         }
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
@@ -466,8 +474,7 @@ void GmshReader::readPBCs() {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
-            // gmsh is 1 indexed hpgem is zero indexed
-            merge[node2 - 1] = node1 - 1;
+            merge[nodeIndex(node2)] = nodeIndex(node1);
         }
     }
     readSectionEnd("Periodic");
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..36e2d81 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -99,6 +99,8 @@ class GmshReader final : public MeshSource2 {
     void readPhysicalNames();
     /// Read a Nodes section
     void readNodes(double tol = 1e-12);
+    /// The index of the coordinate (in nodes_) of a gmsh node
+    std::size_t nodeIndex(std::size_t nodeTag) const;
     /// Read an Elements section
     void readElements();
     /// Read an ElementData section
@@ -135,6 +137,8 @@ class GmshReader final : public MeshSource2 {
     std::vector<MeshSource2::Element> elements_;
 
     std::vector<MeshSource2::Coord> nodes_;
+    /// Index in nodes_ for each gmsh node tag
+    std::map<std::size_t, std::size_t> nodeIndices_;
 
     std::ifstream Filehandle_;
     std::map<size_t, size_t> nodesPerElementtype_;
-- 
2.43.0


From 292fcab2d0495b1223b0b0e2936ad0614804b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:04 +0000
Subject: [PATCH 39/48] fix: command line: refuse numbers that are empty, out
 of range or negative for an unsigned option

---
 kernel/Base/CommandLineOptions.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/CommandLineOptions.h b/kernel/Base/CommandLineOptions.h
index 0bfdc35..62d2039 100644
--- a/kernel/Base/CommandLineOptions.h
+++ b/kernel/Base/CommandLineOptions.h
@@ -151,7 +151,10 @@ typename std::enable_if<
     std::istringstream arg(*p);
     T retVal = 0;
     arg >> retVal;
-    if (!arg.eof()) {
+    // Also refuse what is empty, out of range or, for unsigned numbers, negative
+    if (arg.fail() || !arg.eof() ||
+        (std::is_unsigned<T>::value &&
+         arg.str().find('-') != std::string::npos)) {
         std::string error = "Argument could not be converted to ";
         if (std::is_unsigned<T>::value) error += "unsigned ";
 
-- 
2.43.0


From bade4087c755fa271727b8195c2816acc4306402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:31 +0000
Subject: [PATCH 40/48] fix: ConstantField: the default field had three
 components in two dimensions

---
 applications/DG-Max/ProblemTypes/Harmonic/ConstantField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/ProblemTypes/Harmonic/ConstantField.h b/applications/DG-Max/ProblemTypes/Harmonic/ConstantField.h
index 7ec61ae..4718ae1 100644
--- a/applications/DG-Max/ProblemTypes/Harmonic/ConstantField.h
+++ b/applications/DG-Max/ProblemTypes/Harmonic/ConstantField.h
@@ -47,7 +47,7 @@ class ConstantField : public FieldPattern<dim> {
     using typename FieldPattern<dim>::VecC;
     using typename FieldPattern<dim>::PPhys;
 
-    ConstantField(VecC field = {1.0, 1.0, 1.0}) : field_(field) {}
+    ConstantField(VecC field = VecC::constant(1.0)) : field_(field) {}
 
     VecC field(const PPhys&) const override { return field_; }
     VecC fieldCurl(const PPhys&) const override { return {}; }
-- 
2.43.0


From 90a039d7ddef00b0ce060f175f69009bb07e4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:31 +0000
Subject: [PATCH 41/48] fix: TrenchReflectionProblem: could not be used in
 three dimensions

---
 .../Harmonic/TrenchReflectionProblem.cpp      | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp b/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp
index d9f024b..646406f 100644
--- a/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp
+++ b/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp
@@ -40,6 +40,20 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 namespace DGMax {
 
+namespace {
+/// Plane wave in the xy-plane, constant in any further direction
+template <std::size_t dim>
+PlaneWave<dim> inPlaneWave(double kx, double ky, double Ey) {
+    typename PlaneWave<dim>::VecR k;
+    typename PlaneWave<dim>::VecC E0;
+    k[0] = kx;
+    k[1] = ky;
+    E0[0] = 1.0;
+    E0[1] = Ey;
+    return PlaneWave<dim>(k, E0, 0.0);
+}
+}  // namespace
+
 template <std::size_t dim>
 TrenchReflectionProblem<dim>::TrenchReflectionProblem(double omega,
                                                       double width,
@@ -63,10 +77,10 @@ TrenchReflectionProblem<dim>::TrenchReflectionProblem(double omega,
     logger.assert_always(ky2 > 0,
                          "Frequency too low to support the transverse wave");
     double ky = std::sqrt(ky2);
-    waveIn1_ = PlaneWave<dim>({kx, ky}, {1, -kx / ky}, 0.0);
-    waveIn2_ = PlaneWave<dim>({-kx, ky}, {1, kx / ky}, 0.0);
-    waveR1_ = PlaneWave<dim>({kx, -ky}, {1, kx / ky}, 0.0);
-    waveR2_ = PlaneWave<dim>({-kx, -ky}, {1, -kx / ky}, 0.0);
+    waveIn1_ = inPlaneWave<dim>(kx, ky, -kx / ky);
+    waveIn2_ = inPlaneWave<dim>(-kx, ky, kx / ky);
+    waveR1_ = inPlaneWave<dim>(kx, -ky, kx / ky);
+    waveR2_ = inPlaneWave<dim>(-kx, -ky, -kx / ky);
 }
 
 template <std::size_t dim>
@@ -74,7 +88,7 @@ BoundaryConditionType TrenchReflectionProblem<dim>::getBoundaryConditionType(
     const Base::Face& face) const {
 
     auto normal = face.getNormalVector(
-        face.getReferenceGeometry()->getCenter().castDimension<1>());
+        face.getReferenceGeometry()->getCenter().template castDimension<dim - 1>());
     normal /= normal.l2Norm();
     if (std::abs(normal[0]) > 1e-8) {
         return BoundaryConditionType::DIRICHLET;
@@ -232,7 +246,8 @@ double TrenchReflectionProblem<dim>::farSideL2FieldIntegral() const {
     double ky = waveIn1_.waveVector()[1];
 
     // Value of the individual fields x=0, y=yL
-    Geometry::PointPhysical<dim> pPhys = {0, length_};
+    Geometry::PointPhysical<dim> pPhys;
+    pPhys[1] = length_;
     auto fieldIn1 = waveIn1_.field(pPhys);
     auto fieldIn2 = waveIn2_.field(pPhys);
     auto fieldR1 = waveR1_.field(pPhys);
-- 
2.43.0


From dc0247213ff848853ca83e28b8eb751dd81251ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:21 +0000
Subject: [PATCH 42/48] fix: DG-Max: coordinate of an edge from its nodes, the
 codim 2 mapping does not exist for cubes, prisms and pyramids

---
 applications/DG-Max/Utils/KPhaseShiftHelpers.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/applications/DG-Max/Utils/KPhaseShiftHelpers.h b/applications/DG-Max/Utils/KPhaseShiftHelpers.h
index 74769f0..fa5d403 100644
--- a/applications/DG-Max/Utils/KPhaseShiftHelpers.h
+++ b/applications/DG-Max/Utils/KPhaseShiftHelpers.h
@@ -94,13 +94,17 @@ Geometry::PointPhysical<DIM> getCoordinate(const Base::Element* element,
 template <std::size_t DIM>
 Geometry::PointPhysical<DIM> getCoordinate(const Base::Element* element,
                                            const Base::Edge* edge) {
-    std::size_t localEdgeId = element->getLocalId(edge);
-    const Geometry::ReferenceGeometry* referenceGeometry =
-        element->getReferenceGeometry();
-    Geometry::PointReference<DIM - 2> p =
-        referenceGeometry->getCodim2ReferenceGeometry(localEdgeId)->getCenter();
-    return element->referenceToPhysical(
-        referenceGeometry->getCodim2MappingPtr(localEdgeId)->transform(p));
+    const std::vector<std::size_t> nodeIds =
+        element->getReferenceGeometry()->getCodim2EntityLocalIndices(
+            element->getLocalId(edge));
+    // Not using getCodim2MappingPtr(), which is not available for all shapes.
+    Geometry::PointPhysical<DIM> result;
+    for (const std::size_t& nodeId : nodeIds) {
+        const Geometry::PointPhysical<DIM> node =
+            element->getPhysicalGeometry()->getLocalNodeCoordinates(nodeId);
+        result += node / static_cast<double>(nodeIds.size());
+    }
+    return result;
 }
 
 /// Compute the physical coordinate of the center of a face as seen from a
-- 
2.43.0


From 4262450707d341209342600a8d021b825a8f7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 43/48] fix: TreeIterator: change of the traversal method past
 the end ended in the wrong place

---
 kernel/Base/TreeIterator.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index 5ad6b97..c75455b 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -296,11 +296,14 @@ class TreeIterator {
         traversalMethod_ = TreeTraversalMethod::ALLLEVEL;
         if (ptr_ == end_) {
             // if the iterator is in the past-the-end position, update to the
-            // new past-the-end position
-            --ptr_;
-            while ((*ptr_)->hasChild()) {
-                moveToChild((*ptr_)->getNumberOfChildren() - 1);
+            // new past-the-end position, the one of the deepest level
+            std::size_t level = 0;
+            moveToFirstOnLevel(0);
+            for (TreeIterator next = *this; next.ptr_ != next.end_; ++level) {
+                *this = next;
+                next.moveToFirstOnLevel(level + 1);
             }
+            moveToLastOnLevel(level - 1);
             ++ptr_;
         }
     }
@@ -311,7 +314,7 @@ class TreeIterator {
         if (ptr_ == end_) {
             // if the iterator is in the past-the-end position, update to the
             // new past-the-end position
-            --ptr_;
+            moveToLastOnLevel(0);
             while ((*ptr_)->hasChild()) {
                 moveToChild((*ptr_)->getNumberOfChildren() - 1);
             }
@@ -325,10 +328,7 @@ class TreeIterator {
         if (ptr_ == end_) {
             // if the iterator is in the past-the-end position, update to the
             // new past-the-end position
-            --ptr_;
-            while (!(*ptr_)->isRoot()) {
-                moveToParent();
-            }
+            moveToLastOnLevel(0);
             ++ptr_;
         }
     }
-- 
2.43.0


From 8fa081e506854ca9dbbbe26ccd187c0a95bf4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:22 +0000
Subject: [PATCH 44/48] fix: DG-Max: writeFields wrote the first vector of
 coefficients instead of the one asked for

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 97949b2..693d655 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -593,10 +593,11 @@ void DGMaxDiscretization<DIM>::writeFields(
     };
 
     writer.template writeMultiple<Fields>(
-        [this](Base::Element* element,
-               const Geometry::PointReference<DIM>& point, std::size_t) {
+        [this, timeIntegrationVectorId](
+            Base::Element* element, const Geometry::PointReference<DIM>& point,
+            std::size_t) {
             LinearAlgebra::MiddleSizeVector coefficients =
-                element->getTimeIntegrationVector(0);
+                element->getTimeIntegrationVector(timeIntegrationVectorId);
             // When using the Hermitian system we applied a rescaling of the
             // solution coefficients to use y = L^H x (LL^H = M is the Cholesky
             // decomposition of the mass matrix and x the actual coefficients).
-- 
2.43.0


From 002616347891c2c37147aa25a93666acda49b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:28 +0000
Subject: [PATCH 45/48] fix: ExtractSurface: side of a periodic mesh given by
 the element that has it at the position asked for

---
 applications/Preprocessor/extractSurface.cpp | 43 ++++++++++++--------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/applications/Preprocessor/extractSurface.cpp b/applications/Preprocessor/extractSurface.cpp
index 731b718..c70e9f0 100644
--- a/applications/Preprocessor/extractSurface.cpp
+++ b/applications/Preprocessor/extractSurface.cpp
@@ -233,25 +233,32 @@ void processMesh(Preprocessor::HpgemReader& meshFile) {
         }
         if (onBoundary) {
             // To get coordinates for the face we need to go through a adjacent
-            // element.
-            auto inputElement = face.getElement(0);
-            auto localNodeIndices =
-                inputElement.template getLocalIncidenceListAsIndices<0>(face);
-            // Coordinate ids in the original mesh
-            std::vector<CoordId> globalCoordinateIndices;
-            for (auto localIndex : localNodeIndices) {
-                globalCoordinateIndices.push_back(
-                    inputElement.getCoordinateIndex(localIndex));
-            }
-            // Overwrite the coordinates with coordinates from the new mesh
-            for (auto& inputIndex : globalCoordinateIndices) {
-                inputIndex = toBoundaryIndex[inputIndex];
+            // element. For a face on a periodic boundary not every adjacent
+            // element has it at the requested position.
+            for (std::size_t i = 0; i < face.getNumberOfElements(); ++i) {
+                auto inputElement = face.getElement(i);
+                auto localNodeIndices =
+                    inputElement.template getLocalIncidenceListAsIndices<0>(
+                        face);
+                // Coordinate ids in the new mesh
+                std::vector<CoordId> globalCoordinateIndices;
+                for (auto localIndex : localNodeIndices) {
+                    auto newIndex = toBoundaryIndex.find(
+                        inputElement.getCoordinateIndex(localIndex));
+                    if (newIndex != toBoundaryIndex.end()) {
+                        globalCoordinateIndices.push_back(newIndex->second);
+                    }
+                }
+                if (globalCoordinateIndices.size() != localNodeIndices.size())
+                    continue;
+                resultMesh.addElement(globalCoordinateIndices);
+                auto resultElement = resultMesh.getElements().back();
+                // Assign the partition of the face based on the element it
+                // belonged to.
+                resultPartitionID[resultElement] =
+                    inputPartitionID[inputElement];
+                break;
             }
-            resultMesh.addElement(globalCoordinateIndices);
-            auto resultElement = resultMesh.getElements().back();
-            // Assign the partition of the face based on the element it belonged
-            // to.
-            resultPartitionID[resultElement] = inputPartitionID[inputElement];
         }
     }
     Preprocessor::outputMesh(resultMesh, resultPartitionID,
-- 
2.43.0


From 1d5cdc39e0fca214476dc0800d4536065469db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:04 +0000
Subject: [PATCH 46/48] fix: MeshManipulator: faces between two shadow elements
 were marked periodic, though they are not

---
 kernel/Base/MeshManipulator_Impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index 6ad0223..8659909 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1846,7 +1846,9 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                     if (face->getFaceType() == Geometry::FaceType::INTERNAL) {
                         face->setFaceType(
                             Geometry::FaceType::SUBDOMAIN_BOUNDARY);
-                    } else {
+                    } else if (face->getFaceType() ==
+                               Geometry::FaceType::PERIODIC_BC) {
+                        // Faces between two pulled elements are visited twice
                         face->setFaceType(
                             Geometry::FaceType::PERIODIC_SUBDOMAIN_BC);
                     }
-- 
2.43.0


From 3fa17877bc70f59267387dbb293cc9146c965b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:27 +0000
Subject: [PATCH 47/48] fix: MeshManipulator: 1D faces at the end of the shadow
 elements were walls instead of partial faces

---
 kernel/Base/MeshManipulator_Impl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index 8659909..1633716 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1592,6 +1592,8 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
 
     std::size_t processedNodes = 0;
     std::map<std::size_t, std::size_t> localNodeIndex;
+    // Index in the mesh file of the nodes in this partition
+    std::vector<std::size_t> localNodes;
     std::map<std::size_t, std::size_t> startOfCoordinates;
 
     // we need some leeway later on to synchronize face indices with node
@@ -1624,6 +1626,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                 }
                 present = true;
                 addNode();
+                localNodes.push_back(i);
             }
         }
         if (!present) {
@@ -1645,6 +1648,9 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     }
 
     std::map<std::size_t, Element *> actualElement;
+    // Number of elements around each node in the whole mesh, including those
+    // that are not part of this partition. Only used in 1D
+    std::map<std::size_t, std::size_t> numberOfElementsAtNode;
 
     for (std::size_t i = 0; i < numberOfElements; ++i) {
         // Read all the information about the element
@@ -1659,6 +1665,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
             coordinateIndices.push_back(startOfCoordinates[globalIndex] +
                                         coordinateOffset);
             nodeNumbers.push_back(localNodeIndex[globalIndex]);
+            if (DIM == 1) numberOfElementsAtNode[globalIndex]++;
         }
         // Owning partition (= MPI process id)
         std::size_t partition;
@@ -1825,12 +1832,18 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
 
     if (DIM == 1) {
         logger.suppressWarnings([&]() {
+            std::size_t nodeIndex = 0;
             for (auto node : getNodesList(Base::IteratorType::GLOBAL)) {
+                std::size_t meshNode = localNodes[nodeIndex++];
                 while (lastIndex++ < node->getID() - 1)
                     GlobalUniqueIndex::instance().getFaceIndex();
                 if (node->getNumberOfElements() == 1) {
+                    // The other element may be outside this partition
+                    bool partial = numberOfElementsAtNode[meshNode] > 1;
                     addFace(node->getElement(0), node->getNodeNumber(0),
-                            nullptr, 0, Geometry::FaceType::WALL_BC);
+                            nullptr, 0,
+                            partial ? Geometry::FaceType::PARTIAL_FACE
+                                    : Geometry::FaceType::WALL_BC);
                 } else {
                     addFace(node->getElement(0), node->getNodeNumber(0),
                             node->getElement(1), node->getNodeNumber(1));
-- 
2.43.0


From 76edc73a07573c343fcaec69f99af93b3a4bd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:44 +0000
Subject: [PATCH 48/48] fix: SparsityEstimator: unsupported face coupling was
 looked up by the position of the unknown in the subset

---
 kernel/Utilities/SparsityEstimator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Utilities/SparsityEstimator.cpp b/kernel/Utilities/SparsityEstimator.cpp
index 9835e8e..588780e 100644
--- a/kernel/Utilities/SparsityEstimator.cpp
+++ b/kernel/Utilities/SparsityEstimator.cpp
@@ -385,7 +385,9 @@ std::pair<std::vector<int>, std::vector<int>>
              ++i) {
             for (std::size_t j = 0;
                  j < columnIndexing_.getNumberOfIncludedUnknowns(); ++j) {
-                if (faceCoupling(i, j) && !rowDoFs.isOnlyElementBased(i)) {
+                if (faceCoupling(i, j) &&
+                    !rowDoFs.isOnlyElementBased(
+                        rowIndexing_.getIncludedUnknowns()[i])) {
                     logger(ERROR,
                            "Face coupling of a row-DoF from an Face, Edge or "
                            "Node.");
-- 
2.43.0

