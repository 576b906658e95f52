From 84da1abd7a6a5091817dcd5b64e7b0b01d036651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 01/27] fix: qualify incrementIndex in Histogram so that its
 statistics instantiate

---
 .../include/aslam/calibration/statistics/Histogram1v.tpp  | 8 ++++----
 .../include/aslam/calibration/statistics/HistogramMv.tpp  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index 9dfa792..bf3373c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -44,7 +44,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -54,7 +54,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -81,7 +81,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 8ba7b46..10718ee 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -43,7 +43,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -54,7 +54,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -70,7 +70,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From 0971ce4dd84616d08f632dbaeac609528598737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 02/27] fix: validate the permutation before the first swap in
 permute

---
 .../include/aslam/calibration/algorithms/permute.tpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index b9b0c9a..c436e98 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -20,11 +20,19 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      std::vector<bool> visited(container.size(), false);
       for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+        if (static_cast<size_t>(permutation[i]) >= container.size())
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (visited[permutation[i]])
+          throw OutOfBoundException<I>(permutation[i],
+            "permutation vector index must appear once",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        visited[permutation[i]] = true;
+      }
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From b5b2d473156b35a3b890e086731320b06bab8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 03/27] fix: check the covariance before storing its
 factorisation in NormalDistribution

---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index ae7b7c9..6447f64 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,7 +101,6 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
       if (!Eigen::LDLT<Covariance>(covariance).isPositive())
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
@@ -111,6 +110,7 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
+      mTransformation = Eigen::LLT<Covariance>(covariance);
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-- 
2.43.0


From 329ed733fd4287d795c47701c00a1644a7ed8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 04/27] fix: keep rotation and translation of a Transformation
 in step with its matrix

---
 .../calibration/geometry/Transformation2d.tpp   | 17 ++++++++++++++---
 .../calibration/geometry/Transformation3d.tpp   | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
index 656ff1e..5fcb905 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
@@ -13,13 +13,16 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    Transformation<T, 2>::Transformation() {
+    Transformation<T, 2>::Transformation() :
+        mTransformationMatrix(Eigen::Matrix<double, 3, 3>::Identity()),
+        mRotationMatrix(Eigen::Matrix<double, 3, 3>::Identity()),
+        mTranslationMatrix(Eigen::Matrix<double, 3, 3>::Identity()) {
     }
 
     template <typename T>
     Transformation<T, 2>::Transformation(const Eigen::Matrix<double, 3, 3>&
-        transformationMatrix) :
-        mTransformationMatrix(transformationMatrix) {
+        transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -78,6 +81,12 @@ namespace aslam {
     void Transformation<T, 2>::setTransformationMatrix(const
         Eigen::Matrix<double, 3, 3>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<2, 2>() =
+        transformationMatrix.template topLeftCorner<2, 2>();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        transformationMatrix.template topRightCorner<2, 1>();
     }
 
     template <typename T>
@@ -140,6 +149,8 @@ namespace aslam {
       mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
       mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
       mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        mTransformationMatrix.template topRightCorner<2, 1>();
       return *this;
     }
 
diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
index 9dd2dc7..0a7fbc5 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
@@ -11,13 +11,16 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    Transformation<T, 3>::Transformation() {
+    Transformation<T, 3>::Transformation() :
+        mTransformationMatrix(Eigen::Matrix<double, 4, 4>::Identity()),
+        mRotationMatrix(Eigen::Matrix<double, 4, 4>::Identity()),
+        mTranslationMatrix(Eigen::Matrix<double, 4, 4>::Identity()) {
     }
 
     template <typename T>
     Transformation<T, 3>::Transformation(const Eigen::Matrix<double, 4, 4>&
-        transformationMatrix) :
-        mTransformationMatrix(transformationMatrix) {
+        transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -77,6 +80,12 @@ namespace aslam {
     void Transformation<T, 3>::setTransformationMatrix(const
         Eigen::Matrix<double, 4, 4>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<3, 3>() =
+        transformationMatrix.template topLeftCorner<3, 3>();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        transformationMatrix.template topRightCorner<3, 1>();
     }
 
     template <typename T>
@@ -145,6 +154,8 @@ namespace aslam {
       mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
       mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
       mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        mTransformationMatrix.template topRightCorner<3, 1>();
       return *this;
     }
 
-- 
2.43.0


From 6319a3b86a96865b0511b1069190654c0da9065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 05/27] fix: initialise the sums of the multivariate normal
 estimator

---
 .../aslam/calibration/statistics/EstimatorMLNormalMv.tpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
index 9ebbaeb..3606ddc 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
@@ -16,6 +16,8 @@ namespace aslam {
     EstimatorML<NormalDistribution<M> >::EstimatorML() :
         mNumPoints(0),
         mValid(false) {
+      mValuesSum.setZero();
+      mSquaredValuesSum.setZero();
     }
 
     template <int M>
-- 
2.43.0


From 478e9d3536a672597c7bc39d2bb5b8988d8c2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 06/27] fix: refuse negative indices in Grid

---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 884ac16..1ed0d22 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -213,7 +213,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From 5a0ca83e35cfd5bccd73ec030193f11b646a96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 07/27] fix: keep Grid::getIndex within the cells when a point
 rounds up to the maximum

---
 .../include/aslam/calibration/data-structures/Grid.tpp       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 1ed0d22..38d752f 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <algorithm>
+
 #include "aslam/calibration/exceptions/OutOfBoundException.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 
@@ -178,7 +180,8 @@ namespace aslam {
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
         else
-          idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          idx(i) = std::min(static_cast<int>((point(i) - mMinimum(i)) /
+            mResolution(i)), mNumCells(i) - 1);
       return idx;
     }
 
-- 
2.43.0


From acfb7a2e76b9bd4e2e4e1f3317a276be4f10f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 08/27] fix: mean, median and covariance of the uniform
 distributions

---
 .../statistics/UniformDistribution1v.tpp      |  4 +--
 .../statistics/UniformDistributionMv.tpp      | 28 +++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 2b012da..2248dd2 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -136,13 +136,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * (mMinSupport + mMaxSupport);
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * (mMinSupport + mMaxSupport);
     }
 
     template <typename X>
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index bc385a6..e05cba7 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -141,7 +141,7 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport + mMaxSupport).template cast<double>();
     }
 
     template <typename X, int M>
@@ -154,7 +154,7 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport + mMaxSupport).template cast<double>();
     }
 
     template <typename X, int M>
@@ -191,12 +191,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      for (size_t i = 0; i < (size_t)minSupport.size(); ++i) {
+        const double supportLength = maxSupport(i) - minSupport(i);
+        covariance(i, i) = (supportLength * supportLength) / 12.0;
+      }
+      return covariance;
     }
 
     template <typename X, int M>
@@ -205,12 +207,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      for (size_t i = 0; i < (size_t)minSupport.size(); ++i) {
+        const double supportLength = maxSupport(i) - minSupport(i) + 1;
+        covariance(i, i) = (supportLength * supportLength - 1.0) / 12.0;
+      }
+      return covariance;
     }
 
   }
-- 
2.43.0


From 0c4475ec2564f72736161f8cc03ae963fc3a1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 09/27] fix: Kullback-Leibler divergence of the gamma
 distribution

---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ff1e8a9..af36136 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -184,7 +184,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From 2abdde184b32a62c6e20ac95a2a6bcc08d10e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 10/27] fix: refuse singular covariances in NormalDistribution

---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index 6447f64..955fa04 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,7 +101,8 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success)
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -110,7 +111,7 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
+      mTransformation = transformation;
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-- 
2.43.0


From c6a45825b8b3aebd168d585e7c98133f97c488c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 11/27] fix: seed the generator when a Randomizer is
 constructed with a seed

---
 .../include/aslam/calibration/statistics/Randomizer.tpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index e481f06..8f4cfff 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -14,8 +14,8 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T, int M>
-    Randomizer<T, M>::Randomizer(const T& seed) :
-        mSeed(seed) {
+    Randomizer<T, M>::Randomizer(const T& seed) {
+      setSeed(seed);
     }
 
     template <typename T, int M>
-- 
2.43.0


From f386e66a59c4193009ab2832e26c7b2b0978b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 12/27] fix: log-density of the gamma distribution below zero

---
 .../aslam/calibration/statistics/GammaDistribution.tpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index af36136..c5ca7a5 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include <boost/math/distributions/gamma.hpp>
 
 #include "aslam/calibration/statistics/Randomizer.h"
@@ -125,7 +127,9 @@ namespace aslam {
 
     template <typename T>
     double GammaDistribution<T>::logpdf(const RandomVariable& value) const {
-      if (value == 0 && mShape == T(1))
+      if (value < 0)
+        return -std::numeric_limits<double>::infinity();
+      else if (value == 0 && mShape == T(1))
         return -mNormalizer;
       else
         return (mShape - 1) * log(value) - value * mInvScale - mNormalizer;
-- 
2.43.0


From 82f5bf5fbabe73feae6b14994ea7cc9c35e69175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 13/27] fix: ignore an empty range of weighted points in the
 estimators

---
 .../aslam/calibration/statistics/EstimatorMLNormalMv.tpp        | 2 +-
 incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
index 3606ddc..c233087 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
@@ -138,7 +138,7 @@ namespace aslam {
     void EstimatorML<NormalDistribution<M> >::addPoints(const
         ConstPointIterator& itStart, const ConstPointIterator& itEnd, const
         Eigen::Matrix<double, Eigen::Dynamic, 1>& responsibilities) {
-      if (responsibilities.size() != itEnd - itStart)
+      if (itStart == itEnd || responsibilities.size() != itEnd - itStart)
         return;
       Eigen::Matrix<double, M, 1> mean =
         Eigen::Matrix<double, M, 1>::Zero(itStart->size());
diff --git a/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp b/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
index d085f65..d0767ca 100644
--- a/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
+++ b/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
@@ -119,7 +119,7 @@ namespace aslam {
     void EstimatorML<NormalDistribution<1> >::addPoints(const
         ConstPointIterator& itStart, const ConstPointIterator& itEnd, const
         Eigen::Matrix<double, Eigen::Dynamic, 1>& responsibilities) {
-      if (responsibilities.size() != itEnd - itStart)
+      if (itStart == itEnd || responsibilities.size() != itEnd - itStart)
         return;
       double mean = 0;
       for (auto it = itStart; it != itEnd; ++it)
-- 
2.43.0


From 09f8f9143f4f3f97f05aad12660034f57a55a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 14/27] fix: coordinates of the cells of an integer grid with a
 negative minimum

---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 38d752f..f90b38d 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -204,7 +204,8 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        point[i] = mMinimum(i) +
+          static_cast<T>((idx(i) + 0.5) * mResolution(i));
       return point;
     }
 
-- 
2.43.0


From 97f6e726e8b7576e7c83801d891eb6af098bb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 15/27] fix: a batch that cannot be added leaves the
 incremental problem untouched

---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 114858a..3e35354 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -175,8 +175,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // check the problem before modifying anything
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -188,21 +204,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From 12b7fe911e66041fdd5c2dc83566930a53640dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 16/27] fix: clearing an incremental problem drops the saved
 design variables

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 3e35354..dcef51b 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -260,6 +260,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From 1a9368d0844e5357e8d4489e6dda51da70b703e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 17/27] fix: a batch refused for lack of the calibration group
 is taken out again

---
 incremental_calibration/src/core/IncrementalEstimator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index fc677f8..7fcf369 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -325,7 +325,13 @@ namespace aslam {
       _problem->add(problem);
 
       // ensure marginalized design variables are well located
-      orderMarginalizedDesignVariables();
+      try {
+        orderMarginalizedDesignVariables();
+      }
+      catch (...) {
+        _problem->remove(problem);
+        throw;
+      }
 
       // save design variables in case the batch is rejected
       if (!force)
-- 
2.43.0


From f0abccc6b8fe260b35902ca380259a916f4b9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 18/27] fix: sign of the front wheel Jacobian when the wheel
 rolls backwards

---
 .../src/error-terms/ErrorTermWheel.cpp                          | 2 +-
 .../src/error-terms/ErrorTermWheel.cpp                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 388c11a..73c5994 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -119,7 +119,7 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 34c6999..f4c1aee 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -119,7 +119,7 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
-- 
2.43.0


From 69d56f3b73f007f34958989feb2f62e3bfeda4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:20 +0000
Subject: [PATCH 19/27] fix: the weight of an error term follows its covariance

---
 .../src/2dlrf/ErrorTermMotion.cpp                              | 1 +
 .../src/2dlrf/ErrorTermObservation.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermSteering.cpp                      | 3 +++
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 7 files changed, 9 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 95c85c1..7e5ba1c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -89,6 +89,7 @@ namespace aslam {
 
     void ErrorTermMotion::setCovariance(const Covariance& Q) {
       _Q = Q;
+      setInvR(_Q.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
index ea43ecc..c568d53 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
@@ -90,6 +90,7 @@ namespace aslam {
 
     void ErrorTermObservation::setCovariance(const Covariance& R) {
       _R = R;
+      setInvR(_R.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
index 8b9daa0..c99cf3a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index 8d62520..e64acb6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -77,6 +77,9 @@ namespace aslam {
 
     void ErrorTermSteering::setVariance(double sigma2) {
       _sigma2 = sigma2;
+      Eigen::Matrix<double, 1, 1> sigma2_mat;
+      sigma2_mat << sigma2;
+      setInvR(sigma2_mat.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 73c5994..41b1c19 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
index 2dbbf9d..d628e11 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index f4c1aee..00612cb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From 9ef9898411c6d1d2472c9c444c7222334867b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 20/27] fix: the DMI parameter is reported in its own component
 of the calibration vector

---
 .../src/design-variables/OdometryDesignVariables.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
index 5cbf8ab..f49a26d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
@@ -145,7 +145,7 @@ namespace aslam {
       params(18) = t_r->getParameters()(0);
       params(19) = t_f->getParameters()(0);
       params(20) = t_s->getParameters()(0);
-      params(11) = t_dmi->getParameters()(0);
+      params(21) = t_dmi->getParameters()(0);
       return params;
     }
 
-- 
2.43.0


From afb131c5a868fb45247a96175c659e37a27192ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:32 +0000
Subject: [PATCH 21/27] fix: the default of transSplineOrder is not read from
 the uninitialised member

---
 .../src/algo/CarCalibratorOptions.cpp                          | 3 +--
 .../src/algo/CalibratorOptions.cpp                             | 3 +--
 .../src/simulation/TrajectoryParams.cpp                        | 3 +--
 .../src/algo/CalibratorOptions.cpp                             | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
index 5799525..1510ffc 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
@@ -54,8 +54,7 @@ namespace aslam {
       transSplineLambda = config.getDouble("splines/transSplineLambda");
       rotSplineLambda = config.getDouble("splines/rotSplineLambda");
       splineKnotsPerSecond = config.getInt("splines/splineKnotsPerSecond");
-      transSplineOrder = config.getInt("splines/transSplineOrder",
-        transSplineOrder);
+      transSplineOrder = config.getInt("splines/transSplineOrder", 4);
       rotSplineOrder = config.getInt("splines/rotSplineOrder");
 
       linearVelocityTolerance = config.getDouble(
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
index 4c945c5..002eb83 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
@@ -37,8 +37,7 @@ namespace aslam {
       transSplineLambda = config.getDouble("splines/transSplineLambda");
       rotSplineLambda = config.getDouble("splines/rotSplineLambda");
       splineKnotsPerSecond = config.getInt("splines/splineKnotsPerSecond");
-      transSplineOrder = config.getInt("splines/transSplineOrder",
-        transSplineOrder);
+      transSplineOrder = config.getInt("splines/transSplineOrder", 4);
       rotSplineOrder = config.getInt("splines/rotSplineOrder");
     }
 
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
index 72a75c6..893c4ea 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
@@ -43,8 +43,7 @@ namespace aslam {
       transSplineLambda = config.getDouble("splines/transSplineLambda");
       rotSplineLambda = config.getDouble("splines/rotSplineLambda");
       splineKnotsPerSecond = config.getInt("splines/splineKnotsPerSecond");
-      transSplineOrder = config.getInt("splines/transSplineOrder",
-        transSplineOrder);
+      transSplineOrder = config.getInt("splines/transSplineOrder", 4);
       rotSplineOrder = config.getInt("splines/rotSplineOrder");
       type = config.getString("type");
     }
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
index a1782f9..4138527 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
@@ -39,8 +39,7 @@ namespace aslam {
       transSplineLambda = config.getDouble("splines/transSplineLambda");
       rotSplineLambda = config.getDouble("splines/rotSplineLambda");
       splineKnotsPerSecond = config.getInt("splines/splineKnotsPerSecond");
-      transSplineOrder = config.getInt("splines/transSplineOrder",
-        transSplineOrder);
+      transSplineOrder = config.getInt("splines/transSplineOrder", 4);
       rotSplineOrder = config.getInt("splines/rotSplineOrder");
 
       lwVariance = config.getDouble("odometry/sensors/wss/noise/lwVariance");
-- 
2.43.0


From 466f33c4466070f561da824e1ebaf6dcaa257c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 22/27] fix: the rear wheels are weighted with their own
 variances

---
 .../src/algo/CarCalibrator.cpp                            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index a320552..0f2443e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -890,12 +890,12 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rlw);
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rrw);
       }
@@ -948,11 +948,11 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto sr_l = e_rlw->evaluateError();
         auto error_l = e_rlw->error();
-- 
2.43.0


From fcc317808fd0a79e4c44cd6b11fb39a9829cec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 23/27] fix: the transposed Jacobian is released when solving
 raises

---
 aslam_tsvd_solver/src/aslam-tsvd-solver.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_tsvd_solver/src/aslam-tsvd-solver.cc b/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
index 31b8367..7391132 100644
--- a/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
+++ b/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
@@ -46,8 +46,9 @@ bool AslamTruncatedSvdSolver::solveSystem(Eigen::VectorXd& dx) {
     jacobian_builder_.J_transpose();
   cholmod_sparse Jt_CS;
   Jt.getView(&Jt_CS);
-  cholmod_sparse* J_CS = cholmod_l_transpose(&Jt_CS, 1, &cholmod_);
-  if (J_CS == NULL)
+  truncated_svd_solver::SelfFreeingCholmodPtr<cholmod_sparse> J_CS(
+      cholmod_l_transpose(&Jt_CS, 1, &cholmod_), cholmod_);
+  if (J_CS == nullptr)
     return false;
   cholmod_dense e_CD;
   truncated_svd_solver::eigenDenseToCholmodDenseView(_e, &e_CD);
@@ -67,7 +68,6 @@ bool AslamTruncatedSvdSolver::solveSystem(Eigen::VectorXd& dx) {
     std::cout << "V-matrix (observability basis, column vectors correspond to singular values)\n" << getMatrixV()
       << std::endl;
   }
-  cholmod_l_free_sparse(&J_CS, &cholmod_);
   return status;
 }
 
-- 
2.43.0


From be8a40c9c6693f86fb3238be313e1a866058e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 24/27] fix: fill in the covariance of predicted measurements

---
 .../src/algo/CarCalibrator.cpp                                | 4 ++++
 .../src/algo/Calibrator.cpp                                   | 4 ++++
 .../src/algo/Calibrator.cpp                                   | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 0f2443e..effec4e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -523,6 +523,8 @@ namespace aslam {
         pose.m_r_mr = m_r_mr.toValue();
         const EulerAnglesYawPitchRoll ypr;
         pose.m_R_r = ypr.rotationMatrixToParameters(m_R_r.toRotationMatrix());
+        pose.sigma2_m_r_mr = it->second.sigma2_m_r_mr;
+        pose.sigma2_m_R_r = it->second.sigma2_m_R_r;
         _poseMeasurementsPred.push_back(std::make_pair(timestamp, pose));
         _poseMeasurementsPredErrors.push_back(error);
         _poseMeasurementsPredErrors2.push_back(sr);
@@ -596,6 +598,8 @@ namespace aslam {
         VelocitiesMeasurement vel;
         vel.r_v_mr = r_v_mr.toValue();
         vel.r_om_mr = r_om_mr.toValue();
+        vel.sigma2_r_v_mr = it->second.sigma2_r_v_mr;
+        vel.sigma2_r_om_mr = it->second.sigma2_r_om_mr;
         _velocitiesMeasurementsPred.push_back(std::make_pair(timestamp, vel));
         _velocitiesMeasurementsPredErrors.push_back(error);
         _velocitiesMeasurementsPredErrors2.push_back(sr);
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index a49d45a..5057d39 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -302,6 +302,8 @@ namespace aslam {
             motion.motion =
               Transformation((prevTransformation.inverse() *
               currentTransformation).toTransformationMatrix());
+            motion.duration = measurement.second.duration;
+            motion.sigma2 = measurement.second.sigma2;
             motionMeasurementsPred_[idx].push_back(std::make_pair(timestamp,
               motion));
             motionMeasurementsPredErrors_[idx].push_back(error);
@@ -354,6 +356,8 @@ namespace aslam {
             motion.motion =
               Transformation((prevTransformation.inverse() *
               currentTransformation).toTransformationMatrix());
+            motion.duration = measurement.second.duration;
+            motion.sigma2 = measurement.second.sigma2;
             motionMeasurementsPred_[idx].push_back(std::make_pair(timestamp,
               motion));
             motionMeasurementsPredErrors_[idx].push_back(error);
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 5869d1e..3a2f539 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -408,6 +408,8 @@ namespace aslam {
         pose.w_r_wp = w_r_wp.toValue();
         const EulerAnglesYawPitchRoll ypr;
         pose.w_R_p = ypr.rotationMatrixToParameters(w_R_p.toRotationMatrix());
+        pose.sigma2_w_r_wp = it->second.sigma2_w_r_wp;
+        pose.sigma2_w_R_p = it->second.sigma2_w_R_p;
         _poseMeasurementsPred.push_back(std::make_pair(timestamp, pose));
         _poseMeasurementsPredErrors.push_back(error);
         _poseMeasurementsPredErrors2.push_back(sr);
-- 
2.43.0


From 542547b6bd86895b4ec533871a75fb634030c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:18 +0000
Subject: [PATCH 25/27] fix: integer randomizers draw from the unit interval,
 end points at full weight

---
 .../aslam/calibration/statistics/Randomizer.h |  9 +++++
 .../calibration/statistics/Randomizer.tpp     | 40 ++++++++++++++-----
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index c000663..754c7c1 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -38,6 +38,12 @@ namespace aslam {
         /// Round function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z round(const double& value);
+        /// Maps the unit interval to a support of real type
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z scale(double unit, const Z& min, const Z& max);
+        /// Maps the unit interval to a support of integer type
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z scale(double unit, const Z& min, const Z& max);
       };
       /** @}
         */
@@ -89,6 +95,9 @@ namespace aslam {
         */
 
     protected:
+      /// Returns a real sample from the unit interval
+      static double sampleUnit();
+
       /** \name Stream methods
         @{
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 8f4cfff..e174f79 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -90,8 +90,13 @@ namespace aslam {
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(random() /
-        (double)RAND_MAX * (maxSupport - minSupport));
+      return Traits::template scale<T, true>(sampleUnit(), minSupport,
+        maxSupport);
+    }
+
+    template <typename T, int M>
+    double Randomizer<T, M>::sampleUnit() {
+      return random() / (double)RAND_MAX;
     }
 
     template <typename T, int M>
@@ -103,8 +108,8 @@ namespace aslam {
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * sampleUnit() - 1.0;
+        v = 2.0 * sampleUnit() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -123,7 +128,7 @@ namespace aslam {
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
       double sum = probabilities(0);
-      const double u = sampleUniform();
+      const double u = sampleUnit();
       for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
         if (u > sum)
           sum += probabilities(i);
@@ -143,7 +148,7 @@ namespace aslam {
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= sampleUnit();
       }
       while (p > l);
       return k - 1;
@@ -158,7 +163,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -173,7 +178,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return floor(log(u) / log(1 - probability));
@@ -199,17 +204,17 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * sampleUnit();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (sampleUnit() > pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (sampleUnit() > exp(-z))
               continue;
             else
               break;
@@ -230,5 +235,18 @@ namespace aslam {
       return (Z)::round(value);
     }
 
+    template <typename T, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double unit, const Z& min, const Z& max) {
+      return min + unit * (max - min);
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double unit, const Z& min, const Z& max) {
+      const double count = (double)max - (double)min + 1.0;
+      return unit < 1.0 ? (Z)(min + (Z)floor(unit * count)) : max;
+    }
+
   }
 }
-- 
2.43.0


From a50af072338083968b73a1448c94f71b8178e728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:17 +0000
Subject: [PATCH 26/27] fix: combined simulated trajectory goes on from where
 its previous section ended

---
 .../src/simulation/simulationEngine.cpp              | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
index 5bf0ef6..3058169 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
@@ -76,9 +76,11 @@ namespace aslam {
         }
 
         // sinePlanar
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         auto lastTimestamp = nsecToSec(timestamps.back());
+        w_phi_v_km1 =
+          std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * lastTimestamp));
+        w_r_wv_km1 = Eigen::Vector2d(lastTimestamp,
+          A * sin(2 * M_PI * f * lastTimestamp));
         for (double t = lastTimestamp + dt; t < 2.0 / 3.0 * T; t += dt) {
           Eigen::Vector2d v_v_om_wv_k = genSineBodyVel2d(w_phi_v_km1,
             w_r_wv_km1, t, dt, A, f);
@@ -97,9 +99,11 @@ namespace aslam {
         }
 
         // random
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         lastTimestamp = nsecToSec(timestamps.back());
+        w_phi_v_km1 =
+          std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * lastTimestamp));
+        w_r_wv_km1 = Eigen::Vector2d(lastTimestamp,
+          A * sin(2 * M_PI * f * lastTimestamp));
         auto trajDist = NormalDistribution<3>(
           Eigen::Matrix<double, 3, 1>::Zero(),
           Eigen::Matrix<double, 3, 3>::Identity() * 2);
-- 
2.43.0


From 63b298f0b7ecc60f05b1b42bef5cc4e3a7b27b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:43 +0000
Subject: [PATCH 27/27] fix: predict the wheel speed the wheel's residual
 expects

---
 .../src/algo/Calibrator.cpp                               | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 3a2f539..ef6ed17 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -503,11 +503,9 @@ namespace aslam {
         auto sr_l = e_lw->evaluateError();
         auto error_l = e_lw->error();
         double v0 = v_v_wl.toValue()(0);
-        double v1 = v_v_wl.toValue()(1);
         double k = _odometryDesignVariables->k_l->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = k * v0;
         _leftWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _leftWheelSpeedMeasurementsPredErrors.push_back(error_l);
@@ -603,11 +601,9 @@ namespace aslam {
         auto sr_r = e_rw->evaluateError();
         auto error_r = e_rw->error();
         double v0 = v_v_wr.toValue()(0);
-        double v1 = v_v_wr.toValue()(1);
         double k = _odometryDesignVariables->k_r->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = k * v0;
         _rightWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _rightWheelSpeedMeasurementsPredErrors.push_back(error_r);
-- 
2.43.0

