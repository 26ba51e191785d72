From 97e3d5444df3f76c89a80fcd248f9e4117bd997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 01/53] fix: leave the incremental problem untouched when a
 batch is refused

IncrementalOptimizationProblem::add() reported a group mismatch or an
already known error term after having registered design variables of the
batch. Check first, mutate afterwards.
---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 114858a..2939f07 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -175,8 +175,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // check the problem before touching anything
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -188,21 +204,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From 2b2f89cba77863c928d5aa1bb02eccaf31e6843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 02/53] fix: forget the saved design variables when clearing
 the problem

A restore after clear() wrote into variables that were no longer part of
the problem (and possibly destroyed).
---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 2939f07..252d9d8 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -259,6 +259,7 @@ namespace aslam {
       _optimizationProblems.clear();
       _designVariablesCounts.clear();
       _designVariables.clear();
+      _designVariablesBackup.clear();
       _groupsOrdering.clear();
     }
 
-- 
2.43.0


From e030b6d8db5d4ab542be9998000b7837f7dbfc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 03/53] fix: refuse invalid permutations before permuting
 anything

A duplicated index made permute() loop for ever (or permute wrongly), a
negative one read out of bounds and an index too large was only noticed
after part of the container had been permuted.
---
 .../aslam/calibration/algorithms/permute.tpp      | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index b9b0c9a..803df29 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -5,7 +5,9 @@
 
 #include "aslam/calibration/exceptions/OutOfBoundException.h"
 
+#include <cstddef>
 #include <utility>
+#include <vector>
 
 namespace aslam {
   namespace calibration {
@@ -20,11 +22,18 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
-      for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
-          throw OutOfBoundException<I>(permutation[i], static_cast<I>(
+      std::vector<bool> seen(container.size(), false);
+      for (auto it = permutation.cbegin(); it != permutation.cend(); ++it) {
+        if (static_cast<size_t>(*it) >= container.size())
+          throw OutOfBoundException<I>(*it, static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (seen[static_cast<size_t>(*it)])
+          throw OutOfBoundException<I>(*it, "duplicate index in permutation "
+            "vector", __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        seen[static_cast<size_t>(*it)] = true;
+      }
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From 30e045920f76e7982f382145b9560eb7949b0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 04/53] fix: check batch indices before doing iterator
 arithmetic with them

begin() + idx wraps around for a huge index, so that remove(idx) could
remove another batch instead of reporting the bad index.
---
 .../src/core/IncrementalOptimizationProblem.cpp          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 252d9d8..56ca952 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -62,11 +62,17 @@ namespace aslam {
 
     const OptimizationProblem* IncrementalOptimizationProblem::
         getOptimizationProblem(size_t idx) const {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       return getOptimizationProblem(_optimizationProblems.cbegin() + idx);
     }
 
     OptimizationProblem* IncrementalOptimizationProblem::
         getOptimizationProblem(size_t idx) {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       return getOptimizationProblem(_optimizationProblems.begin() + idx);
     }
 
@@ -252,6 +258,9 @@ namespace aslam {
     }
 
     void IncrementalOptimizationProblem::remove(size_t idx) {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       remove(_optimizationProblems.begin() + idx);
     }
 
-- 
2.43.0


From 6195b252d71aa7896b704f40b06a524641a58d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 05/53] fix: take a batch out again when adding it fails

addBatch() let an exception (missing marginalized group, failing
optimizer or solver) escape with the batch still in the problem and with
the design variables wherever the failed optimization had left them.
---
 .../src/core/IncrementalEstimator.cpp         | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index fc677f8..7cc0e94 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -324,13 +324,32 @@ namespace aslam {
       // insert new batch in the problem
       _problem->add(problem);
 
+      // save design variables in case the batch is rejected
+      _problem->saveDesignVariables();
+
+      // take the batch out again if anything throws from here on
+      struct Rollback {
+        ~Rollback() {
+          if (!active)
+            return;
+          try {
+            estimator._problem->restoreDesignVariables();
+            estimator._problem->remove(batch);
+            if (estimator._problem->getNumOptimizationProblems() > 0)
+              estimator.restoreLinearSolver();
+          }
+          catch (...) {
+            // the original exception is being propagated
+          }
+        }
+        IncrementalEstimator& estimator;
+        const BatchSP& batch;
+        bool active;
+      } rollback = {*this, problem, true};
+
       // ensure marginalized design variables are well located
       orderMarginalizedDesignVariables();
 
-      // save design variables in case the batch is rejected
-      if (!force)
-        _problem->saveDesignVariables();
-
       // set the marginalization index of the linear solver
       size_t JCols = 0;
       for (auto it = _problem->getGroupsOrdering().cbegin();
@@ -430,6 +449,7 @@ namespace aslam {
         _finalCost = srv.JFinal;
       }
       ret.batchAccepted = keepBatch;
+      rollback.active = false;
 
       // remove batch if necessary
       if (!keepBatch) {
-- 
2.43.0


From 9907d997cf32f982b0188617fe06854523c86db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 06/53] fix: let the last batch be removed from the estimator

removeBatch() on the only batch threw (it reoptimized an empty problem)
and kept the information content of the removed batch, so that adding it
again was refused for not bringing anything.
---
 .../calibration/core/IncrementalEstimator.h   |  2 ++
 .../src/core/IncrementalEstimator.cpp         | 32 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
index af6863e..6c6d020 100644
--- a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
+++ b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
@@ -239,6 +239,8 @@ namespace aslam {
       void orderMarginalizedDesignVariables();
       /// Restores the linear solver
       void restoreLinearSolver();
+      /// Resets the published figures to their initial values
+      void resetFigures();
       /** @}
         */
 
diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index 7cc0e94..5c3d177 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -475,6 +475,12 @@ namespace aslam {
       // remove the batch
       _problem->remove(idx);
 
+      // nothing left to optimize: back to the initial state
+      if (_problem->getNumOptimizationProblems() == 0) {
+        resetFigures();
+        return;
+      }
+
       // reoptimize
       reoptimize();
     }
@@ -506,6 +512,32 @@ namespace aslam {
       }
     }
 
+    void IncrementalEstimator::resetFigures() {
+      _informationGain = 0.0;
+      _svLog2Sum = 0.0;
+      _svdTolerance = 0.0;
+      _qrTolerance = -1.0;
+      _rankTheta = -1;
+      _rankThetaDeficiency = -1;
+      _rankPsi = -1;
+      _rankPsiDeficiency = -1;
+      _peakMemoryUsage = 0;
+      _memoryUsage = 0;
+      _numFlops = 0.0;
+      _initialCost = 0.0;
+      _finalCost = 0.0;
+      _nobsBasis.resize(0, 0);
+      _nobsBasisScaled.resize(0, 0);
+      _obsBasis.resize(0, 0);
+      _obsBasisScaled.resize(0, 0);
+      _sigma2Theta.resize(0, 0);
+      _sigma2ThetaScaled.resize(0, 0);
+      _sigma2ThetaObs.resize(0, 0);
+      _sigma2ThetaObsScaled.resize(0, 0);
+      _singularValues.resize(0);
+      _singularValuesScaled.resize(0);
+    }
+
     void IncrementalEstimator::restoreLinearSolver() {
       // init the matrix structure
       std::vector<aslam::backend::DesignVariable*> dvs;
-- 
2.43.0


From d2221bcc59d3051d69671e612de4f818d81d8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 07/53] fix: do not read below the last row when summing the
 diagonal of a wide matrix

---
 .../aslam/calibration/algorithms/matrixOperations.tpp        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp b/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp
index beae34a..2d3e66b 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp
@@ -25,6 +25,11 @@ namespace aslam {
            "checkColumnIndices(): "
            "column end index must be smaller than the columns of R",
            __FILE__, __LINE__);
+       if (colEnd >= static_cast<size_t>(R.rows()))
+         throw OutOfBoundException<size_t>(colEnd,
+           "checkColumnIndices(): "
+           "column end index must be smaller than the rows of R",
+           __FILE__, __LINE__);
     }
 
     template <typename T>
-- 
2.43.0


From c0cce9d21b1abebf52cc1e15b44ecda1e3ee1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 08/53] fix: keep the index of a point close to the maximum of
 a grid inside the grid

---
 .../include/aslam/calibration/data-structures/Grid.tpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 884ac16..44095b5 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -177,8 +177,12 @@ namespace aslam {
       for (size_t i = 0; i < static_cast<size_t>(point.size()); ++i)
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
-        else
+        else {
           idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          // rounding may carry a point close to the maximum too far
+          if (idx(i) >= mNumCells(i))
+            idx(i) = mNumCells(i) - 1;
+        }
       return idx;
     }
 
-- 
2.43.0


From 71438f49b4d604f56972d0eb931dbf544f47f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 09/53] fix: refuse negative indices into a grid

---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 44095b5..0394704 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -217,7 +217,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From 01579eefab6793c778e29a6fc4b5c8692b0eabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 10/53] fix: round the center of a cell of an integer grid down

Truncation towards zero put the center of a cell with negative
coordinates into the next cell.
---
 .../aslam/calibration/data-structures/Grid.h    |  6 ++++++
 .../aslam/calibration/data-structures/Grid.tpp  | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.h b/incremental_calibration/include/aslam/calibration/data-structures/Grid.h
index e433dfa..ccf9504 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.h
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.h
@@ -65,6 +65,12 @@ namespace aslam {
         /// Ceil function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z ceil(const Z& value);
+        /// Center of a cell for real types
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z center(double value);
+        /// Center of a cell for integer types
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z center(double value);
       };
       /** @}
         */
diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 0394704..0bb6902 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -6,6 +6,8 @@
 #include "aslam/calibration/exceptions/OutOfBoundException.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 
+#include <cmath>
+
 namespace aslam {
   namespace calibration {
 
@@ -205,7 +207,8 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        point[i] = Traits::template center<T, true>(mMinimum(i) +
+          (idx(i) + 0.5) * mResolution(i));
       return point;
     }
 
@@ -297,5 +300,17 @@ namespace aslam {
       return ::ceil(value) + 1;
     }
 
+    template <typename T, typename C, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Grid<T, C, M>::Traits::center(double value) {
+      return value;
+    }
+
+    template <typename T, typename C, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Grid<T, C, M>::Traits::center(double value) {
+      return std::floor(value);
+    }
+
   }
 }
-- 
2.43.0


From b9899503d5f829b15be542a0d26962d54fc3dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 11/53] fix: make the moments of histograms compile when they
 are used

incrementIndex() is a member of a dependent base and was never found.
---
 .../include/aslam/calibration/statistics/Histogram1v.tpp  | 8 ++++----
 .../include/aslam/calibration/statistics/HistogramMv.tpp  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index 9dfa792..bf3373c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -44,7 +44,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -54,7 +54,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -81,7 +81,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 8ba7b46..10718ee 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -43,7 +43,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -54,7 +54,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -70,7 +70,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From ef36e7d3259ac62c60229c2ba588890f5940fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 12/53] fix: let the multivariate maximum likelihood estimator
 compile

---
 .../include/aslam/calibration/utils/SizeTSupport.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
index b7c3a25..fe506c2 100644
--- a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
+++ b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
@@ -19,7 +19,7 @@ namespace Eigen {
   /** The NumTraits<size_t> structure defines support for size_t type in Eigen.
       \brief Eigen support for size_t
     */
-  template<> struct NumTraits<size_t> {
+  template<> struct NumTraits<size_t> : GenericNumTraits<size_t> {
     /// Real definition
     typedef size_t Real;
     /// Floating point definition
-- 
2.43.0


From dc9963411bb5538b0404dc1fa901138c7bc223f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 13/53] fix: put the mean and median of uniform distributions
 between their limits

---
 .../aslam/calibration/statistics/UniformDistribution1v.tpp  | 4 ++--
 .../aslam/calibration/statistics/UniformDistributionMv.tpp  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 2b012da..48d1b0a 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -136,13 +136,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index bc385a6..6ffe3c7 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -141,7 +141,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
@@ -154,7 +155,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
-- 
2.43.0


From 14bed019858bba28c9b642dd2bf72dc7a49bbd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 14/53] fix: compute the covariance of uniform distributions
 per dimension

---
 .../statistics/UniformDistributionMv.tpp       | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index 6ffe3c7..d044f40 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -193,12 +193,9 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> support =
+        maxSupport.template cast<double>() - minSupport.template cast<double>();
+      return (support.array().square() / 12.0).matrix().asDiagonal();
     }
 
     template <typename X, int M>
@@ -207,12 +204,9 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> support =
+        maxSupport.template cast<double>() - minSupport.template cast<double>();
+      return (((support.array() + 1.0).square() - 1.0) / 12.0).matrix().asDiagonal();
     }
 
   }
-- 
2.43.0


From ce832ec136e06d914dd9a8211f444229001c4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 15/53] fix: refuse singular covariance matrices before
 changing the distribution

---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index ae7b7c9..955fa04 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,8 +101,8 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success)
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -111,6 +111,7 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
+      mTransformation = transformation;
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-- 
2.43.0


From 9b86298382ecffe2b894c497a8f205acfa64c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 16/53] fix: refuse parameters of distributions that are not
 numbers

---
 .../aslam/calibration/statistics/GammaDistribution.tpp        | 4 ++--
 .../aslam/calibration/statistics/UniformDistribution1v.tpp    | 2 +-
 .../aslam/calibration/statistics/UniformDistributionMv.tpp    | 2 +-
 .../src/statistics/NormalDistribution1v.cpp                   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ff1e8a9..b26b99c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -75,7 +75,7 @@ namespace aslam {
 
     template <typename T>
     void GammaDistribution<T>::setShape(const T& shape) {
-      if (shape <= 0)
+      if (!(shape > 0))
         throw BadArgumentException<T>(shape,
           "GammaDistribution::setShape(): shape must be strictly positive",
           __FILE__, __LINE__);
@@ -90,7 +90,7 @@ namespace aslam {
 
     template <typename T>
     void GammaDistribution<T>::setInvScale(double invScale) {
-      if (invScale <= 0)
+      if (!(invScale > 0))
         throw BadArgumentException<double>(invScale,
           "GammaDistribution::setScale(): inverse scale must be "
           "strictly positive",
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 48d1b0a..3835549 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -72,7 +72,7 @@ namespace aslam {
     template <typename X>
     void UniformDistribution<X>::setSupport(const RandomVariable& minSupport,
         const RandomVariable& maxSupport) {
-      if (minSupport >= maxSupport)
+      if (!(minSupport < maxSupport))
         throw BadArgumentException<RandomVariable>(minSupport,
           "UniformDistribution<X>::setSupport(): "
           "minimum support must be smaller "
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index d044f40..4a629e6 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -74,7 +74,7 @@ namespace aslam {
     template <typename X, int M>
     void UniformDistribution<X, M>::setSupport(const RandomVariable& minSupport,
         const RandomVariable& maxSupport) {
-      if ((minSupport.array() >= maxSupport.array()).any())
+      if (!(minSupport.array() < maxSupport.array()).all())
         throw BadArgumentException<RandomVariable>(minSupport,
           "UniformDistribution<X, M>::setSupport(): minimum support must be "
           "smaller than maximum support",
diff --git a/incremental_calibration/src/statistics/NormalDistribution1v.cpp b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
index 2236282..05ea9a2 100644
--- a/incremental_calibration/src/statistics/NormalDistribution1v.cpp
+++ b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
@@ -80,7 +80,7 @@ namespace aslam {
     }
 
     void NormalDistribution<1>::setVariance(Variance variance) {
-      if (variance <= 0.0)
+      if (!(variance > 0.0))
         throw BadArgumentException<Variance>(variance,
           "NormalDistribution::setVariance(): variance must be strictly bigger "
           "than 0",
-- 
2.43.0


From d2fc6283b155c4b64028bff263ece75ee14e0f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 17/53] fix: correct the divergence between gamma distributions

---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index b26b99c..ef023db 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -184,7 +184,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From a791c7c5e846e5b25f7efbad258a435fb3ac57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 18/53] fix: give values below zero no probability in gamma
 distributions

---
 .../aslam/calibration/statistics/GammaDistribution.tpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ef023db..4f36b55 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include <boost/math/distributions/gamma.hpp>
 
 #include "aslam/calibration/statistics/Randomizer.h"
@@ -125,7 +127,9 @@ namespace aslam {
 
     template <typename T>
     double GammaDistribution<T>::logpdf(const RandomVariable& value) const {
-      if (value == 0 && mShape == T(1))
+      if (value < 0)
+        return -std::numeric_limits<double>::infinity();
+      else if (value == 0 && mShape == T(1))
         return -mNormalizer;
       else
         return (mShape - 1) * log(value) - value * mInvScale - mNormalizer;
-- 
2.43.0


From 639b34e90353c90488431576510aef6650c7a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 19/53] fix: ignore an empty range of weighted points

---
 .../aslam/calibration/statistics/EstimatorMLNormalMv.tpp        | 2 +-
 incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
index 9ebbaeb..dc28c3b 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
@@ -136,7 +136,7 @@ namespace aslam {
     void EstimatorML<NormalDistribution<M> >::addPoints(const
         ConstPointIterator& itStart, const ConstPointIterator& itEnd, const
         Eigen::Matrix<double, Eigen::Dynamic, 1>& responsibilities) {
-      if (responsibilities.size() != itEnd - itStart)
+      if (itStart == itEnd || responsibilities.size() != itEnd - itStart)
         return;
       Eigen::Matrix<double, M, 1> mean =
         Eigen::Matrix<double, M, 1>::Zero(itStart->size());
diff --git a/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp b/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
index d085f65..d0767ca 100644
--- a/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
+++ b/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
@@ -119,7 +119,7 @@ namespace aslam {
     void EstimatorML<NormalDistribution<1> >::addPoints(const
         ConstPointIterator& itStart, const ConstPointIterator& itEnd, const
         Eigen::Matrix<double, Eigen::Dynamic, 1>& responsibilities) {
-      if (responsibilities.size() != itEnd - itStart)
+      if (itStart == itEnd || responsibilities.size() != itEnd - itStart)
         return;
       double mean = 0;
       for (auto it = itStart; it != itEnd; ++it)
-- 
2.43.0


From c7e7ca8b69d1e5e37679949b92d7a3ee1ca5b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 20/53] fix: draw real numbers from the unit interval when
 sampling integers

---
 .../aslam/calibration/statistics/Randomizer.h |  8 ++++++
 .../calibration/statistics/Randomizer.tpp     | 27 +++++++++++--------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index c000663..7bca49a 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -89,6 +89,14 @@ namespace aslam {
         */
 
     protected:
+      /** \name Protected methods
+        @{
+        */
+      /// Returns a real sample from the unit interval, whatever the sample type
+      static double sampleUnit();
+      /** @}
+        */
+
       /** \name Stream methods
         @{
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index e481f06..0006945 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -90,8 +90,13 @@ namespace aslam {
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(random() /
-        (double)RAND_MAX * (maxSupport - minSupport));
+      return minSupport + Traits::template round<T, true>(sampleUnit() *
+        (maxSupport - minSupport));
+    }
+
+    template <typename T, int M>
+    double Randomizer<T, M>::sampleUnit() {
+      return random() / (double)RAND_MAX;
     }
 
     template <typename T, int M>
@@ -103,8 +108,8 @@ namespace aslam {
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * sampleUnit() - 1.0;
+        v = 2.0 * sampleUnit() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -123,7 +128,7 @@ namespace aslam {
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
       double sum = probabilities(0);
-      const double u = sampleUniform();
+      const double u = sampleUnit();
       for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
         if (u > sum)
           sum += probabilities(i);
@@ -143,7 +148,7 @@ namespace aslam {
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= sampleUnit();
       }
       while (p > l);
       return k - 1;
@@ -158,7 +163,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -173,7 +178,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return floor(log(u) / log(1 - probability));
@@ -199,17 +204,17 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * sampleUnit();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (sampleUnit() > pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (sampleUnit() > exp(-z))
               continue;
             else
               break;
-- 
2.43.0


From fffd99a99c9fbeddfe9770c76676d6acc8ba966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 21/53] fix: make all integers of a uniform distribution
 equally likely

---
 .../aslam/calibration/statistics/Randomizer.h |  9 +++++++++
 .../calibration/statistics/Randomizer.tpp     | 20 +++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index 7bca49a..5b9065e 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -38,6 +38,15 @@ namespace aslam {
         /// Round function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z round(const double& value);
+        /// Scales a number of the unit interval to a real support
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z scale(double value, const Z& minSupport,
+            const Z& maxSupport);
+        /// Scales a number of the unit interval to an integer support, every
+        /// integer of which is equally likely
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z scale(double value, const Z& minSupport,
+            const Z& maxSupport);
       };
       /** @}
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 0006945..afc0b5b 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -90,8 +90,8 @@ namespace aslam {
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(sampleUnit() *
-        (maxSupport - minSupport));
+      return Traits::template scale<T, true>(sampleUnit(), minSupport,
+        maxSupport);
     }
 
     template <typename T, int M>
@@ -235,5 +235,21 @@ namespace aslam {
       return (Z)::round(value);
     }
 
+    template <typename T, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double value, const Z& minSupport,
+        const Z& maxSupport) {
+      return minSupport + value * (maxSupport - minSupport);
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double value, const Z& minSupport,
+        const Z& maxSupport) {
+      const Z offset = floor(value * (maxSupport - minSupport + 1.0));
+      return offset < maxSupport - minSupport ? minSupport + offset :
+        maxSupport;
+    }
+
   }
 }
-- 
2.43.0


From 32f0866288f6e46933ac1d42604065f1db0b42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 22/53] fix: never return an infinite sample of a gamma
 distribution

---
 .../include/aslam/calibration/statistics/Randomizer.tpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index afc0b5b..8bd0315 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -207,7 +207,7 @@ namespace aslam {
           const double p = b * sampleUnit();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUnit() > pow(z, fractionalPart - 1))
+            if (sampleUnit() >= pow(z, fractionalPart - 1))
               continue;
             else
               break;
-- 
2.43.0


From 5e1454d48a6af40d93dc73e71fc01b4dc9a031a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 23/53] fix: never draw a category of probability zero

---
 .../calibration/statistics/Randomizer.tpp      | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 8bd0315..5cd692e 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -127,14 +127,18 @@ namespace aslam {
           "Randomizer<T, M>::sampleCategorical: success probabilities must sum "
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
-      double sum = probabilities(0);
+      double sum = 0.0;
+      size_t last = 0;
       const double u = sampleUnit();
-      for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
-        if (u > sum)
-          sum += probabilities(i);
-        else
-          return i - 1;
-      return probabilities.size() - 1;
+      for (size_t i = 0; i < (size_t)probabilities.size(); ++i) {
+        if (probabilities(i) == 0.0)
+          continue;
+        sum += probabilities(i);
+        last = i;
+        if (u <= sum)
+          break;
+      }
+      return last;
     }
 
     template <typename T, int M>
-- 
2.43.0


From d5bcd2eb2558d0b591713cd125f04992110ca5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 24/53] fix: refuse to sample with parameters that are not
 numbers

---
 .../aslam/calibration/statistics/Randomizer.tpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 5cd692e..30c8675 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -85,7 +85,7 @@ namespace aslam {
     template <typename T, int M>
     T Randomizer<T, M>::sampleUniform(const T& minSupport, const T& maxSupport)
         const {
-      if (minSupport >= maxSupport)
+      if (!(minSupport < maxSupport))
         throw BadArgumentException<T>(minSupport,
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
@@ -101,7 +101,7 @@ namespace aslam {
 
     template <typename T, int M>
     T Randomizer<T, M>::sampleNormal(const T& mean, const T& variance) const {
-      if (variance <= 0)
+      if (!(variance > 0))
         throw BadArgumentException<T>(variance,
           "Randomizer<T, M>::sampleNormal(): "
           "variance must be strictly positive",
@@ -120,7 +120,7 @@ namespace aslam {
     template <typename T, int M>
     size_t Randomizer<T, M>::sampleCategorical(const
         Eigen::Matrix<double, M, 1>& probabilities) const {
-      if (fabs(probabilities.sum() - 1.0) > 1e-12 ||
+      if (!(fabs(probabilities.sum() - 1.0) <= 1e-12) ||
           (probabilities.array() < 0).any())
         throw BadArgumentException<Eigen::Matrix<double, M, 1> >(
           probabilities,
@@ -143,7 +143,7 @@ namespace aslam {
 
     template <typename T, int M>
     size_t Randomizer<T, M>::samplePoisson(double mean) const {
-      if (mean <= 0)
+      if (!(mean > 0))
         throw BadArgumentException<double>(mean,
           "Randomizer<T, M>::samplePoisson(): mean must be strictly positive",
           __FILE__, __LINE__);
@@ -160,7 +160,7 @@ namespace aslam {
 
     template <typename T, int M>
     double Randomizer<T, M>::sampleExponential(double rate) const {
-      if (rate <= 0)
+      if (!(rate > 0))
         throw BadArgumentException<double>(rate,
           "Randomizer<T, M>::sampleExponential(): "
           "rate must be strictly positive",
@@ -175,7 +175,7 @@ namespace aslam {
 
     template <typename T, int M>
     size_t Randomizer<T, M>::sampleGeometric(double probability) const {
-      if (probability <= 0.0 || probability > 1.0)
+      if (!(probability > 0.0 && probability <= 1.0))
         throw BadArgumentException<double>(probability,
           "Randomizer<T, M>::sampleGeometric(): success probability must be "
           "between 0 and 1",
@@ -190,11 +190,11 @@ namespace aslam {
 
     template <typename T, int M>
     double Randomizer<T, M>::sampleGamma(double shape, double invScale) const {
-      if (shape <= 0)
+      if (!(shape > 0))
         throw BadArgumentException<double>(shape,
           "Randomizer<T, M>::sampleGamma(): shape must be strictly positive",
           __FILE__, __LINE__);
-      if (invScale <= 0)
+      if (!(invScale > 0))
         throw BadArgumentException<double>(invScale,
           "Randomizer<T, M>::sampleGamma(): inverse scale must be strictly "
           "positive",
-- 
2.43.0


From 48cc41f06fd5509adf43203c6ea8d585be45a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 25/53] fix: sample from Poisson distributions with a large
 mean

---
 .../aslam/calibration/statistics/Randomizer.tpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 30c8675..02f27b6 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -147,6 +147,14 @@ namespace aslam {
         throw BadArgumentException<double>(mean,
           "Randomizer<T, M>::samplePoisson(): mean must be strictly positive",
           __FILE__, __LINE__);
+      // exp(-mean) must not underflow: the sum of independent Poisson samples is
+      // a Poisson sample with the sum of their means
+      const double maxMean = 500.0;
+      size_t n = 0;
+      while (mean > maxMean) {
+        n += samplePoisson(maxMean);
+        mean -= maxMean;
+      }
       const double l = exp(-mean);
       size_t k = 0;
       double p = 1.0;
@@ -155,7 +163,7 @@ namespace aslam {
         p *= sampleUnit();
       }
       while (p > l);
-      return k - 1;
+      return n + k - 1;
     }
 
     template <typename T, int M>
-- 
2.43.0


From ac11a9462f398dba7d97a1dd49d32240893c1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 26/53] fix: keep the parts of a transformation in step with
 its matrix

A transformation set from a matrix could not be inverted, inverting twice did
not give the original back, and a new transformation was uninitialised.
---
 .../calibration/geometry/Transformation2d.tpp | 21 +++++++++++++-----
 .../calibration/geometry/Transformation3d.tpp | 22 +++++++++++++------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
index 656ff1e..5feb057 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
@@ -13,13 +13,16 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    Transformation<T, 2>::Transformation() {
+    Transformation<T, 2>::Transformation() :
+        mTransformationMatrix(Eigen::Matrix<double, 3, 3>::Identity()),
+        mRotationMatrix(Eigen::Matrix<double, 3, 3>::Identity()),
+        mTranslationMatrix(Eigen::Matrix<double, 3, 3>::Identity()) {
     }
 
     template <typename T>
     Transformation<T, 2>::Transformation(const Eigen::Matrix<double, 3, 3>&
-        transformationMatrix) :
-        mTransformationMatrix(transformationMatrix) {
+        transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -78,6 +81,11 @@ namespace aslam {
     void Transformation<T, 2>::setTransformationMatrix(const
         Eigen::Matrix<double, 3, 3>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix = transformationMatrix;
+      mRotationMatrix.template topRightCorner<2, 1>().setZero();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        transformationMatrix.template topRightCorner<2, 1>();
     }
 
     template <typename T>
@@ -137,9 +145,10 @@ namespace aslam {
     template <typename T>
     const Transformation<T, 2>& Transformation<T, 2>::inverse() {
       mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
-      mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        -(mRotationMatrix.template topLeftCorner<2, 2>() *
+        mTranslationMatrix.template topRightCorner<2, 1>()).eval();
+      mTransformationMatrix = mTranslationMatrix * mRotationMatrix;
       return *this;
     }
 
diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
index 9dd2dc7..510bcef 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
@@ -11,13 +11,16 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    Transformation<T, 3>::Transformation() {
+    Transformation<T, 3>::Transformation() :
+        mTransformationMatrix(Eigen::Matrix<double, 4, 4>::Identity()),
+        mRotationMatrix(Eigen::Matrix<double, 4, 4>::Identity()),
+        mTranslationMatrix(Eigen::Matrix<double, 4, 4>::Identity()) {
     }
 
     template <typename T>
     Transformation<T, 3>::Transformation(const Eigen::Matrix<double, 4, 4>&
-        transformationMatrix) :
-        mTransformationMatrix(transformationMatrix) {
+        transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -77,6 +80,11 @@ namespace aslam {
     void Transformation<T, 3>::setTransformationMatrix(const
         Eigen::Matrix<double, 4, 4>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix = transformationMatrix;
+      mRotationMatrix.template topRightCorner<3, 1>().setZero();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        transformationMatrix.template topRightCorner<3, 1>();
     }
 
     template <typename T>
@@ -141,10 +149,10 @@ namespace aslam {
     template <typename T>
     const Transformation<T, 3>& Transformation<T, 3>::inverse() {
       mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 3) = -mTranslationMatrix(0, 3);
-      mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
-      mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        -(mRotationMatrix.template topLeftCorner<3, 3>() *
+        mTranslationMatrix.template topRightCorner<3, 1>()).eval();
+      mTransformationMatrix = mTranslationMatrix * mRotationMatrix;
       return *this;
     }
 
-- 
2.43.0


From 94cf0065ef42f8000078ca472d8d02319aef40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 27/53] fix: convert times before the epoch correctly

---
 incremental_calibration/src/base/Timestamp.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration/src/base/Timestamp.cpp b/incremental_calibration/src/base/Timestamp.cpp
index 7dea3ba..59de3d8 100644
--- a/incremental_calibration/src/base/Timestamp.cpp
+++ b/incremental_calibration/src/base/Timestamp.cpp
@@ -7,6 +7,8 @@
 
 #include <sys/time.h>
 
+#include <cmath>
+
 namespace aslam {
   namespace calibration {
 
@@ -79,7 +81,7 @@ namespace aslam {
 
     std::string Timestamp::getDate(double seconds) {
       struct timeval time;
-      time.tv_sec = seconds;
+      time.tv_sec = floor(seconds);
       struct tm* ptm;
       ptm = localtime(&time.tv_sec);
       char timeString[40];
@@ -93,8 +95,13 @@ namespace aslam {
 
     Timestamp::operator timespec() const {
       timespec time;
-      time.tv_sec = (time_t)mSeconds;
-      time.tv_nsec = (mSeconds - (time_t)mSeconds) * 1e9;
+      const double seconds = floor(mSeconds);
+      time.tv_sec = (time_t)seconds;
+      time.tv_nsec = (mSeconds - seconds) * 1e9;
+      if (time.tv_nsec >= 1000000000) {
+        time.tv_sec++;
+        time.tv_nsec = 0;
+      }
       return time;
     }
 
-- 
2.43.0


From d6d8e487573e70a0b81a434e45ed5eacda22afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 28/53] fix: generate exactly the number of steps asked for

---
 .../src/2dlrf/utils.cpp                                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
index 3263ec7..dfeb684 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
@@ -15,11 +15,13 @@ namespace aslam {
     void genSineWavePath(std::vector<Eigen::Matrix<double, 3, 1> >& u,
         size_t steps, double amplitude, double frequency, double T) {
       u.clear();
+      if (steps == 0)
+        return;
       u.reserve(steps);
       u.push_back(Eigen::Matrix<double, 3, 1>::Zero());
       std::vector<double> cost;
-      for (double t = 0; t < steps * T; t += T)
-        cost.push_back(amplitude * cos(2 * M_PI * frequency * t));
+      for (size_t i = 0; i < steps; ++i)
+        cost.push_back(amplitude * cos(2 * M_PI * frequency * i * T));
       double theta = 0;
       for (size_t i = 1; i < cost.size(); ++i) {
         const double theta_new = atan(cost[i]);
-- 
2.43.0


From 02dcebe159882cabfe2bf78370696aa8a566c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 29/53] fix: error terms weigh their errors with the covariance
 last set

---
 .../src/2dlrf/ErrorTermMotion.cpp                              | 1 +
 .../src/2dlrf/ErrorTermObservation.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermSteering.cpp                      | 3 +++
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 7 files changed, 9 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 95c85c1..7e5ba1c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -89,6 +89,7 @@ namespace aslam {
 
     void ErrorTermMotion::setCovariance(const Covariance& Q) {
       _Q = Q;
+      setInvR(_Q.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
index ea43ecc..c568d53 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
@@ -90,6 +90,7 @@ namespace aslam {
 
     void ErrorTermObservation::setCovariance(const Covariance& R) {
       _R = R;
+      setInvR(_R.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
index 8b9daa0..c99cf3a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index 8d62520..e64acb6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -77,6 +77,9 @@ namespace aslam {
 
     void ErrorTermSteering::setVariance(double sigma2) {
       _sigma2 = sigma2;
+      Eigen::Matrix<double, 1, 1> sigma2_mat;
+      sigma2_mat << sigma2;
+      setInvR(sigma2_mat.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 388c11a..506d04f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
index 2dbbf9d..d628e11 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 34c6999..71019e0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From 717198a822e8f7006d4730b516d17603cdd88fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 30/53] fix: derivative of the steering error without forward
 velocity

---
 .../src/error-terms/ErrorTermSteering.cpp                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index e64acb6..2e8e7b6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -114,8 +114,9 @@ namespace aslam {
       jacobians.add(_params, J_a);
       Eigen::Matrix<double, 1, 3> J_v_v_mw =
         Eigen::Matrix<double, 1, 3>::Zero();
-      J_v_v_mw(0, 0) = -v1 / (v0 * v0 * (v1 * v1 / (v0 * v0) + 1));
-      J_v_v_mw(0, 1) = 1 / (v0 * (v1 * v1 / (v0 * v0) + 1));
+      const double norm2 = v0 * v0 + v1 * v1;
+      J_v_v_mw(0, 0) = -v1 / norm2;
+      J_v_v_mw(0, 1) = v0 / norm2;
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
     }
 
-- 
2.43.0


From e02c1bf44d1645388a509362ae16e4d694ac400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 31/53] fix: front wheel errors in reverse and at standstill

---
 .../src/error-terms/ErrorTermWheel.cpp            | 15 ++++++++-------
 .../src/error-terms/ErrorTermWheel.cpp            | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 506d04f..527bc05 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -97,8 +97,8 @@ namespace aslam {
       const double v2 = _v_v_mw.toValue()(2);
       const double k = _k.toScalar();
       if (_frontEnabled) {
-        const double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        error(0) = _measurement - k * (v0 / temp + v1 * v1 / (v0 * temp));
+        error(0) = _measurement -
+          k * std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         error(1) = 0.0;
         error(2) = -v2;
       }
@@ -120,12 +120,13 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
-        J_v_v_mw(0, 0) = k * v0 / temp1;
-        J_v_v_mw(0, 1) = k * v1 / temp1;
+        const double speed = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
+        if (speed != 0.0) {
+          J_v_v_mw(0, 0) = k * v0 / speed;
+          J_v_v_mw(0, 1) = k * v1 / speed;
+        }
         J_v_v_mw(1, 1) = 0.0;
-        const double temp2 = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        J_k(0, 0) = (v0 / temp2 + v1 * v1 / (v0 * temp2));
+        J_k(0, 0) = speed;
       }
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
       _k.evaluateJacobians(jacobians, -J_k);
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 71019e0..d9b1057 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -97,8 +97,8 @@ namespace aslam {
       const double v2 = _v_v_mw.toValue()(2);
       const double k = _k.toScalar();
       if (_frontEnabled) {
-        const double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        error(0) = _measurement - k * (v0 / temp + v1 * v1 / (v0 * temp));
+        error(0) = _measurement -
+          k * std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         error(1) = 0.0;
         error(2) = -v2;
       }
@@ -120,12 +120,13 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
-        J_v_v_mw(0, 0) = k * v0 / temp1;
-        J_v_v_mw(0, 1) = k * v1 / temp1;
+        const double speed = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
+        if (speed != 0.0) {
+          J_v_v_mw(0, 0) = k * v0 / speed;
+          J_v_v_mw(0, 1) = k * v1 / speed;
+        }
         J_v_v_mw(1, 1) = 0.0;
-        const double temp2 = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        J_k(0, 0) = (v0 / temp2 + v1 * v1 / (v0 * temp2));
+        J_k(0, 0) = speed;
       }
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
       _k.evaluateJacobians(jacobians, -J_k);
-- 
2.43.0


From ca4e80b6d71fb7caf91f104f755a0788bde89fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 32/53] fix: OdometryDesignVariables::getParameters()
 overwrites the last steering coefficient with the DMI time delay

---
 .../src/design-variables/OdometryDesignVariables.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
index 5cbf8ab..f49a26d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
@@ -145,7 +145,7 @@ namespace aslam {
       params(18) = t_r->getParameters()(0);
       params(19) = t_f->getParameters()(0);
       params(20) = t_s->getParameters()(0);
-      params(11) = t_dmi->getParameters()(0);
+      params(21) = t_dmi->getParameters()(0);
       return params;
     }
 
-- 
2.43.0


From 34d607efd17feb03b1782138a5804c6b4ae662bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 33/53] fix: Rear wheel speeds of the car weighed with the
 variances of the front wheels

---
 .../src/algo/CarCalibrator.cpp                            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index a320552..0f2443e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -890,12 +890,12 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rlw);
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rrw);
       }
@@ -948,11 +948,11 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto sr_l = e_rlw->evaluateError();
         auto error_l = e_rlw->error();
-- 
2.43.0


From 950fe8bf82a89aab401c208a03d83e771ce9fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 34/53] fix: Predicted front wheel speeds not a number without
 forward velocity

---
 .../src/algo/CarCalibrator.cpp                              | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 0f2443e..40d890a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -825,14 +825,12 @@ namespace aslam {
         double v0 = v_v_mw_l.toValue()(0);
         double v1 = v_v_mw_l.toValue()(1);
         double k = _odometryDesignVariables->k_fl->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedsMeasurement data;
-        data.left = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.left = k * std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         v0 = v_v_mw_r.toValue()(0);
         v1 = v_v_mw_r.toValue()(1);
         k = _odometryDesignVariables->k_fr->toScalar();
-        temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        data.right = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.right = k * std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         _frontWheelSpeedsMeasurementsPred.push_back(std::make_pair(
           timestampDelay.toScalar().getNumerator(), data));
         Eigen::Matrix<double, 6, 1> error;
-- 
2.43.0


From b4ea414f3e8da6f4b5a6d8bd72ac8e0e4bacd7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 35/53] fix: Predicted wheel speeds at odds with the wheels'
 error terms, and not a number at standstill

---
 .../src/algo/Calibrator.cpp                        | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 5869d1e..31be9a7 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -500,12 +500,9 @@ namespace aslam {
           _options.vyVariance, _options.vzVariance).asDiagonal(), false);
         auto sr_l = e_lw->evaluateError();
         auto error_l = e_lw->error();
-        double v0 = v_v_wl.toValue()(0);
-        double v1 = v_v_wl.toValue()(1);
-        double k = _odometryDesignVariables->k_l->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = _odometryDesignVariables->k_l->toScalar() *
+          v_v_wl.toValue()(0);
         _leftWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _leftWheelSpeedMeasurementsPredErrors.push_back(error_l);
@@ -600,12 +597,9 @@ namespace aslam {
           _options.vyVariance, _options.vzVariance).asDiagonal(), false);
         auto sr_r = e_rw->evaluateError();
         auto error_r = e_rw->error();
-        double v0 = v_v_wr.toValue()(0);
-        double v1 = v_v_wr.toValue()(1);
-        double k = _odometryDesignVariables->k_r->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = _odometryDesignVariables->k_r->toScalar() *
+          v_v_wr.toValue()(0);
         _rightWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _rightWheelSpeedMeasurementsPredErrors.push_back(error_r);
-- 
2.43.0


From 318157f3ed808ad1098a71134971f47353a7bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:17 +0000
Subject: [PATCH 36/53] fix: Options left out of the configuration of a
 calibrator take indeterminate values

---
 .../src/algo/CarCalibratorOptions.cpp                          | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
index 5799525..ffda2eb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
@@ -44,7 +44,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) {
+    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) :
+        CarCalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       usePose = config.getBool("usePose");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
index 4c945c5..d196bb2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
@@ -28,7 +28,8 @@ namespace aslam {
         referenceSensor(0) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
index a1782f9..ba8fdd2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
-- 
2.43.0


From 65d0b63954ba52bbea0f6e8225697525d750e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:17 +0000
Subject: [PATCH 37/53] fix: Calibrator of egomotion sensors throws away a
 measurement if the window has none of the reference sensor

---
 .../src/algo/Calibrator.cpp                                 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index a49d45a..ab44a1b 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -76,6 +76,9 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      if (!motionMeasurements_.count(options_.referenceSensor))
+        return;
+
       initSplines(options_.referenceSensor);
       for (const auto& measurements : motionMeasurements_)
         predictMotion(measurements.first);
@@ -98,6 +101,9 @@ namespace aslam {
     }
 
     void Calibrator::addMeasurements() {
+      if (!motionMeasurements_.count(options_.referenceSensor))
+        return;
+
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       initSplines(options_.referenceSensor);
       batch->addSpline(translationSpline_, 0);
-- 
2.43.0


From 8591dd08422d257cbca980238242a577fbdf0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:17 +0000
Subject: [PATCH 38/53] fix: Prediction without poses to fit a spline to reads
 past the end of the list of poses

---
 .../src/algo/CarCalibrator.cpp                                 | 3 +++
 .../src/algo/Calibrator.cpp                                    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 40d890a..384ae05 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -286,6 +286,9 @@ namespace aslam {
     }
 
     void CarCalibrator::predict() {
+      if (_poseMeasurements.size() < 2)
+        return;
+
       initSplines(_poseMeasurements);
       predictPoses(_poseMeasurements);
       predictVelocities(_velocitiesMeasurements);
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 31be9a7..25a2725 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -208,6 +208,9 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      if (_poseMeasurements.size() < 2)
+        return;
+
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       _odometryDesignVariables->addToBatch(batch, 1);
       initSplines(_poseMeasurements);
-- 
2.43.0


From d71ae53277a2e1a4fcd881217591bb4f302068e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 39/53] fix: Order of a simulated trajectory's spline left out
 of the configuration is indeterminate

---
 .../src/simulation/TrajectoryParams.cpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
index 72a75c6..c86a279 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         rotSplineOrder(4) {
     }
 
-    TrajectoryParams::TrajectoryParams(const PropertyTree& config) {
+    TrajectoryParams::TrajectoryParams(const PropertyTree& config) :
+        TrajectoryParams() {
       A = config.getDouble("A");
       f = config.getDouble("f");
       const EulerAnglesYawPitchRoll ypr;
-- 
2.43.0


From 81f223d64bf2606dce8054db20eaeb1738958414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 40/53] fix: Observations of the camera calibrator are in
 another order than their transformations

---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 1bc8c5d..a7e4807 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -467,7 +467,7 @@ namespace aslam {
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-        _estimatorObservations.insert(_estimatorObservations.begin(),
+        _estimatorObservations.insert(_estimatorObservations.end(),
           _batchObservations.begin(), _batchObservations.end());
       }
       if (_options.verbose) {
-- 
2.43.0


From 5983c584424e3d7d5aa162b0d26923aec0e3de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 41/53] fix: Camera calibrator hands a batch without images to
 the estimator

---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index a7e4807..fcc5a7b 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -463,7 +463,7 @@ namespace aslam {
     }
 
     void CameraCalibrator::processBatch() {
-      if (!_batch)
+      if (!_batch || _batchNumImages == 0)
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-- 
2.43.0


From 73abdc24445d8fada201bb4314788ebbc615b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:17 +0000
Subject: [PATCH 42/53] fix: Camera calibration written before a batch is
 accepted reads standard deviations that are not there

---
 .../src/camera/CameraCalibrator.cpp           | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index fcc5a7b..4fab224 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -514,17 +514,23 @@ namespace aslam {
       Eigen::VectorXd projectionStd = getProjectionStandardDeviation();
       auto distortion = getDistortion();
       Eigen::VectorXd distortionStd = getDistortionStandardDeviation();
+      // there is no standard deviation until a batch has been accepted
+      auto setStd = [&](const char* key, const Eigen::VectorXd& values,
+          std::ptrdiff_t i) {
+        if (i < values.size())
+          config.setDouble(key, values(i));
+      };
       if (_options.cameraProjectionType == "omni") {
         config.setDouble("projection/xi", projection(0));
-        config.setDouble("projection/sigma_xi", projectionStd(0));
+        setStd("projection/sigma_xi", projectionStd, 0);
         config.setDouble("projection/fu", projection(1));
-        config.setDouble("projection/sigma_fu", projectionStd(1));
+        setStd("projection/sigma_fu", projectionStd, 1);
         config.setDouble("projection/fv", projection(2));
-        config.setDouble("projection/sigma_fv", projectionStd(2));
+        setStd("projection/sigma_fv", projectionStd, 2);
         config.setDouble("projection/cu", projection(3));
-        config.setDouble("projection/sigma_cu", projectionStd(3));
+        setStd("projection/sigma_cu", projectionStd, 3);
         config.setDouble("projection/cv", projection(4));
-        config.setDouble("projection/sigma_cv", projectionStd(4));
+        setStd("projection/sigma_cv", projectionStd, 4);
         config.setInt("projection/ru",
           dynamic_cast<aslam::cameras::DistortedOmniCameraGeometry*>(
           _geometry.get())->projection().ru());
@@ -534,13 +540,13 @@ namespace aslam {
       }
       else {
         config.setDouble("projection/fu", projection(0));
-        config.setDouble("projection/sigma_fu", projectionStd(0));
+        setStd("projection/sigma_fu", projectionStd, 0);
         config.setDouble("projection/fv", projection(1));
-        config.setDouble("projection/sigma_fv", projectionStd(1));
+        setStd("projection/sigma_fv", projectionStd, 1);
         config.setDouble("projection/cu", projection(2));
-        config.setDouble("projection/sigma_cu", projectionStd(2));
+        setStd("projection/sigma_cu", projectionStd, 2);
         config.setDouble("projection/cv", projection(3));
-        config.setDouble("projection/sigma_cv", projectionStd(3));
+        setStd("projection/sigma_cv", projectionStd, 3);
         config.setInt("projection/ru",
           dynamic_cast<aslam::cameras::DistortedPinholeCameraGeometry*>
           (_geometry.get())->projection().ru());
@@ -550,13 +556,13 @@ namespace aslam {
       }
       config.setString("projection/type", _options.cameraProjectionType);
       config.setDouble("projection/distortion/k1", distortion(0));
-      config.setDouble("projection/distortion/sigma_k1", distortionStd(0));
+      setStd("projection/distortion/sigma_k1", distortionStd, 0);
       config.setDouble("projection/distortion/k2", distortion(1));
-      config.setDouble("projection/distortion/sigma_k2", distortionStd(1));
+      setStd("projection/distortion/sigma_k2", distortionStd, 1);
       config.setDouble("projection/distortion/p1", distortion(2));
-      config.setDouble("projection/distortion/sigma_p1", distortionStd(2));
+      setStd("projection/distortion/sigma_p1", distortionStd, 2);
       config.setDouble("projection/distortion/p2", distortion(3));
-      config.setDouble("projection/distortion/sigma_p2", distortionStd(3));
+      setStd("projection/distortion/sigma_p2", distortionStd, 3);
       config.setDouble("shutter/line-delay", 0.0);
       config.setString("mask/mask-file", "");
       Eigen::MatrixXd nobsBasis = getNobsBasis();
-- 
2.43.0


From c62fee1fd4b329ac690c92eac40f4f4f4091f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 43/53] fix: Average reprojection error of a partly seen target
 is divided by all its corners

---
 .../src/camera/CameraValidator.cpp                             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
index 1afa415..3732d24 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
@@ -206,7 +206,8 @@ namespace aslam {
       }
       std::stringstream stream;
       stream << "Reprojection error norm: avg = " << errorNormSum /
-        _calibrationTarget->size() << "   max = " << maxErrorNorm;
+        std::max<size_t>(reprojectionErrorsStatistics.getNumPoints(), 1)
+        << "   max = " << maxErrorNorm;
       cv::putText(imageCopy, stream.str(), cv::Point(10, imageCopy.rows - 40),
         cv::FONT_HERSHEY_COMPLEX, 0.5, cv::Scalar(255, 255, 255), 1, CV_AA);
       stream.str(std::string());
-- 
2.43.0


From 87029850d62587b14a88e1ca6bb91c2c12c776a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:22 +0000
Subject: [PATCH 44/53] fix: rotate the position covariance of the Applanix
 into the map frame

The RMS errors are those of the north, east and down coordinates, while the
position is expressed in an east-north-up frame: the north and east variances
were swapped.
---
 .../src/realworld/analyzer.cpp                        | 11 +++++++----
 .../src/realworld/calibrator.cpp                      | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 73f1a62..4932808 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -144,10 +144,13 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
-        lastVnp->downPositionRMSError).asDiagonal();
+      // the RMS errors are given in the NED frame of the position
+      const Eigen::Matrix3d m_R_l_ned = m_T_e.C() * e_T_l_ned.C();
+      pose.sigma2_m_r_mr = m_R_l_ned * Eigen::Vector3d(
+        lastVnp->northPositionRMSError * lastVnp->northPositionRMSError,
+        lastVnp->eastPositionRMSError * lastVnp->eastPositionRMSError,
+        lastVnp->downPositionRMSError *
+        lastVnp->downPositionRMSError).asDiagonal() * m_R_l_ned.transpose();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
         deg2rad(lastVnp->pitchRMSError), deg2rad(lastVnp->rollRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 1e4efd1..ed3be2c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -144,10 +144,13 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
-        lastVnp->downPositionRMSError).asDiagonal();
+      // the RMS errors are given in the NED frame of the position
+      const Eigen::Matrix3d m_R_l_ned = m_T_e.C() * e_T_l_ned.C();
+      pose.sigma2_m_r_mr = m_R_l_ned * Eigen::Vector3d(
+        lastVnp->northPositionRMSError * lastVnp->northPositionRMSError,
+        lastVnp->eastPositionRMSError * lastVnp->eastPositionRMSError,
+        lastVnp->downPositionRMSError *
+        lastVnp->downPositionRMSError).asDiagonal() * m_R_l_ned.transpose();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
         deg2rad(lastVnp->pitchRMSError), deg2rad(lastVnp->rollRMSError) *
-- 
2.43.0


From 7402bd8ca28af7f64f9fd9a77a30b25fd84f0f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:22 +0000
Subject: [PATCH 45/53] fix: rotate the velocity covariance of the Applanix
 into the vehicle frame

The velocity is rotated into the vehicle frame, the variances of its north,
east and down coordinates were not.
---
 .../src/realworld/analyzer.cpp                         | 10 ++++++----
 .../src/realworld/calibrator.cpp                       | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 4932808..b12a91a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -167,10 +167,12 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
-        lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
-        lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+      // the RMS errors are given in the NED frame
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(
+        lastVnp->northVelocityRMSError * lastVnp->northVelocityRMSError,
+        lastVnp->eastVelocityRMSError * lastVnp->eastVelocityRMSError,
+        lastVnp->downVelocityRMSError *
+        lastVnp->downVelocityRMSError).asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index ed3be2c..c236c47 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -167,10 +167,12 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
-        lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
-        lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+      // the RMS errors are given in the NED frame
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(
+        lastVnp->northVelocityRMSError * lastVnp->northVelocityRMSError,
+        lastVnp->eastVelocityRMSError * lastVnp->eastVelocityRMSError,
+        lastVnp->downVelocityRMSError *
+        lastVnp->downVelocityRMSError).asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
-- 
2.43.0


From 70836f5bbea663c8541f91b440fb9621a88d8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 46/53] fix: write the deviations of the estimated variables
 only

The six entries after k_dmi were labelled v_r_vr and v_R_r, which are not
estimated: they read past the end of the variances, or the time delays.
---
 .../src/realworld/calibrator.cpp              | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index c236c47..c99e121 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -250,24 +250,13 @@ int main(int argc, char** argv) {
   std::ofstream devFile("deviations.txt");
   devFile << std::fixed << std::setprecision(18);
   Eigen::VectorXd variances = calibrator.getOdometryVariablesVariance();
-  devFile << "e_r: " << std::sqrt(variances(0)) << std::endl;
-  devFile << "e_f: " << std::sqrt(variances(1)) << std::endl;
-  devFile << "L: " << std::sqrt(variances(2)) << std::endl;
-  devFile << "a0: " << std::sqrt(variances(3)) << std::endl;
-  devFile << "a1: " << std::sqrt(variances(4)) << std::endl;
-  devFile << "a2: " << std::sqrt(variances(5)) << std::endl;
-  devFile << "a3: " << std::sqrt(variances(6)) << std::endl;
-  devFile << "k_rl: " << std::sqrt(variances(7)) << std::endl;
-  devFile << "k_rr: " << std::sqrt(variances(8)) << std::endl;
-  devFile << "k_fl: " << std::sqrt(variances(9)) << std::endl;
-  devFile << "k_fr: " << std::sqrt(variances(10)) << std::endl;
-  devFile << "k_dmi: " << std::sqrt(variances(11)) << std::endl;
-  devFile << "v_r_vr_1: " << std::sqrt(variances(12)) << std::endl;
-  devFile << "v_r_vr_2: " << std::sqrt(variances(13)) << std::endl;
-  devFile << "v_r_vr_3: " << std::sqrt(variances(14)) << std::endl;
-  devFile << "v_R_r_1: " << std::sqrt(variances(15)) << std::endl;
-  devFile << "v_R_r_2: " << std::sqrt(variances(16)) << std::endl;
-  devFile << "v_R_r_3: " << std::sqrt(variances(17)) << std::endl;
+  // v_r_vr and v_R_r are not estimated, the time delays only if they are active
+  const std::vector<std::string> names = {"e_r", "e_f", "L", "a0", "a1", "a2",
+    "a3", "k_rl", "k_rr", "k_fl", "k_fr", "k_dmi", "t_r", "t_f", "t_s",
+    "t_dmi"};
+  for (size_t i = 0; i < names.size() &&
+      i < static_cast<size_t>(variances.size()); ++i)
+    devFile << names[i] << ": " << std::sqrt(variances(i)) << std::endl;
 
   std::ofstream m_T_v_estFile("m_T_v_est.txt");
   m_T_v_estFile << std::fixed << std::setprecision(18);
-- 
2.43.0


From 21a96050f5ab21a3610a574893521352d62b05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 47/53] fix: validator saves the result of an earlier image for
 an image without target

When the target is not found in an image, the last result image is the one of
an earlier image, or empty: it was saved under the timestamp of the image in
which nothing was found.
---
 .../src/camera/validateCamera.cpp                           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
index e751b4c..a53afca 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
@@ -72,7 +72,8 @@ int main(int argc, char** argv) {
     if (it->getTopic() == rosTopic) {
       sensor_msgs::ImagePtr image(it->instantiate<sensor_msgs::Image>());
       auto cvImage = cv_bridge::toCvCopy(image);
-      validator.addImage(cvImage->image, image->header.stamp.toNSec());
+      const bool targetFound = validator.addImage(cvImage->image,
+        image->header.stamp.toNSec());
       if (config.getBool("camera/validator/visualization")) {
         cv::Mat resultImage;
         validator.getLastImage(resultImage);
@@ -80,7 +81,8 @@ int main(int argc, char** argv) {
           cv::imshow("Image Results", resultImage);
           cv::waitKey(config.getInt("camera/imageTime"));
         }
-        if (config.getBool("camera/validator/saveImages")) {
+        // otherwise, the result image is the one of an earlier image, or empty
+        if (targetFound && config.getBool("camera/validator/saveImages")) {
           if (!boost::filesystem::exists("images"))
             boost::filesystem::create_directory("images");
           std::stringstream stream;
-- 
2.43.0


From 060e4af55715fedf947cd720b27d620102038ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 48/53] fix: motion error jumps by full turns where the heading
 is wrapped

---
 .../src/2dlrf/ErrorTermMotion.cpp                               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 7e5ba1c..ab53c84 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -104,6 +104,8 @@ namespace aslam {
       B(1, 1) = cos((_xkm1->getValue())(2));
       error_t error = _uk -
         (1 / _T * B * (_xk->getValue() - _xkm1->getValue()));
+      // headings are equal up to full turns
+      error(2) = sm::kinematics::angleMod(error(2) * _T) / _T;
       setError(error);
       return evaluateChiSquaredError();
     }
-- 
2.43.0


From 134259aee761db64bd5b05cc253ae25b29d036ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 49/53] fix: online laser simulation reports fewer batches than
 there were

---
 .../src/2dlrf/simulate-online-new.cpp                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
index 52a3d3f..c1df8f2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
@@ -303,7 +303,7 @@ int main(int argc, char** argv) {
   std::cout << "marginalized group: " << incrementalEstimator.getMargGroupId()
     << std::endl;
   std::cout << "number of batches: " << incrementalEstimator.getNumBatches()
-    << " out of " << round((double)steps / batchSize) << std::endl;
+    << " out of " << ceil((double)steps / batchSize) << std::endl;
 
   // fetch the problem
   auto problem = incrementalEstimator.getProblem();
-- 
2.43.0


From 82241669335df76f8e1d689738cf17eb2d189bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:24 +0000
Subject: [PATCH 50/53] fix: problems handed to Python stay usable when removed

getOptimizationProblem() handed out a bare pointer whose lifetime was tied to
the incremental problem, so that it dangled as soon as that problem let the
batch go (remove, clear, or a rejection by the estimator). It now hands out a
share in the batch.
---
 .../src/OptimizationProblem.cpp                 | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration_python/src/OptimizationProblem.cpp b/incremental_calibration_python/src/OptimizationProblem.cpp
index 447cfe6..b7cd00e 100644
--- a/incremental_calibration_python/src/OptimizationProblem.cpp
+++ b/incremental_calibration_python/src/OptimizationProblem.cpp
@@ -17,6 +17,16 @@
 
 #include <aslam/backend/DesignVariable.hpp>
 
+/// This function returns a share in the problem, which remains usable when it
+/// gets removed
+aslam::calibration::IncrementalOptimizationProblem::OptimizationProblemSP
+getOptimizationProblem(
+    const aslam::calibration::IncrementalOptimizationProblem& problem,
+    size_t idx) {
+  problem.getOptimizationProblem(idx);  // checks the index
+  return problem.getOptimizationProblems()[idx];
+}
+
 void exportOptimizationProblem() {
   using namespace boost::python;
   using aslam::calibration::OptimizationProblem;
@@ -42,10 +52,6 @@ void exportOptimizationProblem() {
   void (IncrementalOptimizationProblem::*remove1)(size_t idx) =
     &IncrementalOptimizationProblem::remove;
 
-  aslam::calibration::OptimizationProblem*
-    (IncrementalOptimizationProblem::*getOp)(size_t) =
-    &IncrementalOptimizationProblem::getOptimizationProblem;
-
   /// Python export for IncrementalOptimizationProblem class
   class_<aslam::calibration::IncrementalOptimizationProblem,
     boost::shared_ptr<aslam::calibration::IncrementalOptimizationProblem>,
@@ -57,8 +63,7 @@ void exportOptimizationProblem() {
     .def("clear", &IncrementalOptimizationProblem::clear)
     .def("getNumOptimizationProblems",
       &IncrementalOptimizationProblem::getNumOptimizationProblems)
-    .def("getOptimizationProblem",
-      getOp, boost::python::return_internal_reference<>())
+    .def("getOptimizationProblem", &getOptimizationProblem)
     ;
 
 }
-- 
2.43.0


From fc532a566bae71fd4265d9033657a7ebb2cad271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:44 +0000
Subject: [PATCH 51/53] fix: permute terminates when the index type cannot
 count past the last element

With an unsigned char permutation of 256 elements the loop counter, of the
index type, wraps and the loop never ends. Count in size_t instead.
---
 .../include/aslam/calibration/algorithms/permute.tpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index 803df29..9635e5a 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -33,10 +33,10 @@ namespace aslam {
             "vector", __FILE__, __LINE__, __PRETTY_FUNCTION__);
         seen[static_cast<size_t>(*it)] = true;
       }
-      for (I i = 0; i < container.size(); ++i) {
-        I k = permutation[i];
+      for (size_t i = 0; i < container.size(); ++i) {
+        size_t k = static_cast<size_t>(permutation[i]);
         while (k < i)
-          k = permutation[k];
+          k = static_cast<size_t>(permutation[k]);
         if (k > i)
           std::swap<T>(container[i], container[k]);
       }
-- 
2.43.0


From c5a3c91ff966c4a7054d05725129a0e10fd22b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:35 +0000
Subject: [PATCH 52/53] fix: sample from geometric distributions with a small
 probability of success

---
 .../include/aslam/calibration/statistics/Randomizer.tpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 02f27b6..c695601 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -193,7 +193,7 @@ namespace aslam {
         u = sampleUnit();
       }
       while (u == 0);
-      return floor(log(u) / log(1 - probability));
+      return floor(log(u) / log1p(-probability));
     }
 
     template <typename T, int M>
-- 
2.43.0


From 5710260f8a9dd963b9cff6077ce03435419ce6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:35 +0000
Subject: [PATCH 53/53] fix: initialise the thresholds of the visual data
 association

---
 .../src/vision/VisionDataAssociation.cpp                      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp b/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
index 33f028b..19194b8 100644
--- a/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
+++ b/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
@@ -8,7 +8,9 @@ namespace aslam {
 
         VisionDataAssociation::VisionDataAssociation(const sm::PropertyTree & config) :
             _tracking( sm::PropertyTree( config, "descriptorTracking" ) ),
-            _ofovMatching( sm::PropertyTree( config, "ofovMatching" ) )
+            _ofovMatching( sm::PropertyTree( config, "ofovMatching" ) ),
+            _disparityKeyframeThreshold( config.getDouble( "disparityKeyframeThreshold", 0.0 ) ),
+            _numTracksThreshold( config.getInt( "numTracksThreshold", 0 ) )
         {
             std::string pname = config.getString("pipelineName");
             SM_INFO_STREAM("Using the pipeline named " << pname);
-- 
2.43.0

