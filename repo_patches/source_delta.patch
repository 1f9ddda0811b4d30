From a0f8795004fbd32fedc552872722fccbb8a816be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:29 +0000
Subject: [PATCH 01/19] fix: copy the number of NOMINAL_NEQ conditions when
 copying a ConditionList

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From a03d5048fbefdf5ee4c55a36c42f47b6f4ec32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:31 +0000
Subject: [PATCH 02/19] fix: do not count examples with missing feature values
 as covered by inverse conditions

---
 .../common/input/feature_based_search.hpp     | 46 +++++++++++++++----
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
index bc8ea93..8b7442f 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
@@ -45,6 +45,22 @@ static inline std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubse
     return statisticsSubsetPtr;
 }
 
+static inline uint32 getNumNonMissingExamples(const IResettableStatisticsSubset& statisticsSubset,
+                                              const MissingFeatureVector& missingFeatureVector,
+                                              uint32 numExamplesWithNonZeroWeights) {
+    // Examples with missing feature values do not satisfy any condition. Consequently, they must not be taken into
+    // account when determining the number of examples covered by a condition...
+    uint32 numExamples = numExamplesWithNonZeroWeights;
+
+    for (auto it = missingFeatureVector.indices_cbegin(); it != missingFeatureVector.indices_cend(); it++) {
+        if (statisticsSubset.hasNonZeroWeight(*it)) {
+            numExamples--;
+        }
+    }
+
+    return numExamples;
+}
+
 /**
  * Conducts a search for the best refinement of an existing rule that can be created from a `NumericalFeatureVector`.
  *
@@ -76,8 +92,10 @@ static inline void searchForNumericalRefinement(const NumericalFeatureVector& fe
                                                 uint32 minCoverage, Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator,
-                                           numExamplesWithNonZeroWeights, minCoverage, refinement);
+    uint32 numExamples =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                           refinement);
 }
 
 /**
@@ -111,8 +129,10 @@ static inline void searchForNominalRefinement(const NominalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numExamples =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -145,8 +165,10 @@ static inline void searchForBinaryRefinement(const BinaryFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numExamples =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                        refinement);
 }
 
 /**
@@ -180,8 +202,10 @@ static inline void searchForOrdinalRefinement(const OrdinalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numExamples =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -215,6 +239,8 @@ static inline void searchForBinnedRefinement(const BinnedFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numExamples =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                        refinement);
 }
-- 
2.43.0


From 3814d0828404e87daf254ded92acebc08d686d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 03/19] fix: do not write a threshold for the last equal-width
 bin beyond the end of the allocated memory

---
 .../src/mlrl/common/input/feature_binning_equal_width.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
index d02a231..2a035e2 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
@@ -78,7 +78,10 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
             uint32 numExamplesInCurrentBin = numExamplesPerBin[i];
 
             if (i == sparseBinIndex || numExamplesInCurrentBin > 0) {
-                thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                if (numBins + 1 < numWidths) {
+                    thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                }
+
                 indptrIterator[numBins] = numIndices;
 
                 if (i != sparseBinIndex) {
-- 
2.43.0


From fa783b1eeda4382443277dafa5a2bcc5237c7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 04/19] fix: do not use an invalid threshold if there are no
 bins beyond the sparse one

---
 .../input/feature_based_search_binned.hpp     | 72 ++++++++++---------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
index 27118ba..36dc50c 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
@@ -124,41 +124,45 @@ static inline void searchForBinnedRefinementInternally(const BinnedFeatureVector
         }
     }
 
-    // Check if a condition that covers all bins with indices `i > sparseBinIndex` covers at least `minCoverage`
-    // examples...
-    if (numCovered >= minCoverage) {
-        // Determine the best prediction for examples covered by the condition...
-        const IScoreVector& scoreVector = statisticsSubset.calculateScores();
-
-        // Check if the quality of the prediction is better than the quality of the current rule...
-        if (comparator.isImprovement(scoreVector)) {
-            refinement.start = sparseBinIndex + 1;
-            refinement.end = numBins;
-            refinement.numCovered = numCovered;
-            refinement.inverse = false;
-            refinement.comparator = NUMERICAL_GR;
-            refinement.threshold = thresholdIterator[sparseBinIndex];
-            comparator.pushRefinement(refinement, scoreVector);
+    // If there are bins with indices `i > sparseBinIndex`, we must evaluate conditions that separate the examples
+    // corresponding to these bins from the remaining ones...
+    if (sparseBinIndex + 1 < static_cast<int64>(numBins)) {
+        // Check if a condition that covers all bins with indices `i > sparseBinIndex` covers at least `minCoverage`
+        // examples...
+        if (numCovered >= minCoverage) {
+            // Determine the best prediction for examples covered by the condition...
+            const IScoreVector& scoreVector = statisticsSubset.calculateScores();
+
+            // Check if the quality of the prediction is better than the quality of the current rule...
+            if (comparator.isImprovement(scoreVector)) {
+                refinement.start = sparseBinIndex + 1;
+                refinement.end = numBins;
+                refinement.numCovered = numCovered;
+                refinement.inverse = false;
+                refinement.comparator = NUMERICAL_GR;
+                refinement.threshold = thresholdIterator[sparseBinIndex];
+                comparator.pushRefinement(refinement, scoreVector);
+            }
         }
-    }
 
-    // Check if a condition that covers all bins with indices `i <= sparseBinIndex` covers at least `minCoverage`
-    // examples...
-    uint32 numUncovered = numExamplesWithNonZeroWeights - numCovered;
-
-    if (numUncovered >= minCoverage) {
-        // Determine the best prediction for examples covered by the condition...
-        const IScoreVector& scoreVector = statisticsSubset.calculateScores();
-
-        // Check if the quality of the prediction is better than the quality of the current rule...
-        if (comparator.isImprovement(scoreVector)) {
-            refinement.start = sparseBinIndex + 1;
-            refinement.end = numBins;
-            refinement.numCovered = numUncovered;
-            refinement.inverse = true;
-            refinement.comparator = NUMERICAL_LEQ;
-            refinement.threshold = thresholdIterator[sparseBinIndex];
-            comparator.pushRefinement(refinement, scoreVector);
+        // Check if a condition that covers all bins with indices `i <= sparseBinIndex` covers at least `minCoverage`
+        // examples...
+        uint32 numUncovered = numExamplesWithNonZeroWeights - numCovered;
+
+        if (numUncovered >= minCoverage) {
+            // Determine the best prediction for examples covered by the condition...
+            const IScoreVector& scoreVector = statisticsSubset.calculateScores();
+
+            // Check if the quality of the prediction is better than the quality of the current rule...
+            if (comparator.isImprovement(scoreVector)) {
+                refinement.start = sparseBinIndex + 1;
+                refinement.end = numBins;
+                refinement.numCovered = numUncovered;
+                refinement.inverse = true;
+                refinement.comparator = NUMERICAL_LEQ;
+                refinement.threshold = thresholdIterator[sparseBinIndex];
+                comparator.pushRefinement(refinement, scoreVector);
+            }
         }
     }
 
@@ -185,7 +189,7 @@ static inline void searchForBinnedRefinementInternally(const BinnedFeatureVector
 
         // Check if a condition that covers all bins with indices `i >= sparseBinIndex` covers at least `minCoverage`
         // examples...
-        numUncovered = numExamplesWithNonZeroWeights - numCoveredLessThanSparseBinIndex;
+        uint32 numUncovered = numExamplesWithNonZeroWeights - numCoveredLessThanSparseBinIndex;
 
         if (numUncovered >= minCoverage) {
             // Determine the best prediction for the examples covered by the condition...
-- 
2.43.0


From 34241e433aa1822ff5c19d316cca9a8cd3b009fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:27 +0000
Subject: [PATCH 05/19] fix: allocate memory for the additional equal-frequency
 bin examples with sparse values might belong to

---
 .../src/mlrl/common/input/feature_binning_equal_frequency.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
index ec1c5fc..6876813 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
@@ -12,7 +12,8 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
 
     if (numBins > 1) {
         uint32 numElements = numericalFeatureVector.numElements;
-        AllocatedBinnedFeatureVector binnedFeatureVector(numBins, numElements);
+        // An additional bin might be needed for examples with sparse feature values...
+        AllocatedBinnedFeatureVector binnedFeatureVector(numBins + 1, numElements);
         AllocatedBinnedFeatureVector::threshold_iterator thresholdIterator = binnedFeatureVector.thresholds_begin();
         AllocatedBinnedFeatureVector::index_iterator indexIterator = binnedFeatureVector.indices;
         AllocatedBinnedFeatureVector::index_iterator indptrIterator = binnedFeatureVector.indptr;
-- 
2.43.0


From d30e1c041e766b9609f3d28be3e9bfc523173f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:44 +0000
Subject: [PATCH 06/19] fix: sample a valid number of features if less than two
 features remain

---
 .../common/sampling/feature_sampling_without_replacement.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..52f80bf 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -152,7 +152,8 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
     } else {
-        numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+        numSamples = numRemainingFeatures > 1 ? static_cast<uint32>(log2(numRemainingFeatures - 1) + 1)
+                                              : numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From 0b1bec265281403dd919f0660c41fd534ff7953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:44 +0000
Subject: [PATCH 07/19] fix: take only the non-zero elements of a sparse binary
 row or column into account when accessing it

---
 .../include/mlrl/common/data/view_matrix_csc_binary.hpp       | 4 ++--
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
index 505d297..59194f7 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCscView : public BinarySparseMatrix {
          * @return          An object of type `const_column` that has been created
          */
         const_column operator[](uint32 column) const {
-            return Vector<const uint32>(indices_cbegin(column), Matrix::numRows);
+            return Vector<const uint32>(indices_cbegin(column), indices_cend(column) - indices_cbegin(column));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCscView : public BinarySparseMatrix {
          * @return          An object of type `column` that has been created
          */
         column operator[](uint32 column) {
-            return Vector<uint32>(indices_begin(column), Matrix::numRows);
+            return Vector<uint32>(indices_begin(column), indices_end(column) - indices_begin(column));
         }
 
         /**
diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..f17f087 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            return Vector<const uint32>(indices_cbegin(row), indices_cend(row) - indices_cbegin(row));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            return Vector<uint32>(indices_begin(row), indices_end(row) - indices_begin(row));
         }
 
         /**
-- 
2.43.0


From 830394c70dafe51e0797d31a836c3c329d53b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:01 +0000
Subject: [PATCH 08/19] fix: do not cover examples with missing feature values
 when predicting, as it is the case during training

---
 .../src/mlrl/common/model/body_conjunctive.cpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
index 441136a..5480632 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/model/body_conjunctive.hpp"
 
+#include <cmath>
+
 template<typename Threshold, typename Compare>
 ConjunctiveBody::ConditionVector<Threshold, Compare>::ConditionVector(uint32 numConditions)
     : IterableIndexedVectorDecorator<IndexedVectorDecorator<AllocatedVector<uint32>, AllocatedVector<Threshold>>>(
@@ -16,9 +18,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<const flo
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) begin[featureIndex];
+        float32 featureValue = begin[featureIndex];
 
-        if (!compare_(featureValue, threshold)) {
+        // Examples with missing feature values do not satisfy a condition, which is in accordance with the training...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
@@ -40,9 +43,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<uint32>::
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) (tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue);
+        float32 featureValue = tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue;
 
-        if (!compare_(featureValue, threshold)) {
+        // Examples with missing feature values do not satisfy a condition, which is in accordance with the training...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
-- 
2.43.0


From 5e497873808341b9b183da2475c460f6b2e45919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:11 +0000
Subject: [PATCH 09/19] fix: allocate a confusion matrix for each label, rather
 than for each example, when creating a subset of the statistics

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 84f0aefa366f5d9c0e78b2934cf06b7861eb4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 10/19] fix: use the index of the first thread if
 multi-threading support is disabled

---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From bcb8037e74c4531d7a505d4faefb9392cf73377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 11/19] fix: count the uncovered examples for which the
 majority label is correct when calculating the accuracy

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0


From 0290232af6b0681c1df515fc8dfbfcc35de4b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 12/19] fix: let the peak lift function decrease from its
 maximum to one after the peak and calculate its upper bounds accordingly

---
 .../src/mlrl/seco/lift_functions/lift_function_peak.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
index d1daa49..2ed71db 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
@@ -18,7 +18,7 @@ namespace seco {
                 normalization = ((float64) numLabels - 1) / ((float64) peakLabel - 1);
             } else {
                 normalization =
-                  ((float64) numLabels - (float64) totalLabels) / ((float64) totalLabels - (float64) peakLabel);
+                  ((float64) totalLabels - (float64) numLabels) / ((float64) totalLabels - (float64) peakLabel);
             }
 
             return 1 + pow(normalization, exponent) * (maxLift - 1);
@@ -100,10 +100,10 @@ namespace seco {
              */
             PeakLiftFunctionFactory(uint32 numLabels, uint32 peakLabel, float64 maxLift, float64 curvature)
                 : numLabels_(numLabels), peakLabel_(peakLabel), maxLift_(maxLift), curvature_(curvature),
-                  maxLiftsAfterPeak_(numLabels - peakLabel) {
-                for (uint32 i = 0; i < numLabels - peakLabel; i++) {
+                  maxLiftsAfterPeak_(numLabels - peakLabel + 1) {
+                for (uint32 i = 0; i < numLabels - peakLabel + 1; i++) {
                     maxLiftsAfterPeak_[i] =
-                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, curvature);
+                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, 1.0 / curvature);
                 }
             }
 
-- 
2.43.0


From e1e2dbe23c90685755f47c3a9b5fb49434e900d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 13/19] fix: Return correct end iterator for the Hessians on
 the diagonal of a non-decomposable statistic vector

---
 .../boosting/data/vector_statistic_non_decomposable_dense.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/data/vector_statistic_non_decomposable_dense.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/data/vector_statistic_non_decomposable_dense.cpp
index f3c9ce6..cd268df 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/data/vector_statistic_non_decomposable_dense.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/data/vector_statistic_non_decomposable_dense.cpp
@@ -60,7 +60,7 @@ namespace boosting {
 
     DenseNonDecomposableStatisticVector::hessian_diagonal_const_iterator
       DenseNonDecomposableStatisticVector::hessians_diagonal_cend() const {
-        return hessian_diagonal_const_iterator(View<const float64>(this->hessians_cbegin()), this->getNumHessians());
+        return hessian_diagonal_const_iterator(View<const float64>(this->hessians_cbegin()), this->getNumGradients());
     }
 
     uint32 DenseNonDecomposableStatisticVector::getNumGradients() const {
-- 
2.43.0


From 7e8abee8513032fdf8f7379e6f5084f7fb90b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:19 +0000
Subject: [PATCH 14/19] fix: Consider predicted scores in the order of their
 indices when updating or evaluating sparse statistics

---
 .../loss_decomposable_sparse_common.hpp       | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
index 5a5ad75..e7bdc75 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
@@ -9,11 +9,31 @@
 
 #include <algorithm>
 #include <limits>
+#include <vector>
 
 namespace boosting {
 
     static inline constexpr uint32 LIMIT = std::numeric_limits<uint32>::max();
 
+    /**
+     * Ensures that predicted scores, which might have been added to a `SparseSetView` in arbitrary order, are iterated
+     * in increasing order of their indices.
+     *
+     * @param scoresBegin   A reference to an iterator to the beginning of the predicted scores
+     * @param scoresEnd     A reference to an iterator to the end of the predicted scores
+     * @param sortedScores  A reference to a vector, the predicted scores should be copied to if they are not sorted
+     */
+    static inline void ensureSorted(SparseSetView<float64>::value_const_iterator& scoresBegin,
+                                    SparseSetView<float64>::value_const_iterator& scoresEnd,
+                                    std::vector<IndexedValue<float64>>& sortedScores) {
+        if (!std::is_sorted(scoresBegin, scoresEnd, IndexedValue<float64>::CompareIndex())) {
+            sortedScores.assign(scoresBegin, scoresEnd);
+            std::sort(sortedScores.begin(), sortedScores.end(), IndexedValue<float64>::CompareIndex());
+            scoresBegin = sortedScores.cbegin();
+            scoresEnd = sortedScores.cend();
+        }
+    }
+
     template<typename IndexIterator>
     static inline uint32 fetchNextStatistic(IndexIterator& indexIterator, IndexIterator indicesEnd,
                                             SparseSetView<float64>::value_const_iterator& scoreIterator,
@@ -61,6 +81,8 @@ namespace boosting {
       IndexIterator indicesBegin, IndexIterator indicesEnd, SparseSetView<float64>::value_const_iterator scoresBegin,
       SparseSetView<float64>::value_const_iterator scoresEnd, SparseSetView<Tuple<float64>>::row row,
       DecomposableClassificationLoss::UpdateFunction updateFunction) {
+        std::vector<IndexedValue<float64>> sortedScores;
+        ensureSorted(scoresBegin, scoresEnd, sortedScores);
         row.clear();
         Tuple<float64> tuple;
         uint32 index;
@@ -121,6 +143,8 @@ namespace boosting {
                                              SparseSetView<float64>::value_const_iterator scoresEnd,
                                              DecomposableClassificationLoss::EvaluateFunction evaluateFunction,
                                              uint32 numLabels) {
+        std::vector<IndexedValue<float64>> sortedScores;
+        ensureSorted(scoresBegin, scoresEnd, sortedScores);
         float64 mean = 0;
         float64 score = 0;
         uint32 i = 0;
-- 
2.43.0


From 71f315bf0186aa5384996b905e8dc3ecf0412176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 15/19] fix: Correctly take L1 regularization into account when
 calculating the optimal scores for individual outputs

---
 .../rule_evaluation/rule_evaluation_decomposable_common.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
index 8c93f25..887c619 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
@@ -37,7 +37,11 @@ namespace boosting {
     static inline constexpr float64 calculateOutputWiseScore(float64 gradient, float64 hessian,
                                                              float64 l1RegularizationWeight,
                                                              float64 l2RegularizationWeight) {
-        return util::divideOrZero(-gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight),
+        if (gradient >= -l1RegularizationWeight && gradient <= l1RegularizationWeight) {
+            return 0;
+        }
+
+        return util::divideOrZero(-gradient - getL1RegularizationWeight(gradient, l1RegularizationWeight),
                                   hessian + l2RegularizationWeight);
     }
 
-- 
2.43.0


From d07dd886d0f1ecf070aa2e1a44d3486c940b20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 16/19] fix: Allocate enough memory for the negative and
 positive bins that are used by equal-width label binning

---
 .../src/mlrl/boosting/binning/label_binning_equal_width.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
index c3e29f4..4b365f5 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
@@ -38,7 +38,7 @@ namespace boosting {
                 : binRatio_(binRatio), minBins_(minBins), maxBins_(maxBins) {}
 
             uint32 getMaxBins(uint32 numLabels) const override {
-                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) + 1;
+                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) * 2;
             }
 
             LabelInfo getLabelInfo(View<float64>::const_iterator criteria, uint32 numCriteria) const override {
-- 
2.43.0


From 2e3776ee97a4e75287bd37507c6ad16d609b578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 17/19] fix: Initialize the option that specifies whether
 unused rules should be removed by pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..e03e6ac 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,8 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent), minImprovement_(minImprovement) {}
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From 8ea67d63c8913fa095c2e3822fe40227ee85c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 18/19] fix: Initialize the number of rules that are used by
 pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index e03e6ac..728020b 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -74,7 +74,8 @@ class PrePruning final : public IStoppingCriterion {
             : partition_(partition), aggregationFunctionPtr_(std::move(aggregationFunctionPtr)),
               useHoldoutSet_(useHoldoutSet), removeUnusedRules_(removeUnusedRules), updateInterval_(updateInterval),
               stopInterval_(stopInterval), minImprovement_(minImprovement), pastBuffer_(numPast),
-              recentBuffer_(numCurrent), bestScore_(std::numeric_limits<float64>::infinity()), stopped_(false) {
+              recentBuffer_(numCurrent), bestScore_(std::numeric_limits<float64>::infinity()), bestNumRules_(0),
+                  stopped_(false) {
             uint32 bufferInterval = (numPast * updateInterval) + (numCurrent * updateInterval);
             offset_ = bufferInterval < minRules ? minRules - bufferInterval : 0;
         }
-- 
2.43.0


From 61620232a0a8606f37be1ed6e4662eb7ed5f81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 19/19] fix: Stop the induction of rules by pre-pruning if the
 quality of a model can not be improved any further

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 728020b..9fa4bdc 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -2,6 +2,7 @@
 
 #include "aggregation_function_common.hpp"
 #include "global_pruning_common.hpp"
+#include "mlrl/common/util/math.hpp"
 #include "mlrl/common/util/validation.hpp"
 
 /**
@@ -98,7 +99,7 @@ class PrePruning final : public IStoppingCriterion {
                         float64 aggregatedScoreRecent =
                           aggregationFunctionPtr_->aggregate(recentBuffer_.cbegin(), recentBuffer_.cend());
                         float64 percentageImprovement =
-                          (aggregatedScorePast - aggregatedScoreRecent) / aggregatedScoreRecent;
+                          util::divideOrZero(aggregatedScorePast - aggregatedScoreRecent, aggregatedScoreRecent);
 
                         if (percentageImprovement < minImprovement_) {
                             result.stop = removeUnusedRules_;
-- 
2.43.0

