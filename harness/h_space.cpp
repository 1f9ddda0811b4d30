// The feature space: construction of feature vectors from training data, search for refinements and filtering.
#include "mock_statistics.hpp"
#include "mlrl/common/input/feature_binning_equal_frequency.hpp"
#include "mlrl/common/input/feature_binning_equal_width.hpp"
#include "mlrl/common/input/feature_binning_no.hpp"
#include "mlrl/common/input/feature_info_mixed.hpp"
#include "mlrl/common/input/feature_matrix_csc.hpp"
#include "mlrl/common/input/feature_matrix_fortran_contiguous.hpp"
#include "mlrl/common/input/output_matrix.hpp"
#include "mlrl/common/model/condition_list.hpp"
#include "mlrl/common/model/head_complete.hpp"
#include "mlrl/common/model/head_partial.hpp"
#include "mlrl/common/multi_threading/multi_threading.hpp"
#include "mlrl/common/rule_refinement/coverage_mask.hpp"
#include "mlrl/common/rule_refinement/feature_space_tabular.hpp"
#include "mlrl/common/rule_refinement/feature_subspace.hpp"
#include "mlrl/common/rule_refinement/refinement_comparator_fixed.hpp"
#include "mlrl/common/rule_refinement/refinement_comparator_single.hpp"
#include "mlrl/common/rule_refinement/rule_refinement_statistics_based.hpp"

#include <cmath>
#include <limits>

enum Type : uint32 { NUMERICAL = 0, ORDINAL = 1, NOMINAL = 2, EQUAL_WIDTH = 3, EQUAL_FREQUENCY = 4 };

static const uint32 MAXF = 2;
static uint32 N, F;
static uint32 TYPE[MAXF];
static bool SPARSE;
static float32 SV;
static float32 X[MAXF][MAXN];
static bool MISSING[MAXF][MAXN];
static bool STORED[MAXF][MAXN];
static uint32 W[MAXN];

class NoThreads final : public IMultiThreadingConfig {
    public:
        MultiThreadingSettings getSettings(const IFeatureMatrix&, uint32) const override { return MultiThreadingSettings(1); }
};

// Whether a condition is satisfied by an example, according to the semantics that are used at prediction time
static bool satisfies(const Condition& c, uint32 i) {
    float32 v = X[c.featureIndex][i];
    switch (c.comparator) {
        case NUMERICAL_LEQ: return v <= std::get<float32>(c.threshold);
        case NUMERICAL_GR: return v > std::get<float32>(c.threshold);
        case ORDINAL_LEQ: return v <= std::get<int32>(c.threshold);
        case ORDINAL_GR: return v > std::get<int32>(c.threshold);
        case NOMINAL_EQ: return v == std::get<int32>(c.threshold);
        default: return v != std::get<int32>(c.threshold);
    }
}

static bool picked;
static double pickQuality(uint32) {
    if (picked) return 0;
    if (sx_choice("pick", 2)) {
        picked = true;
        return 1;
    }
    return 0;
}

static uint32 popcount(uint32 m) {
    uint32 n = 0;
    for (; m; m &= m - 1) n++;
    return n;
}

static void makeInputs(uint32 missing, uint32 weights) {
    SV = 0;
    for (uint32 f = 0; f < F; f++) {
        for (uint32 i = 0; i < N; i++) {
            STORED[f][i] = !SPARSE || sx_choice("stored", 2);
            MISSING[f][i] = false;
            if (!STORED[f][i]) {
                X[f][i] = SV;
                continue;
            }
            if ((missing == 1 || (missing == 2 && f == F - 1)) && sx_choice("missing", 2)) {
                MISSING[f][i] = true;
                X[f][i] = std::numeric_limits<float32>::quiet_NaN();
            } else if (TYPE[f] == ORDINAL || TYPE[f] == NOMINAL) {
                static const float32 vals[5] = {0, 1, -1, 2, -2};
                X[f][i] = SPARSE ? vals[1 + sx_choice("v", 3)] : vals[sx_choice("v", sx_param("values", 4))];
            } else {
                X[f][i] = sx_f32("x", -4, 4);
                if (SPARSE) sx_assume((X[f][i] >= 0.0625f) | (X[f][i] <= -0.0625f));
            }
            // values are either equal or clearly different
            if (!MISSING[f][i] && TYPE[f] != ORDINAL && TYPE[f] != NOMINAL)
                for (uint32 j = 0; j < i; j++)
                    if (!MISSING[f][j] && STORED[f][j]) {
                        float32 d = X[f][i] - X[f][j];
                        sx_assume((d == 0) | (d >= 0.0625f) | (d <= -0.0625f));
                    }
        }
    }
    if (sx_param("zero", 0)) {
        // zero lies between the smallest and the largest value
        for (uint32 f = 0; f < F; f++) {
            X[f][0] = sx_f32("min", -4, 0);
            X[f][N - 1] = sx_f32("max", 0, 4);
            sx_assume(X[f][N - 1] - X[f][0] >= 0.0625f);
            for (uint32 i = 1; i + 1 < N; i++) sx_assume((X[f][i] >= X[f][0]) & (X[f][i] <= X[f][N - 1]));
        }
    }
    for (uint32 i = 0; i < N; i++) W[i] = weights == 0 ? 1 : weights == 1 ? sx_choice("w", 2) : 2 * sx_choice("w", 2);
}

struct Space {
        float32 values[MAXF * MAXN];
        uint32 indices[MAXF * MAXN];
        uint32 indptr[MAXF + 1];
        std::unique_ptr<IColumnWiseFeatureMatrix> matrixPtr;
        std::unique_ptr<IMixedFeatureInfo> infoPtr;
        std::unique_ptr<MockStatisticsProvider> providerPtr;
        std::unique_ptr<IFeatureSpaceFactory> factoryPtr;
        std::unique_ptr<IFeatureSpace> spacePtr;
        EqualWeightVector equal;
        BitWeightVector bit;
        DenseWeightVector<uint32> dense;

        Space() : equal(N), bit(N, true), dense(N, true) {
            if (SPARSE) {
                uint32 n = 0;
                for (uint32 f = 0; f < F; f++) {
                    indptr[f] = n;
                    for (uint32 i = 0; i < N; i++)
                        if (STORED[f][i]) {
                            indices[n] = i;
                            values[n++] = X[f][i];
                        }
                }
                indptr[F] = n;
                matrixPtr = createCscFeatureMatrix(values, indices, indptr, N, F, SV);
            } else {
                for (uint32 f = 0; f < F; f++)
                    for (uint32 i = 0; i < N; i++) values[f * N + i] = X[f][i];
                matrixPtr = createFortranContiguousFeatureMatrix(values, N, F);
            }
            infoPtr = createMixedFeatureInfo(F);
            std::unique_ptr<IFeatureBinningFactory> binningFactoryPtr;
            struct Out : public IOutputMatrix {
                    bool isSparse() const override { return false; }
                    uint32 getNumExamples() const override { return N; }
                    uint32 getNumOutputs() const override { return 1; }
            } out;
            binningFactoryPtr = NoFeatureBinningConfig().createFeatureBinningFactory(*matrixPtr, out);
            for (uint32 f = 0; f < F; f++) {
                if (TYPE[f] == ORDINAL) infoPtr->setOrdinal(f);
                else if (TYPE[f] == NOMINAL) infoPtr->setNominal(f);
                else infoPtr->setNumerical(f);
                if (TYPE[f] == EQUAL_WIDTH) {
                    EqualWidthFeatureBinningConfig c;
                    c.setMinBins(sx_param("bins", 2)).setMaxBins(sx_param("bins", 2));
                    binningFactoryPtr = c.createFeatureBinningFactory(*matrixPtr, out);
                } else if (TYPE[f] == EQUAL_FREQUENCY) {
                    EqualFrequencyFeatureBinningConfig c;
                    c.setMinBins(sx_param("bins", 2)).setMaxBins(sx_param("bins", 2));
                    binningFactoryPtr = c.createFeatureBinningFactory(*matrixPtr, out);
                }
            }
            providerPtr = std::make_unique<MockStatisticsProvider>(N, 1);
            factoryPtr = std::make_unique<TabularFeatureSpaceFactory>(std::move(binningFactoryPtr), MultiThreadingSettings(1));
            spacePtr = factoryPtr->create(*matrixPtr, *infoPtr, *providerPtr);
        }

        std::unique_ptr<IFeatureSubspace> subspace(uint32 weights) {
            uint32 nz = 0;
            for (uint32 i = 0; i < N; i++) {
                bit.set(i, W[i] != 0);
                dense[i] = W[i];
                if (W[i]) nz++;
            }
            bit.setNumNonZeroWeights(nz);
            dense.setNumNonZeroWeights(nz);
            if (weights == 0) return equal.createFeatureSubspace(*spacePtr);
            if (weights == 1) return bit.createFeatureSubspace(*spacePtr);
            return dense.createFeatureSubspace(*spacePtr);
        }
};

// The reference: which examples are covered
static bool COV[MAXN];
static bool USED[MAXF];

static uint32 availableMask(uint32 f) {
    uint32 m = 0;
    for (uint32 i = 0; i < N; i++)
        if (COV[i] && W[i] && !MISSING[f][i]) m |= 1u << i;
    return m;
}

// The smallest non-negative value that is stored for a covered example
static bool smallestNonNegative(uint32 f, float32& v) {
    bool found = false;
    for (uint32 i = 0; i < N; i++)
        if (COV[i] && !MISSING[f][i] && STORED[f][i] && X[f][i] >= 0 && (!found || X[f][i] < v)) {
            v = X[f][i];
            found = true;
        }
    return found;
}

// Whether no example with the smallest, respectively largest, value has a non-zero weight
static bool extremeWithoutWeight(uint32 f) {
    for (uint32 k = 0; k < 2; k++) {
        bool found = false, weight = false;
        float32 v = 0;
        for (uint32 i = 0; i < N; i++)
            if (COV[i] && !MISSING[f][i]) {
                if (!found || (k ? X[f][i] > v : X[f][i] < v)) {
                    v = X[f][i];
                    found = true;
                    weight = false;
                }
                if (X[f][i] == v && W[i]) weight = true;
            }
        if (found && !weight) return true;
    }
    return false;
}

// Whether one of the intervals of equal width does not contain any example
static bool emptyInterval(uint32 f) {
    uint32 k = sx_param("bins", 2);
    float32 lo = 8, hi = -8;
    for (uint32 i = 0; i < N; i++)
        if (!MISSING[f][i]) {
            if (X[f][i] < lo) lo = X[f][i];
            if (X[f][i] > hi) hi = X[f][i];
        }
    float32 w = (hi - lo) / k;
    for (uint32 b = 1; b + 1 < k; b++) {
        bool any = false;
        for (uint32 i = 0; i < N; i++)
            if (!MISSING[f][i] && X[f][i] >= lo + b * w && X[f][i] < lo + (b + 1) * w) any = true;
        if (!any) return true;
    }
    return false;
}

// Identifies deviations that are listed as known findings
static const char* unsoundFinding(uint32 f, const Refinement& r, uint32 mask, uint32 expected, uint32 available) {
    if (TYPE[f] == NUMERICAL) {
        float32 v = 0;
        bool found = smallestNonNegative(f, v);
        if (found)
            for (uint32 i = 0; i < N; i++)
                if ((available >> i & 1) && STORED[f][i] && X[f][i] == v && mask == (expected ^ (1u << i)) && r.numCovered == popcount(mask)) return "C03-F1";
        if (SPARSE && r.comparator == NUMERICAL_LEQ && mask == available && r.numCovered == popcount(mask)) {
            bool positive = false;
            for (uint32 i = 0; i < N; i++)
                if ((available >> i & 1) && X[f][i] > 0) positive = true;
            if (!positive && std::get<float32>(r.threshold) < 0) return "C03-F2";
        }
    }
    if (TYPE[f] == ORDINAL && extremeWithoutWeight(f)) return "C03-F4";
    if (TYPE[f] == EQUAL_WIDTH || TYPE[f] == EQUAL_FREQUENCY) {
        if (r.comparator == NUMERICAL_LEQ && mask == (available & ~expected) && r.numCovered == popcount(expected)) return "C04-F1";
        if (TYPE[f] == EQUAL_WIDTH)
            for (uint32 i = 0; i < N; i++)
                if (!MISSING[f][i] && X[f][i] == std::get<float32>(r.threshold)) return "C04-F2";
        if (TYPE[f] == EQUAL_WIDTH && emptyInterval(f)) return "C04-F3";
        if (extremeWithoutWeight(f)) return "C04-F4";
    }
    return nullptr;
}

// Identifies deviations of the examples that are covered after a condition has been added
static const char* coverageFinding(uint32 f, const Refinement& r, uint32 deviating, uint32 available) {
    if (TYPE[f] == NUMERICAL) {
        float32 v = 0;
        if (smallestNonNegative(f, v)) {
            bool all = true;
            for (uint32 i = 0; i < N; i++)
                if ((deviating >> i & 1) && (!STORED[f][i] || X[f][i] != v)) all = false;
            if (all && popcount(deviating) == 1) return "C03-F1";
        }
    }
    return unsoundFinding(f, r, available, 0, available);
}

static const char* incompleteFinding(uint32 f, uint32 j, uint32 m, uint32 rest) {
    if (TYPE[f] == NOMINAL && USED[f] && REC.numMasks == 0) return "C03-F5";
    if (TYPE[f] == NUMERICAL) {
        if (USED[f] && REC.numMasks == 0) return "C03-F6";
        float32 v = 0;
        bool found = smallestNonNegative(f, v);
        float32 next = 8;
        for (uint32 i = 0; i < N; i++)
            if ((rest >> i & 1) && X[f][i] < next) next = X[f][i];
        if (found && (X[f][j] == v || (SPARSE && next == v))) return "C03-F1";
        for (uint32 i = 0; i < N; i++)
            if (COV[i] && !W[i] && !MISSING[f][i] && (X[f][i] == X[f][j] || X[f][i] == next)) return "C03-F3";
    }
    if (TYPE[f] == ORDINAL && extremeWithoutWeight(f)) return "C03-F4";
    return nullptr;
}

static void checkEvaluated(uint32 f, uint32 j, uint32 m, uint32 rest, uint32 mask) {
    if (REC.has(mask)) return;
    const char* finding = incompleteFinding(f, j, m, rest);
    if (finding) sx_known(finding, false, "each possible condition is evaluated");
    else sx_check(false, "each possible condition is evaluated");
}

static void checkComplete(uint32 f, uint32 available, uint32 minCoverage) {
    bool nominal = TYPE[f] == NOMINAL;
    if (TYPE[f] <= NOMINAL)
        for (uint32 j = 0; j < N; j++) {
            if (!(available >> j & 1)) continue;
            uint32 m = 0;
            for (uint32 i = 0; i < N; i++)
                if ((available >> i & 1) && (nominal ? X[f][i] == X[f][j] : X[f][i] <= X[f][j])) m |= 1u << i;
            uint32 rest = available & ~m;
            if (rest == 0) continue;
            if (popcount(m) >= minCoverage) checkEvaluated(f, j, m, rest, m);
            if (popcount(rest) >= minCoverage) checkEvaluated(f, j, m, rest, rest);
        }
}

static double rejectQuality(uint32) {
    return 0;
}

extern "C" void h_refine() {
    N = sx_param("n", 3);
    F = sx_param("f", 1);
    TYPE[0] = sx_param("t0", NUMERICAL);
    TYPE[1] = sx_param("t1", NUMERICAL);
    SPARSE = sx_param("sparse", 0);
    uint32 weights = sx_param("weights", 0);
    uint32 levels = sx_param("levels", 1);
    uint32 missing = sx_param("missing", 0);
    makeInputs(missing, weights);
    uint32 minCoverage = 1 + (sx_param("mincov", 1) ? sx_choice("minCoverage", 2) : 0);
    Space s;
    std::unique_ptr<IFeatureSubspace> subspacePtr = s.subspace(weights);
    NoThreads threads;
    StatisticsBasedRuleRefinementConfig config(ReadableProperty<IMultiThreadingConfig>([&]() -> IMultiThreadingConfig& { return threads; }));
    std::unique_ptr<IRuleRefinementFactory> rrFactoryPtr = config.createRuleRefinementFactory(*s.matrixPtr, 1);
    std::unique_ptr<IRuleRefinement> rrPtr = rrFactoryPtr->create();
    for (uint32 i = 0; i < N; i++) COV[i] = true;
    USED[0] = USED[1] = false;
    RuleCompareFunction compare([](const Quality& a, const Quality& b) { return a.quality > b.quality; }, 0.5);
    CompleteIndexVector outputIndices(1);
    REC.quality = pickQuality;
    uint32 numCovered = 0;
    for (uint32 i = 0; i < N; i++)
        if (W[i]) numCovered++;

    for (uint32 level = 0; level < levels; level++) {
        uint32 f = F > 1 && !sx_param("touch", 0) ? sx_choice("feature", F) : 0;
        PartialIndexVector featureIndices(1);
        if (F > 1 && sx_param("touch", 0)) {
            // conditions on the other feature are evaluated as well, but none of them is chosen
            f = 0;
            uint32 other = 1;
            featureIndices[0] = other;
            REC.numMasks = 0;
            REC.quality = rejectQuality;
            SingleRefinementComparator comparator(compare);
            sx_check(!rrPtr->findRefinement(comparator, *subspacePtr, featureIndices, outputIndices, minCoverage), "no refinement is found if there is no improvement");
            uint32 available = availableMask(other);
            for (uint32 k = 0; k < REC.numMasks; k++)
                sx_check((REC.masks[k] & ~available) == 0, "only covered examples with non-zero weights and non-missing values contribute to scores");
            checkComplete(other, available, minCoverage);
            REC.quality = pickQuality;
        }
        featureIndices[0] = f;
        picked = false;
        REC.numMasks = 0;
        SingleRefinementComparator comparator(compare);
        bool found = rrPtr->findRefinement(comparator, *subspacePtr, featureIndices, outputIndices, minCoverage);
        sx_check(found == picked && comparator.getNumElements() == (picked ? 1 : 0), "a refinement is found iff there is an improvement");
        uint32 available = availableMask(f);
        for (uint32 k = 0; k < REC.numMasks; k++)
            sx_check((REC.masks[k] & ~available) == 0, "only covered examples with non-zero weights and non-missing values contribute to scores");
        sx_obs("candidates", REC.numMasks);
        if (!found) {
            // nothing is missed: each distinguishable split of the covered examples is evaluated in both directions
            sx_reach("complete");
            checkComplete(f, available, minCoverage);
            break;
        }
        Refinement& r = *comparator.begin();
        uint32 mask = 0;
        {
            std::unique_ptr<IHead> headPtr = r.headPtr->createHead();
            auto complete = [&](const CompleteHead& head) { mask = (uint32) head.values_cbegin()[0]; };
            auto partial = [&](const PartialHead& head) { mask = (uint32) head.values_cbegin()[0]; };
            headPtr->visit(complete, partial);
        }
        sx_check(r.featureIndex == f, "a refinement belongs to the feature it has been searched for");
        // the examples the score has been calculated for are those that satisfy the condition
        uint32 expected = 0;
        for (uint32 i = 0; i < N; i++)
            if ((available >> i & 1) && satisfies(r, i)) expected |= 1u << i;
        if (mask != expected || r.numCovered != popcount(expected)) {
            const char* finding = unsoundFinding(f, r, mask, expected, available);
            if (finding) {
                sx_known(finding, false, "the score of a condition is based on the examples that satisfy it");
                return;
            }
        }
        sx_check(mask == expected, "the score of a condition is based on the examples that satisfy it");
        sx_check(r.numCovered == popcount(expected), "the number of covered examples is correct");
        sx_check(popcount(expected) >= minCoverage, "the minimum coverage is respected");
        sx_obs("numCovered", r.numCovered);
        // apply the condition
        Condition c = r;
        subspacePtr->filterSubspace(c);
        USED[f] = true;
        const CoverageMask& cm = subspacePtr->getCoverageMask();
        uint32 deviating = 0;
        for (uint32 i = 0; i < N; i++)
            if (cm[i] != (COV[i] & !MISSING[f][i] && satisfies(c, i))) deviating |= 1u << i;
        if (deviating) {
            const char* finding = coverageFinding(f, r, deviating, available);
            if (finding) {
                sx_known(finding, false, "after a condition has been added, exactly the examples that satisfy it are covered");
                return;
            }
        }
        for (uint32 i = 0; i < N; i++) COV[i] = COV[i] & !MISSING[f][i] && satisfies(c, i);
        for (uint32 i = 0; i < N; i++)
            sx_check(cm[i] == COV[i], "after a condition has been added, exactly the examples that satisfy it are covered");
        sx_check(subspacePtr->getNumCovered() == popcount(expected), "number of examples covered by a subspace");
        sx_reach("filtered");
        if (level + 1 < levels && sx_param("copy", 0) && sx_choice("copy", 2)) subspacePtr = subspacePtr->copy();
    }
    sx_reach("end");
}
