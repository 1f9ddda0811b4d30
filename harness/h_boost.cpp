// Gradient boosting: statistics (gradients and Hessians), losses
#include "sx.hpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_dense.hpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_sparse.hpp"
#include "mlrl/boosting/data/vector_statistic_non_decomposable_dense.hpp"
#include "mlrl/boosting/losses/loss_decomposable_logistic.hpp"
#include "mlrl/boosting/losses/loss_decomposable_squared_error.hpp"
#include "mlrl/boosting/losses/loss_decomposable_squared_hinge.hpp"
#include "mlrl/boosting/losses/loss_non_decomposable_logistic.hpp"
#include "mlrl/boosting/losses/loss_non_decomposable_squared_error.hpp"
#include "mlrl/boosting/losses/loss_non_decomposable_squared_hinge.hpp"
#include "mlrl/boosting/statistics/statistics.hpp"
#include "mlrl/boosting/statistics/statistics_provider_decomposable_dense.hpp"
#include "mlrl/boosting/statistics/statistics_provider_decomposable_sparse.hpp"
#include "mlrl/boosting/statistics/statistics_provider_non_decomposable_dense.hpp"
#include "mlrl/common/data/vector_dok_binary.hpp"
#include "mlrl/common/data/view_matrix_c_contiguous.hpp"
#include "mlrl/common/data/view_matrix_csr.hpp"
#include "mlrl/common/data/view_matrix_csr_binary.hpp"
#include "mlrl/common/indices/index_vector_complete.hpp"
#include "mlrl/common/indices/index_vector_partial.hpp"
#include "mlrl/common/prediction/probability_calibration_no.hpp"
#include "mlrl/common/rule_evaluation/score_vector_dense.hpp"
#include "mlrl/common/rule_refinement/prediction_complete.hpp"
#include "mlrl/common/rule_refinement/prediction_partial.hpp"
#include "mlrl/common/rule_refinement/score_processor.hpp"
#include "mlrl/common/sampling/weight_vector_bit.hpp"
#include "mlrl/common/sampling/weight_vector_dense.hpp"
#include "mlrl/common/sampling/weight_vector_equal.hpp"
#include "mlrl/common/sampling/weight_vector_out_of_sample.hpp"

#include <cmath>
#include <limits>

using namespace boosting;

static const uint32 MAXE = 4;
static const uint32 MAXL = 3;
static const uint32 MAXH = MAXL * (MAXL + 1) / 2;
static uint32 N, L;

// Ground truth
static bool REGRESSION;
static uint8 Y[MAXE * MAXL];
static float32 T[MAXE * MAXL];
static uint32 IDX[MAXE * MAXL], PTR[MAXE + 1];
static float32 VAL[MAXE * MAXL];

static void makeGroundTruth(bool sparse) {
    uint32 m = 0;
    for (uint32 i = 0; i < N; i++) {
        PTR[i] = m;
        for (uint32 l = 0; l < L; l++) {
            if (REGRESSION) {
                bool stored = !sparse || sx_param("unit", 0) || sx_choice("stored", 2);
                if (sx_param("unit", 0)) {
                    // targets, the loss functions for classification and regression agree upon
                    stored = true;
                    T[i * L + l] = sx_choice("target", sx_param("unit", 0)) ? -1 : 1;
                } else if (sx_param("exact", 0)) T[i * L + l] = stored ? 2 : 0;
                else T[i * L + l] = stored ? sx_f32("target", -4, 4) : 0;
                if (stored) {
                    VAL[m] = T[i * L + l];
                    IDX[m++] = l;
                }
            } else {
                Y[i * L + l] = sx_choice("y", 2);
                if (Y[i * L + l]) IDX[m++] = l;
            }
        }
    }
    PTR[N] = m;
}

// Specification ---------------------------------------------------------------------------------------------------------
static uint32 LOSS;            // 0: logistic, 1: squared error, 2: squared hinge
static bool NONDEC;            // whether the loss is non-decomposable
static double S[MAXE][MAXL];   // current scores
static double G[MAXE][MAXL];   // gradients
static double H[MAXE][MAXH];   // Hessians (lower triangle), if the statistics are non-decomposable, the diagonal otherwise
static bool TRIANGLE;

static uint32 tri(uint32 r, uint32 c) {
    return r * (r + 1) / 2 + c;
}

static double loss(uint32 i) {
    double sum = 0;
    double x[MAXL];
    double max = 0;
    for (uint32 l = 0; l < L; l++) {
        double s = S[i][l];
        bool y = Y[i * L + l];
        if (LOSS == 0) {
            x[l] = y ? -s : s;
            if (x[l] > max) max = x[l];
            if (!NONDEC) sum += x[l] > 0 ? x[l] + std::log(1 + std::exp(-x[l])) : std::log(1 + std::exp(x[l]));
        } else if (LOSS == 1) {
            double d = s - (REGRESSION ? (double) T[i * L + l] : y ? 1 : -1);
            sum += d * d;
        } else {
            double d = y ? (s < 1 ? 1 - s : 0) : (s > 0 ? s : 0);
            sum += d * d;
        }
    }
    if (!NONDEC) return sum / L;
    if (LOSS != 0) return std::sqrt(sum);
    // log(1 + sum of exp(x)), where the greatest summand is factored out
    sum = std::exp(-max);
    for (uint32 l = 0; l < L; l++) sum += std::exp(x[l] - max);
    return max + std::log(sum);
}

static void derive(uint32 i) {
    double d[MAXL];
    bool active[MAXL];
    double sum = 0;
    for (uint32 l = 0; l < L; l++) {
        double s = S[i][l];
        bool y = Y[i * L + l];
        active[l] = true;
        if (LOSS == 0) {
            d[l] = y ? 1 / std::exp(s) : std::exp(s);
            sum += d[l];
        } else {
            if (LOSS == 1) d[l] = s - (REGRESSION ? (double) T[i * L + l] : y ? 1 : -1);
            else {
                active[l] = y ? s < 1 : s > 0;
                d[l] = !active[l] ? 0 : y ? s - 1 : s;
            }
            sum += d[l] * d[l];
        }
    }
    // the derivatives of a norm are ill-conditioned next to zero
    if (NONDEC && LOSS != 0) sx_assume(sum == 0 || sum >= 0.0001);
    double root = NONDEC && LOSS != 0 ? std::sqrt(sum) : 0;
    for (uint32 l = 0; l < L; l++) {
        double& h = H[i][TRIANGLE ? tri(l, l) : l];
        double sign = Y[i * L + l] ? -1 : 1;
        if (!NONDEC) {
            if (LOSS == 0) {
                double p = d[l] / (1 + d[l]);
                G[i][l] = sign * p;
                h = p * (1 - p);
            } else {
                G[i][l] = d[l];
                h = 1;
            }
        } else if (LOSS == 0) {
            double p = d[l] / (1 + sum);
            G[i][l] = sign * p;
            h = p * (1 - p);
            if (TRIANGLE)
                for (uint32 r = 0; r < l; r++)
                    H[i][tri(l, r)] = -sign * (Y[i * L + r] ? -1 : 1) * (d[l] * d[r]) / ((1 + sum) * (1 + sum));
        } else {
            // where the loss is not differentiable, gradients and Hessians are zero
            bool zero = sum == 0;
            G[i][l] = zero ? 0 : d[l] / root;
            h = LOSS == 2 && !active[l] ? 1 : zero ? 0 : (sum - d[l] * d[l]) / (root * sum);
            if (TRIANGLE)
                for (uint32 r = 0; r < l; r++) H[i][tri(l, r)] = zero ? 0 : -(d[l] * d[r]) / (root * sum);
        }
    }
}

// What is passed to a rule evaluation -------------------------------------------------------------------------------------
struct Captured {
        uint32 calls = 0;
        uint32 num = 0;
        uint32 tag = 0;
        double g[MAXL];
        double h[MAXH];
};

static Captured CAP;

static void capture(const DenseDecomposableStatisticVector& v) {
    sx_check(!TRIANGLE, "decomposable statistics are only used if desired");
    CAP.num = v.getNumElements();
    for (uint32 k = 0; k < CAP.num; k++) {
        const Tuple<float64>& t = v.cbegin()[k];
        CAP.g[k] = t.first;
        CAP.h[k] = t.second;
    }
}

static void capture(const SparseDecomposableStatisticVector& v) {
    CAP.num = v.cend() - v.cbegin();
    for (uint32 k = 0; k < CAP.num; k++) {
        Tuple<float64> t = v.cbegin()[k];
        CAP.g[k] = t.first;
        CAP.h[k] = t.second;
    }
}

static void capture(const DenseNonDecomposableStatisticVector& v) {
    sx_check(TRIANGLE, "non-decomposable statistics are only used if desired");
    CAP.num = v.getNumGradients();
    sx_check(v.getNumHessians() == CAP.num * (CAP.num + 1) / 2, "the Hessians form a triangle");
    for (uint32 k = 0; k < CAP.num; k++) CAP.g[k] = v.gradients_cbegin()[k];
    for (uint32 k = 0; k < v.getNumHessians(); k++) CAP.h[k] = v.hessians_cbegin()[k];
    uint32 k = 0;
    for (auto it = v.hessians_diagonal_cbegin(); it != v.hessians_diagonal_cend(); it++, k++)
        sx_check(*it == CAP.h[tri(k, k)], "the diagonal of a Hessian matrix");
    sx_check(k == CAP.num, "the diagonal consists of one Hessian per output");
}

template<typename StatisticVector, typename IndexVector>
struct CapturingEvaluation final : public boosting::IRuleEvaluation<StatisticVector> {
        uint32 tag;
        DenseScoreVector<IndexVector> scores;

        CapturingEvaluation(const IndexVector& i, uint32 t) : tag(t), scores(i, true) {}

        const IScoreVector& calculateScores(StatisticVector& v) override {
            CAP.calls++;
            CAP.tag = tag;
            capture(v);
            return scores;
        }
};

struct DecomposableFactory final : public ISparseDecomposableRuleEvaluationFactory {
        uint32 tag;

        DecomposableFactory(uint32 t) : tag(t) {}

        std::unique_ptr<boosting::IRuleEvaluation<DenseDecomposableStatisticVector>> create(const DenseDecomposableStatisticVector&, const CompleteIndexVector& i) const override {
            return std::make_unique<CapturingEvaluation<DenseDecomposableStatisticVector, CompleteIndexVector>>(i, tag);
        }
        std::unique_ptr<boosting::IRuleEvaluation<DenseDecomposableStatisticVector>> create(const DenseDecomposableStatisticVector&, const PartialIndexVector& i) const override {
            return std::make_unique<CapturingEvaluation<DenseDecomposableStatisticVector, PartialIndexVector>>(i, tag);
        }
        std::unique_ptr<boosting::IRuleEvaluation<SparseDecomposableStatisticVector>> create(const SparseDecomposableStatisticVector&, const CompleteIndexVector& i) const override {
            return std::make_unique<CapturingEvaluation<SparseDecomposableStatisticVector, CompleteIndexVector>>(i, tag);
        }
        std::unique_ptr<boosting::IRuleEvaluation<SparseDecomposableStatisticVector>> create(const SparseDecomposableStatisticVector&, const PartialIndexVector& i) const override {
            return std::make_unique<CapturingEvaluation<SparseDecomposableStatisticVector, PartialIndexVector>>(i, tag);
        }
};

struct NonDecomposableFactory final : public INonDecomposableRuleEvaluationFactory {
        uint32 tag;

        NonDecomposableFactory(uint32 t) : tag(t) {}

        std::unique_ptr<boosting::IRuleEvaluation<DenseNonDecomposableStatisticVector>> create(const DenseNonDecomposableStatisticVector&, const CompleteIndexVector& i) const override {
            return std::make_unique<CapturingEvaluation<DenseNonDecomposableStatisticVector, CompleteIndexVector>>(i, tag);
        }
        std::unique_ptr<boosting::IRuleEvaluation<DenseNonDecomposableStatisticVector>> create(const DenseNonDecomposableStatisticVector&, const PartialIndexVector& i) const override {
            return std::make_unique<CapturingEvaluation<DenseNonDecomposableStatisticVector, PartialIndexVector>>(i, tag);
        }
};

static IHeadConfig& noHead() {
    throw 1;
}

static ReadableProperty<IHeadConfig> HEAD() {
    return ReadableProperty<IHeadConfig>([]() -> IHeadConfig& { return noHead(); });
}

static uint32 STATS;   // 0: dense decomposable, 1: sparse, 2: non-decomposable, 3: non-decomposable converted to decomposable ones

static std::unique_ptr<IStatisticsProvider> makeProvider(bool sparse) {
    MultiThreadingSettings mt(1);
    static std::unique_ptr<CContiguousView<const uint8>> labelsPtr;
    static std::unique_ptr<BinaryCsrView> csrPtr;
    static std::unique_ptr<CContiguousView<const float32>> targetsPtr;
    static std::unique_ptr<CsrView<const float32>> csrTargetsPtr;
    labelsPtr = std::make_unique<CContiguousView<const uint8>>(Y, N, L);
    csrPtr = std::make_unique<BinaryCsrView>(IDX, PTR, N, L);
    targetsPtr = std::make_unique<CContiguousView<const float32>>(T, N, L);
    csrTargetsPtr = std::make_unique<CsrView<const float32>>(VAL, IDX, PTR, N, L);
    auto dec = [](uint32 t) { return std::make_unique<DecomposableFactory>(t); };
    auto non = [](uint32 t) { return std::make_unique<NonDecomposableFactory>(t); };
    if (REGRESSION) {
        static std::unique_ptr<IRegressionStatisticsProviderFactory> factoryPtr;   // must outlive the provider
        if (STATS == 0) {
            DecomposableSquaredErrorLossConfig c(HEAD());
            factoryPtr = std::make_unique<DenseDecomposableRegressionStatisticsProviderFactory>(
              c.createDecomposableRegressionLossFactory(), c.createRegressionEvaluationMeasureFactory(), dec(0), dec(1), dec(2), mt);
        } else {
            NonDecomposableSquaredErrorLossConfig c(HEAD());
            if (STATS == 2)
                factoryPtr = std::make_unique<DenseNonDecomposableRegressionStatisticsProviderFactory>(
                  c.createNonDecomposableRegressionLossFactory(), c.createRegressionEvaluationMeasureFactory(), non(0), non(1), non(2), mt);
            else
                factoryPtr = std::make_unique<DenseConvertibleNonDecomposableRegressionStatisticsProviderFactory>(
                  c.createNonDecomposableRegressionLossFactory(), c.createRegressionEvaluationMeasureFactory(), non(0), dec(1), dec(2), mt);
        }
        return sparse ? factoryPtr->create(*csrTargetsPtr) : factoryPtr->create(*targetsPtr);
    }
    static std::unique_ptr<IClassificationStatisticsProviderFactory> factoryPtr;
    if (STATS == 1) {
        DecomposableSquaredHingeLossConfig c(HEAD());
        factoryPtr = std::make_unique<SparseDecomposableClassificationStatisticsProviderFactory>(
          c.createSparseDecomposableClassificationLossFactory(), c.createSparseEvaluationMeasureFactory(), dec(1), dec(2), mt);
    } else if (STATS == 0) {
        auto make = [&](const IDecomposableClassificationLossConfig& c) {
            factoryPtr = std::make_unique<DenseDecomposableClassificationStatisticsProviderFactory>(
              c.createDecomposableClassificationLossFactory(), c.createClassificationEvaluationMeasureFactory(), dec(0), dec(1), dec(2), mt);
        };
        if (LOSS == 0) make(DecomposableLogisticLossConfig(HEAD()));
        else if (LOSS == 1) make(DecomposableSquaredErrorLossConfig(HEAD()));
        else make(DecomposableSquaredHingeLossConfig(HEAD()));
    } else {
        auto make = [&](const INonDecomposableClassificationLossConfig& c) {
            if (STATS == 2)
                factoryPtr = std::make_unique<DenseNonDecomposableClassificationStatisticsProviderFactory>(
                  c.createNonDecomposableClassificationLossFactory(), c.createClassificationEvaluationMeasureFactory(), non(0), non(1), non(2), mt);
            else
                factoryPtr = std::make_unique<DenseConvertibleNonDecomposableClassificationStatisticsProviderFactory>(
                  c.createNonDecomposableClassificationLossFactory(), c.createClassificationEvaluationMeasureFactory(), non(0), dec(1), dec(2), mt);
        };
        if (LOSS == 0) make(NonDecomposableLogisticLossConfig(HEAD()));
        else if (LOSS == 1) make(NonDecomposableSquaredErrorLossConfig(HEAD()));
        else make(NonDecomposableSquaredHingeLossConfig(HEAD()));
    }
    return sparse ? factoryPtr->create(*csrPtr) : factoryPtr->create(*labelsPtr);
}

static double W[MAXE];
static uint32 NUM_INDICES;
static uint32 INDICES[MAXL];

// Set if deviations are known
static const char* KNOWN = nullptr;

static void near(double a, double b, const char* msg) {
    if (KNOWN) sx_known(KNOWN, std::fabs(a - b) <= 0.0001, msg);
    else sx_near(a, b, msg);
}

// Compares captured statistics to the weighted sums of those of the given examples
static void compare(const int32* counts, const char* msg) {
    sx_check(CAP.num == NUM_INDICES, "there are gradients and Hessians for each considered output");
    for (uint32 p = 0; p < NUM_INDICES; p++) {
        double g = 0;
        for (uint32 i = 0; i < N; i++)
            if (counts[i]) g += G[i][INDICES[p]] * (W[i] * counts[i]);
        near(CAP.g[p], g, msg);
        for (uint32 q = TRIANGLE ? 0 : p; q <= p; q++) {
            double h = 0;
            for (uint32 i = 0; i < N; i++)
                if (counts[i]) h += H[i][TRIANGLE ? tri(INDICES[p], INDICES[q]) : INDICES[p]] * (W[i] * counts[i]);
            near(CAP.h[TRIANGLE ? tri(p, q) : p], h, msg);
        }
    }
}

static void checkScores(const IBoostingStatistics& bs) {
    uint32 visits = 0;
    bs.visitScoreMatrix(
      [&](const CContiguousView<float64>& view) {
          visits++;
          sx_check(STATS != 1, "dense scores");
          for (uint32 i = 0; i < N; i++)
              for (uint32 l = 0; l < L; l++) sx_near(view.values_cbegin(i)[l], S[i][l], "the scores of an example sum up the predictions of rules that cover it");
      },
      [&](const SparseSetView<float64>& view) {
          visits++;
          sx_check(STATS == 1, "sparse scores");
          for (uint32 i = 0; i < N; i++)
              for (uint32 l = 0; l < L; l++) {
                  const IndexedValue<float64>* entry = view[i][l];
                  sx_near(entry ? entry->value : 0, S[i][l], "the scores of an example sum up the predictions of rules that cover it");
              }
      });
    sx_check(visits == 1, "there is a single score matrix");
}

// Whether rules that predict for some outputs cause the statistics of wrong ones to be updated (known finding C05-F1)
static bool WRONG_OUTPUTS = false;
static bool STALE = false;

static void deriveOutputs(uint32 i, uint32 num) {
    double g[MAXL], h[MAXL];
    for (uint32 l = 0; l < L; l++) {
        g[l] = G[i][l];
        h[l] = H[i][l];
    }
    derive(i);
    for (uint32 l = num; l < L; l++) {
        G[i][l] = g[l];
        H[i][l] = h[l];
    }
}

static void applyRules(IStatistics& statistics, uint32 rules) {
    for (uint32 r = 0; r < rules; r++) {
        bool p = sx_param("heads", 0) ? sx_param("heads", 0) == 2 : sx_choice("head", 2);
        uint32 num = L;
        uint32 idx[MAXL];
        for (uint32 l = 0; l < L; l++) idx[l] = l;
        if (p) {
            num = 0;
            for (uint32 l = 0; l < L; l++)
                if (sx_choice("contained", 2)) idx[num++] = l;
        }
        CompletePrediction cp(num);
        PartialPrediction pp(num, true);
        double values[MAXL];
        for (uint32 k = 0; k < num; k++) {
            values[k] = sx_param("exact", 0) ? ((int) sx_choice("value", 5) - 2) * 0.5 : sx_f64("value", -4, 4);
            // scores of zero are valid predictions
            if (LOSS == 0) (void) std::exp(values[k]);
            cp.values_begin()[k] = values[k];
            pp.values_begin()[k] = values[k];
            pp.indices_begin()[k] = idx[k];
        }
        std::unique_ptr<IStatisticsUpdate> updatePtr = p ? pp.createStatisticsUpdate(statistics) : cp.createStatisticsUpdate(statistics);
        for (uint32 i = 0; i < N; i++) {
            uint32 c = N == 1 && r == 0 ? 1 : sx_choice("covers", sx_param("revert", 0) ? 3 : 2);
            if (c == 0) continue;
            updatePtr->applyPrediction(i);
            if (p && WRONG_OUTPUTS) {
                for (uint32 k = 0; k < num; k++) STALE = STALE || idx[k] >= num;
                for (uint32 k = 0; k < num; k++) S[i][idx[k]] += values[k];
                deriveOutputs(i, num);
                if (c == 2) {
                    for (uint32 k = 0; k < num; k++) S[i][idx[k]] -= values[k];
                    updatePtr->revertPrediction(i);
                    deriveOutputs(i, num);
                }
                continue;
            }
            if (c == 2) updatePtr->revertPrediction(i);
            else
                for (uint32 k = 0; k < num; k++) S[i][idx[k]] += values[k];
            derive(i);
        }
    }
}

template<typename W_>
static void weighted(const IStatistics& statistics, const W_& weights, uint32 partial) {
    std::unique_ptr<IWeightedStatistics> wsPtr = statistics.createWeightedStatistics(weights);
    sx_check(wsPtr->getNumStatistics() == N && wsPtr->getNumOutputs() == L, "dimensions");
    std::unique_ptr<IWeightedStatistics> copyPtr;
    int32 avail[MAXE];
    for (uint32 i = 0; i < N; i++) avail[i] = 1;
    IWeightedStatistics* ws = wsPtr.get();
    // the examples that are covered by the current rule
    uint32 history = sx_param("history", 1) ? sx_choice("history", 3) : 0;
    if (history == 1) {
        ws->resetCoveredStatistics();
        for (uint32 i = 0; i < N; i++) {
            avail[i] = sx_choice("covered", 2);
            if (avail[i]) ws->addCoveredStatistic(i);
        }
    } else if (history == 2) {
        copyPtr = ws->copy();
        uint32 r = sx_choice("removed", N);
        ws->removeCoveredStatistic(r);   // does not affect the copy
        if (sx_choice("useCopy", 2)) ws = copyPtr.get();
        else avail[r] = 0;
    }
    AllocatedBinaryDokVector excluded;
    int32 excl[MAXE];
    for (uint32 i = 0; i < N; i++) excl[i] = 0;
    if (sx_param("excluded", 1)) {
        uint32 e = sx_choice("excluded", N + 1);
        if (e < N && avail[e]) {
            excl[e] = 1;
            excluded.set(e, true);
        }
    }
    CompleteIndexVector complete(L);
    PartialIndexVector part(NUM_INDICES);
    for (uint32 p = 0; p < NUM_INDICES; p++) part.begin()[p] = INDICES[p];
    std::unique_ptr<IResettableStatisticsSubset> subsetPtr = partial ? ws->createSubset(excluded, part) : ws->createSubset(excluded, complete);
    int32 cur[MAXE], acc[MAXE], unc[MAXE], first[MAXE];
    for (uint32 i = 0; i < N; i++) cur[i] = first[i] = acc[i] = 0;
    for (uint32 i = 0; i < N; i++) {
        sx_check(subsetPtr->hasNonZeroWeight(i) == (W[i] != 0), "non-zero weights");
        // examples are passed in any of three groups: before the first, before the second reset, or never
        uint32 g = avail[i] && !excl[i] ? sx_choice("group", 3) : 2;
        if (g < 2) acc[i] = g + 1;
    }
    auto difference = [&](const int32* s) {
        for (uint32 i = 0; i < N; i++) unc[i] = (avail[i] && !excl[i] ? 1 : 0) - s[i];
        return unc;
    };
    CAP.calls = 0;
    for (uint32 g = 1; g <= 3; g++) {
        for (uint32 i = 0; i < N; i++)
            if (acc[i] == g) {
                subsetPtr->addToSubset(i);
                cur[i] = 1;
            }
        subsetPtr->calculateScores();
        compare(cur, "scores are based on the examples that have been added since the last reset");
        subsetPtr->calculateScoresUncovered();
        compare(difference(cur), "uncovered scores are based on the remaining examples that are covered by a rule");
        if (g > 1) {
            subsetPtr->calculateScoresAccumulated();
            compare(first, "accumulated scores are based on the examples that have been added before the last reset");
            subsetPtr->calculateScoresUncoveredAccumulated();
            compare(difference(first), "accumulated uncovered scores are based on the remaining examples");
        }
        subsetPtr->resetSubset();
        for (uint32 i = 0; i < N; i++) {
            first[i] += cur[i];
            cur[i] = 0;
        }
    }
    sx_check(CAP.calls == 10, "each score is obtained via the rule evaluation");
}

template<typename W_>
static void unweighted(const IStatistics& statistics, const W_& weights, uint32 partial, bool outOfSample) {
    CompleteIndexVector complete(L);
    PartialIndexVector part(NUM_INDICES);
    for (uint32 p = 0; p < NUM_INDICES; p++) part.begin()[p] = INDICES[p];
    std::unique_ptr<IStatisticsSubset> subsetPtr;
    OutOfSampleWeightVector<W_> oos(weights);
    if (outOfSample) {
        for (uint32 i = 0; i < N; i++) W[i] = W[i] == 0 ? 1 : 0;
        subsetPtr = partial ? statistics.createSubset(part, oos) : statistics.createSubset(complete, oos);
    } else {
        subsetPtr = partial ? statistics.createSubset(part, weights) : statistics.createSubset(complete, weights);
    }
    int32 cur[MAXE];
    for (uint32 i = 0; i < N; i++) {
        sx_check(subsetPtr->hasNonZeroWeight(i) == (W[i] != 0), "non-zero weights of a subset");
        cur[i] = sx_choice("add", 2);
        if (cur[i]) subsetPtr->addToSubset(i);
    }
    subsetPtr->calculateScores();
    compare(cur, "scores are based on the examples of a subset");
}

template<typename F>
static void withWeights(F f) {
    uint32 kind = sx_param("weights", 0);
    if (kind == 0) {
        for (uint32 i = 0; i < N; i++) W[i] = 1;
        f(EqualWeightVector(N));
    } else if (kind == 1) {
        BitWeightVector v(N, true);
        uint32 num = 0;
        for (uint32 i = 0; i < N; i++) {
            bool b = sx_choice("weight", 2);
            v.set(i, b);
            W[i] = b;
            num += b;
        }
        v.setNumNonZeroWeights(num);
        f(v);
    } else {
        DenseWeightVector<uint32> v(N);
        uint32 num = 0;
        for (uint32 i = 0; i < N; i++) {
            uint32 w = sx_choice("weight", 3);
            w = w == 2 ? 3 : w;
            v.begin()[i] = w;
            W[i] = w;
            num += w != 0;
        }
        v.setNumNonZeroWeights(num);
        f(v);
    }
}

// Finds out via a concrete example whether the finding C05-F1 is present
static bool updatesWrongOutputs() {
    N = 1;
    L = 2;
    T[0] = 1;
    T[1] = 2;
    std::unique_ptr<IStatisticsProvider> providerPtr = makeProvider(false);
    IStatistics& statistics = providerPtr->get();
    PartialPrediction prediction(1, true);
    prediction.indices_begin()[0] = 1;
    prediction.values_begin()[0] = 5;
    prediction.createStatisticsUpdate(statistics)->applyPrediction(0);
    CompleteIndexVector complete(L);
    EqualWeightVector weights(N);
    std::unique_ptr<IStatisticsSubset> subsetPtr = statistics.createSubset(complete, weights);
    subsetPtr->addToSubset(0);
    subsetPtr->calculateScores();
    return CAP.g[0] == -1 && CAP.g[1] == -2;
}

static void setup(uint32 n, uint32 l) {
    N = sx_param("n", n);
    L = sx_param("l", l);
    STATS = sx_param("stats", 0);
    LOSS = sx_param("loss", 1);
    REGRESSION = sx_param("regression", 0);
    NONDEC = STATS >= 2;
    TRIANGLE = NONDEC;
    if (REGRESSION && STATS == 0 && !sx_param("sparse", 0)) {
        WRONG_OUTPUTS = updatesWrongOutputs();
        N = sx_param("n", n);
        L = sx_param("l", l);
    }
    makeGroundTruth(sx_param("sparse", 0));
    for (uint32 i = 0; i < N; i++) {
        for (uint32 k = 0; k < L; k++) S[i][k] = 0;
        derive(i);
    }
}

static uint32 switchEvaluation(IStatisticsProvider& provider, uint32 evaluation, uint32 from) {
    if (from == 0 && evaluation > 0) provider.switchToRegularRuleEvaluation();
    if (evaluation == 2) provider.switchToPruningRuleEvaluation();
    if (STATS == 3 && evaluation > 0) {
        TRIANGLE = false;
        for (uint32 i = 0; i < N; i++) derive(i);
    }
    return evaluation;
}

extern "C" void h_statistics() {
    setup(2, 2);
    uint32 partial = sx_param("partial", 0);
    std::unique_ptr<IStatisticsProvider> providerPtr = makeProvider(sx_param("sparse", 0));
    // rules may be learned before and after a different rule evaluation is used
    uint32 evaluation = sx_param("switch", 0) ? sx_choice("evaluation", 3) : 0;
    bool early = sx_param("switch", 0) ? sx_choice("early", 2) : 0;
    if (early) switchEvaluation(*providerPtr, evaluation, 0);
    applyRules(providerPtr->get(), sx_param("rules", 1));
    if (!early) switchEvaluation(*providerPtr, evaluation, 0);
    if (sx_param("switch", 0) && !early && sx_param("rules", 1)) applyRules(providerPtr->get(), 1);
    IStatistics& statistics = providerPtr->get();
    sx_check(statistics.getNumStatistics() == N && statistics.getNumOutputs() == L, "dimensions");
    checkScores(dynamic_cast<const IBoostingStatistics&>(statistics));
    NUM_INDICES = 0;
    for (uint32 l = 0; l < L; l++)
        if (!partial || sx_choice("considered", 2)) INDICES[NUM_INDICES++] = l;
    sx_assume(NUM_INDICES > 0);
    uint32 mode = sx_param("mode", 0);
    withWeights([&](const auto& weights) {
        if (mode == 0) weighted(statistics, weights, partial);
        else unweighted(statistics, weights, partial, mode == 2);
    });
    sx_check(CAP.tag == (STATS == 1 && evaluation == 0 ? 1 : evaluation), "the rule evaluation that has been switched to is used");
    if (STALE) sx_known("C05-F1", false, "the statistics of the outputs a partial rule predicts for are updated");
    sx_reach("end");
}

// Losses ------------------------------------------------------------------------------------------------------------------
extern "C" void h_loss() {
    setup(1, 2);
    if (REGRESSION && NONDEC && sx_param("exact", 0)) {
        KNOWN = "C06-F1";
        sx_reach("end");
    }
    std::unique_ptr<IStatisticsProvider> providerPtr = makeProvider(sx_param("sparse", 0));
    if (sx_param("switch", 0)) switchEvaluation(*providerPtr, 1, 0);
    IStatistics& statistics = providerPtr->get();
    applyRules(statistics, sx_param("rules", 1));
    NUM_INDICES = L;
    for (uint32 l = 0; l < L; l++) INDICES[l] = l;
    W[0] = 1;
    CompleteIndexVector complete(L);
    EqualWeightVector weights(N);
    std::unique_ptr<IStatisticsSubset> subsetPtr = statistics.createSubset(complete, weights);
    subsetPtr->addToSubset(0);
    subsetPtr->calculateScores();
    int32 counts[] = {1};
    compare(counts, "gradients and Hessians are the first and second derivatives of the loss");
    double quality = statistics.evaluatePrediction(0);
    near(quality, loss(0), "the quality of predictions is measured via the loss");
    sx_reach("end");
}
