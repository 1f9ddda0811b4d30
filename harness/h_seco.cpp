// Separate-and-conquer: statistics (confusion matrices, coverage), heuristics, lift functions, rule evaluation, prediction
#include "sx.hpp"
#include "mlrl/common/data/vector_dok_binary.hpp"
#include "mlrl/common/data/view_matrix_c_contiguous.hpp"
#include "mlrl/common/data/view_matrix_csr_binary.hpp"
#include "mlrl/common/indices/index_vector_complete.hpp"
#include "mlrl/common/indices/index_vector_partial.hpp"
#include "mlrl/common/input/label_matrix_row_wise.hpp"
#include "mlrl/common/rule_evaluation/score_vector_dense.hpp"
#include "mlrl/common/rule_refinement/prediction_complete.hpp"
#include "mlrl/common/rule_refinement/prediction_partial.hpp"
#include "mlrl/common/rule_refinement/score_processor.hpp"
#include "mlrl/common/sampling/weight_vector_bit.hpp"
#include "mlrl/common/sampling/weight_vector_dense.hpp"
#include "mlrl/common/sampling/weight_vector_equal.hpp"
#include "mlrl/common/sampling/weight_vector_out_of_sample.hpp"
#include "mlrl/seco/heuristics/heuristic_accuracy.hpp"
#include "mlrl/seco/heuristics/heuristic_f_measure.hpp"
#include "mlrl/seco/heuristics/heuristic_laplace.hpp"
#include "mlrl/seco/heuristics/heuristic_m_estimate.hpp"
#include "mlrl/seco/heuristics/heuristic_precision.hpp"
#include "mlrl/seco/heuristics/heuristic_recall.hpp"
#include "mlrl/seco/heuristics/heuristic_wra.hpp"
#include "mlrl/seco/lift_functions/lift_function_kln.hpp"
#include "mlrl/seco/lift_functions/lift_function_no.hpp"
#include "mlrl/seco/lift_functions/lift_function_peak.hpp"
#include "mlrl/seco/rule_evaluation/head_type_partial.hpp"
#include "mlrl/seco/rule_evaluation/head_type_single.hpp"
#include "mlrl/seco/rule_evaluation/rule_evaluation_decomposable.hpp"
#include "mlrl/seco/rule_evaluation/rule_evaluation_decomposable_partial.hpp"
#include "mlrl/seco/rule_evaluation/rule_evaluation_decomposable_single.hpp"
#include "mlrl/seco/statistics/statistics.hpp"
#include "mlrl/seco/statistics/statistics_provider_decomposable_dense.hpp"
#include "mlrl/seco/stopping/stopping_criterion_coverage.hpp"
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/partition_single.hpp"

#include <cmath>
#include <limits>

using namespace seco;

static const uint32 MAXE = 6;
static const uint32 MAXL = 4;
static uint32 N, L;
static uint8 Y[MAXE * MAXL];
static uint32 IDX[MAXE * MAXL], PTR[MAXE + 1];
static bool MAJ[MAXL];

static void makeLabels() {
    uint32 m = 0;
    for (uint32 i = 0; i < N; i++) {
        PTR[i] = m;
        for (uint32 l = 0; l < L; l++) {
            Y[i * L + l] = sx_choice("y", 2);
            if (Y[i * L + l]) IDX[m++] = l;
        }
    }
    PTR[N] = m;
    for (uint32 l = 0; l < L; l++) {
        uint32 num = 0;
        for (uint32 i = 0; i < N; i++) num += Y[i * L + l];
        MAJ[l] = num * 2 > N;
    }
}

// What is passed to a rule evaluation
struct Captured {
        uint32 calls = 0;
        uint32 numTotal = 0, numCovered = 0;
        double total[MAXL][4];
        double covered[MAXL][4];
        bool majority[MAXL];
        uint32 tag = 0;
};

static Captured CAP;

template<typename IndexVector>
struct CapturingEvaluation final : public seco::IRuleEvaluation {
        const IndexVector& indices;
        uint32 tag;
        DenseScoreVector<IndexVector> scores;

        CapturingEvaluation(const IndexVector& i, uint32 t) : indices(i), tag(t), scores(i, true) {}

        const IScoreVector& calculateScores(View<uint32>::const_iterator mb, View<uint32>::const_iterator me,
                                            const DenseConfusionMatrixVector& total,
                                            const DenseConfusionMatrixVector& covered) override {
            CAP.calls++;
            CAP.tag = tag;
            CAP.numTotal = total.getNumElements();
            CAP.numCovered = covered.getNumElements();
            sx_check(CAP.numTotal == L, "the total confusion matrices comprise all labels");
            sx_check(CAP.numCovered == indices.getNumElements(), "there is one confusion matrix per considered label");
            for (uint32 l = 0; l < L; l++) {
                const ConfusionMatrix& c = total.cbegin()[l];
                CAP.total[l][0] = c.in;
                CAP.total[l][1] = c.ip;
                CAP.total[l][2] = c.rn;
                CAP.total[l][3] = c.rp;
                CAP.majority[l] = false;
            }
            for (uint32 l = 0; l < CAP.numCovered; l++) {
                const ConfusionMatrix& c = covered.cbegin()[l];
                CAP.covered[l][0] = c.in;
                CAP.covered[l][1] = c.ip;
                CAP.covered[l][2] = c.rn;
                CAP.covered[l][3] = c.rp;
            }
            uint32 prev = 0;
            for (auto it = mb; it != me; it++) {
                sx_check(*it < L && (it == mb || *it > prev), "majority labels are sorted");
                prev = *it;
                CAP.majority[*it] = true;
            }
            for (uint32 l = 0; l < L; l++) sx_check(CAP.majority[l] == MAJ[l], "the majority label is the most frequent one");
            return scores;
        }
};

struct CapturingFactory final : public IDecomposableRuleEvaluationFactory {
        uint32 tag;

        CapturingFactory(uint32 t) : tag(t) {}

        std::unique_ptr<seco::IRuleEvaluation> create(const CompleteIndexVector& indexVector) const override {
            return std::make_unique<CapturingEvaluation<CompleteIndexVector>>(indexVector, tag);
        }

        std::unique_ptr<seco::IRuleEvaluation> create(const PartialIndexVector& indexVector) const override {
            return std::make_unique<CapturingEvaluation<PartialIndexVector>>(indexVector, tag);
        }
};

static double W[MAXE];               // weights of the examples
static int32 COV[MAXE][MAXL];        // how many rules cover a label of an example and predict the minority label
static uint32 NUM_INDICES;
static uint32 INDICES[MAXL];

// The position of an example's label in the confusion matrix of a rule that predicts the minority label
static uint32 cell(uint32 i, uint32 l) {
    return (Y[i * L + l] ? 2 : 0) + (MAJ[l] ? 0 : 1);
}

// Compares the captured confusion matrices to those of the given examples (how often each one counts)
static void compare(const int32* counts, const char* msg) {
    for (uint32 l = 0; l < L; l++) {
        double t[4] = {0, 0, 0, 0};
        for (uint32 i = 0; i < N; i++)
            if (COV[i][l] == 0) t[cell(i, l)] += W[i];
        for (uint32 k = 0; k < 4; k++) sx_check(CAP.total[l][k] == t[k], "the total confusion matrices sum up the labels that are not covered yet");
    }
    for (uint32 p = 0; p < NUM_INDICES; p++) {
        uint32 l = INDICES[p];
        double c[4] = {0, 0, 0, 0};
        for (uint32 i = 0; i < N; i++)
            if (COV[i][l] == 0 && counts[i]) c[cell(i, l)] += W[i] * counts[i];
        for (uint32 k = 0; k < 4; k++) sx_check(CAP.covered[p][k] == c[k], msg);
    }
}

static double SUM;
static bool SUM_EXACT;   // checked at the end of a path, such that paths are not cut short by a known finding

static void checkSum(const ICoverageStatistics& s) {
    // labels that differ from the majority label and are not covered by any rule
    double expected = 0, alt = 0;
    for (uint32 i = 0; i < N; i++)
        for (uint32 l = 0; l < L; l++) {
            bool minority = (Y[i * L + l] != 0) != MAJ[l];
            if (minority) {
                expected += COV[i][l] == 0;
                alt += 1;
            }
            if (COV[i][l] > 0) alt -= 1;
        }
    double sum = s.getSumOfUncoveredWeights();
    SUM = sum;
    if (sum != expected && sum == alt) SUM_EXACT = false;
    else sx_check(sum == expected, "the sum of uncovered weights is the number of minority labels that are not covered");
}

template<typename W_>
static void weighted(const IStatistics& statistics, const W_& weights, uint32 partial) {
    std::unique_ptr<IWeightedStatistics> wsPtr = statistics.createWeightedStatistics(weights);
    sx_check(wsPtr->getNumStatistics() == N && wsPtr->getNumOutputs() == L, "dimensions");
    std::unique_ptr<IWeightedStatistics> copyPtr;
    int32 avail[MAXE];
    for (uint32 i = 0; i < N; i++) avail[i] = 1;
    IWeightedStatistics* ws = wsPtr.get();
    // the examples that are covered by the current rule
    uint32 history = sx_param("history", 1) ? sx_choice("history", 3) : 0;
    if (history == 1) {
        ws->resetCoveredStatistics();
        for (uint32 i = 0; i < N; i++) {
            avail[i] = sx_choice("covered", 2);
            if (avail[i]) ws->addCoveredStatistic(i);
        }
    } else if (history == 2) {
        copyPtr = ws->copy();
        uint32 r = sx_choice("removed", N);
        ws->removeCoveredStatistic(r);   // does not affect the copy
        if (sx_choice("useCopy", 2)) ws = copyPtr.get();
        else avail[r] = 0;
    }
    AllocatedBinaryDokVector excluded;
    int32 excl[MAXE];
    for (uint32 i = 0; i < N; i++) excl[i] = 0;
    if (sx_param("excluded", 1)) {
        uint32 e = sx_choice("excluded", N + 1);
        if (e < N && avail[e]) {
            excl[e] = 1;
            excluded.set(e, true);
        }
    }
    CompleteIndexVector complete(L);
    PartialIndexVector part(NUM_INDICES);
    for (uint32 p = 0; p < NUM_INDICES; p++) part.begin()[p] = INDICES[p];
    std::unique_ptr<IResettableStatisticsSubset> subsetPtr = partial ? ws->createSubset(excluded, part) : ws->createSubset(excluded, complete);
    int32 cur[MAXE], acc[MAXE], unc[MAXE], uncAcc[MAXE];
    for (uint32 i = 0; i < N; i++) cur[i] = acc[i] = 0;
    for (uint32 i = 0; i < N; i++) {
        sx_check(subsetPtr->hasNonZeroWeight(i) == (W[i] != 0), "non-zero weights");
        // examples are passed in any of three groups: before the first, before the second reset, or never
        uint32 g = avail[i] && !excl[i] ? sx_choice("group", 3) : 2;
        if (g < 2) acc[i] = g + 1;
    }
    for (uint32 i = 0; i < N; i++)
        if (acc[i] == 1) {
            subsetPtr->addToSubset(i);
            cur[i] = 1;
        }
    auto difference = [&](int32* dst, const int32* s) {
        for (uint32 i = 0; i < N; i++) dst[i] = (avail[i] && !excl[i] ? 1 : 0) - s[i];
    };
    CAP.calls = 0;
    subsetPtr->calculateScores();
    compare(cur, "scores are based on the examples that have been added to a subset");
    difference(unc, cur);
    subsetPtr->calculateScoresUncovered();
    compare(unc, "uncovered scores are based on the remaining examples that are covered by a rule");
    subsetPtr->resetSubset();
    int32 first[MAXE];
    for (uint32 i = 0; i < N; i++) {
        first[i] = cur[i];
        cur[i] = 0;
    }
    for (uint32 i = 0; i < N; i++)
        if (acc[i] == 2) {
            subsetPtr->addToSubset(i);
            cur[i] = 1;
        }
    subsetPtr->calculateScores();
    compare(cur, "after a reset, scores are based on the examples that have been added since");
    subsetPtr->calculateScoresAccumulated();
    compare(first, "accumulated scores are based on the examples that have been added before the last reset");
    difference(uncAcc, first);
    subsetPtr->calculateScoresUncoveredAccumulated();
    compare(uncAcc, "accumulated uncovered scores");
    subsetPtr->resetSubset();
    for (uint32 i = 0; i < N; i++) {
        first[i] += cur[i];
        cur[i] = 0;
    }
    subsetPtr->calculateScores();
    compare(cur, "after a reset, a subset is empty");
    subsetPtr->calculateScoresAccumulated();
    compare(first, "accumulated scores are based on all examples that have been added");
    difference(unc, cur);
    subsetPtr->calculateScoresUncovered();
    compare(unc, "uncovered scores after a reset");
    sx_check(CAP.calls == 8, "each score is obtained via the rule evaluation");
}

template<typename W_>
static void unweighted(const IStatistics& statistics, const W_& weights, uint32 partial, bool outOfSample) {
    CompleteIndexVector complete(L);
    PartialIndexVector part(NUM_INDICES);
    for (uint32 p = 0; p < NUM_INDICES; p++) part.begin()[p] = INDICES[p];
    std::unique_ptr<IStatisticsSubset> subsetPtr;
    OutOfSampleWeightVector<W_> oos(weights);
    if (outOfSample) {
        for (uint32 i = 0; i < N; i++) W[i] = W[i] == 0 ? 1 : 0;
        subsetPtr = partial ? statistics.createSubset(part, oos) : statistics.createSubset(complete, oos);
    } else {
        subsetPtr = partial ? statistics.createSubset(part, weights) : statistics.createSubset(complete, weights);
    }
    int32 cur[MAXE];
    for (uint32 i = 0; i < N; i++) {
        sx_check(subsetPtr->hasNonZeroWeight(i) == (W[i] != 0), "non-zero weights of a subset");
        cur[i] = sx_choice("add", 2);
        if (cur[i]) subsetPtr->addToSubset(i);
    }
    subsetPtr->calculateScores();
    compare(cur, "scores are based on the examples of a subset");
}

template<typename F>
static void withWeights(F f) {
    uint32 kind = sx_param("weights", 0);
    if (kind == 0) {
        for (uint32 i = 0; i < N; i++) W[i] = 1;
        f(EqualWeightVector(N));
    } else if (kind == 1) {
        BitWeightVector v(N, true);
        uint32 num = 0;
        for (uint32 i = 0; i < N; i++) {
            bool b = sx_choice("weight", 2);
            v.set(i, b);
            W[i] = b;
            num += b;
        }
        v.setNumNonZeroWeights(num);
        f(v);
    } else {
        DenseWeightVector<uint32> v(N);
        uint32 num = 0;
        for (uint32 i = 0; i < N; i++) {
            uint32 w = sx_u32("weight", 0, 3);
            v.begin()[i] = w;
            W[i] = w;
            num += w != 0;
        }
        v.setNumNonZeroWeights(num);
        f(v);
    }
}

extern "C" void h_statistics() {
    N = sx_param("n", 2);
    L = sx_param("l", 2);
    makeLabels();
    bool sparse = sx_param("sparse", 0);
    uint32 partial = sx_param("partial", 0);
    CContiguousView<const uint8> dense(Y, N, L);
    BinaryCsrView csr(IDX, PTR, N, L);
    DenseDecomposableStatisticsProviderFactory factory(std::make_unique<CapturingFactory>(0), std::make_unique<CapturingFactory>(1),
                                                       std::make_unique<CapturingFactory>(2));
    std::unique_ptr<IStatisticsProvider> providerPtr = sparse ? factory.create(csr) : factory.create(dense);
    uint32 evaluation = sx_param("switch", 0) ? sx_choice("evaluation", 3) : 0;
    if (evaluation == 1) providerPtr->switchToRegularRuleEvaluation();
    if (evaluation == 2) {
        providerPtr->switchToRegularRuleEvaluation();
        providerPtr->switchToPruningRuleEvaluation();
    }
    IStatistics& statistics = providerPtr->get();
    const ICoverageStatistics& cs = dynamic_cast<const ICoverageStatistics&>(statistics);
    sx_check(statistics.getNumStatistics() == N && statistics.getNumOutputs() == L, "dimensions");
    for (uint32 i = 0; i < N; i++)
        for (uint32 l = 0; l < L; l++) COV[i][l] = 0;
    SUM_EXACT = true;
    checkSum(cs);

    // rules that have been learned before
    uint32 rules = sx_param("rules", 1);
    for (uint32 r = 0; r < rules; r++) {
        bool p = sx_choice("head", 2);
        uint32 num = L;
        uint32 idx[MAXL];
        for (uint32 l = 0; l < L; l++) idx[l] = l;
        if (p) {
            num = 0;
            for (uint32 l = 0; l < L; l++)
                if (sx_choice("contained", 2)) idx[num++] = l;
        }
        CompletePrediction cp(num);
        PartialPrediction pp(num, true);
        double values[MAXL];
        for (uint32 k = 0; k < num; k++) {
            // rules usually predict the minority label
            values[k] = sx_param("minority", 0) ? !MAJ[idx[k]] : sx_choice("value", 2);
            cp.values_begin()[k] = values[k];
            pp.values_begin()[k] = values[k];
            pp.indices_begin()[k] = idx[k];
        }
        std::unique_ptr<IStatisticsUpdate> updatePtr = p ? pp.createStatisticsUpdate(statistics) : cp.createStatisticsUpdate(statistics);
        bool applied[MAXE];
        for (uint32 i = 0; i < N; i++) {
            applied[i] = sx_choice("covers", 2);
            if (applied[i]) {
                updatePtr->applyPrediction(i);
                for (uint32 k = 0; k < num; k++)
                    if ((values[k] != 0) != MAJ[idx[k]]) COV[i][idx[k]]++;
            }
        }
        checkSum(cs);
        if (sx_param("revert", 0) && sx_choice("revert", 2)) {
            uint32 i = sx_choice("reverted", N);
            if (applied[i]) {
                updatePtr->revertPrediction(i);
                for (uint32 k = 0; k < num; k++)
                    if ((values[k] != 0) != MAJ[idx[k]]) COV[i][idx[k]]--;
                checkSum(cs);
            }
        }
    }
    CoverageStoppingCriterionConfig coverageConfig;
    double threshold = sx_f64("threshold", 0, 4);
    coverageConfig.setThreshold(threshold);
    std::unique_ptr<IStoppingCriterionFactory> stoppingFactoryPtr = coverageConfig.createStoppingCriterionFactory();
    SinglePartition single(N);
    std::unique_ptr<IStoppingCriterion> stoppingPtr = stoppingFactoryPtr->create(single);
    IStoppingCriterion::Result result = stoppingPtr->test(statistics, 1);
    sx_check(result.stop == (SUM <= threshold), "no more rules are induced once the uncovered weights do not exceed the threshold");
    sx_check(result.numUsedRules == 0, "all rules are used");

    NUM_INDICES = 0;
    for (uint32 l = 0; l < L; l++)
        if (!partial || sx_choice("considered", 2)) INDICES[NUM_INDICES++] = l;
    sx_assume(NUM_INDICES > 0);
    uint32 mode = sx_param("mode", 0);
    withWeights([&](const auto& weights) {
        if (mode == 0) weighted(statistics, weights, partial);
        else unweighted(statistics, weights, partial, mode == 2);
    });
    sx_check(CAP.tag == evaluation, "the rule evaluation that has been switched to is used");
    sx_reach("end");
    sx_known("C10-F1", SUM_EXACT, "the sum of uncovered weights is the number of minority labels that are not covered");
}

// Heuristics ----------------------------------------------------------------------------------------------------------

extern "C" void h_heuristic() {
    uint32 kind = sx_param("kind", 0);
    double v[8];
    double hi = sx_param("max", 6);
    for (uint32 i = 0; i < 8; i++) v[i] = sx_f64("count", 0, hi);
    double cin = v[0], cip = v[1], crn = v[2], crp = v[3], uin = v[4], uip = v[5], urn = v[6], urp = v[7];
    // what the rule predicts correctly
    double tp = cin + crp, fp = cip + crn, fn = uin + urp, tn = uip + urn;
    double total = tp + fp + fn + tn;
    double num = 0, den = 0;
    std::unique_ptr<IHeuristicFactory> factoryPtr;
    double dflt = 0;
    double param = 0;
    uint32 special = 0;
    if (kind == 5 || kind == 6) {
        special = sx_choice("special", 3);   // 0: finite, 1: zero, 2: infinite
        param = special == 1 ? 0 : special == 2 ? std::numeric_limits<double>::infinity() : sx_f64("param", 0.125, 8);
    }
    switch (kind) {
        case 0: factoryPtr = AccuracyConfig().createHeuristicFactory(); num = tp + tn; den = total; break;
        case 1: factoryPtr = PrecisionConfig().createHeuristicFactory(); num = tp; den = tp + fp; break;
        case 2: factoryPtr = RecallConfig().createHeuristicFactory(); num = tp; den = tp + fn; break;
        case 3: factoryPtr = LaplaceConfig().createHeuristicFactory(); num = tp + 1; den = tp + fp + 2; break;
        case 4: factoryPtr = WraConfig().createHeuristicFactory(); num = tp * total - (tp + fp) * (tp + fn); den = total * total; break;
        case 5: {
            FMeasureConfig c;
            c.setBeta(param);
            sx_check(c.getBeta() == param, "beta");
            factoryPtr = c.createHeuristicFactory();
            double b = param * param;
            if (special == 0) {
                num = (1 + b) * tp;
                den = num + b * fn + fp;
            } else if (special == 1) {
                num = tp;
                den = tp + fp;
            } else {
                num = tp;
                den = tp + fn;
            }
            break;
        }
        default: {
            MEstimateConfig c;
            c.setM(param);
            sx_check(c.getM() == param, "m");
            factoryPtr = c.createHeuristicFactory();
            if (special == 0) {
                num = tp * total + param * (tp + fn);
                den = total * (tp + fp + param);
            } else if (special == 1) {
                num = tp;
                den = tp + fp;
            } else {
                num = tp * total - (tp + fp) * (tp + fn);
                den = total * total;
            }
        }
    }
    double q = factoryPtr->create()->evaluateConfusionMatrix(cin, cip, crn, crp, uin, uip, urn, urp);
    if (den == 0) {
        sx_check(q == dflt, "if undefined, a heuristic is zero");
        sx_reach("undefined");
    } else {
        sx_near(q * den, num, "the heuristic corresponds to its definition");
        sx_reach("defined");
    }
}

// Lift functions ------------------------------------------------------------------------------------------------------

struct DummyLabelMatrix final : public IRowWiseLabelMatrix {
        float64 cardinality = 0;
        bool isSparse() const override { return false; }
        uint32 getNumExamples() const override { return N; }
        uint32 getNumOutputs() const override { return L; }
        float32 calculateLabelCardinality() const override { return cardinality; }
        std::unique_ptr<LabelVector> createLabelVector(uint32 row) const override { throw 1; }
        std::unique_ptr<IStatisticsProvider> createStatisticsProvider(const IClassificationStatisticsProviderFactory& factory) const override { throw 1; }
        std::unique_ptr<IPartitionSampling> createPartitionSampling(const IClassificationPartitionSamplingFactory& factory) const override { throw 1; }
        std::unique_ptr<IInstanceSampling> createInstanceSampling(const IClassificationInstanceSamplingFactory& factory, const SinglePartition& partition, IStatistics& statistics) const override { throw 1; }
        std::unique_ptr<IInstanceSampling> createInstanceSampling(const IClassificationInstanceSamplingFactory& factory, BiPartition& partition, IStatistics& statistics) const override { throw 1; }
        std::unique_ptr<IMarginalProbabilityCalibrationModel> fitMarginalProbabilityCalibrationModel(const IMarginalProbabilityCalibrator& calibrator, const SinglePartition& partition, const IStatistics& statistics) const override { throw 1; }
        std::unique_ptr<IMarginalProbabilityCalibrationModel> fitMarginalProbabilityCalibrationModel(const IMarginalProbabilityCalibrator& calibrator, BiPartition& partition, const IStatistics& statistics) const override { throw 1; }
        std::unique_ptr<IJointProbabilityCalibrationModel> fitJointProbabilityCalibrationModel(const IJointProbabilityCalibrator& calibrator, const SinglePartition& partition, const IStatistics& statistics) const override { throw 1; }
        std::unique_ptr<IJointProbabilityCalibrationModel> fitJointProbabilityCalibrationModel(const IJointProbabilityCalibrator& calibrator, BiPartition& partition, const IStatistics& statistics) const override { throw 1; }
};

static DummyLabelMatrix LABELS;

// Creates a lift function for L labels
static std::unique_ptr<ILiftFunctionFactory> makeLift(uint32 kind, uint32& peak, double& maxLift) {
    if (kind == 0) return NoLiftFunctionConfig().createLiftFunctionFactory(LABELS);
    if (kind == 1) {
        KlnLiftFunctionConfig c;
        double k = sx_f64("k", 0.0625, 4);
        c.setK(k);
        maxLift = k;
        return c.createLiftFunctionFactory(LABELS);
    }
    PeakLiftFunctionConfig c;
    uint32 p = sx_choice("peak", L + 2);
    maxLift = sx_f64("maxLift", 1, 4);
    static const double curvatures[] = {1, 2, 0.5};
    c.setPeakLabel(p).setMaxLift(maxLift).setCurvature(curvatures[sx_choice("curvature", sx_param("curvatures", 3))]);
    if (p == 0) {
        uint32 card = sx_choice("cardinality", L * 2 + 1);
        LABELS.cardinality = card * 0.5;
        peak = (uint32) std::round(LABELS.cardinality);
        if (peak < 1) peak = 1;
    } else peak = p < L ? p : L;
    return c.createLiftFunctionFactory(LABELS);
}

extern "C" void h_lift() {
    L = 1 + sx_choice("labels", 5);
    N = 1;
    uint32 kind = sx_param("kind", 0);
    uint32 peak = 0;
    double maxLift = 0;
    std::unique_ptr<ILiftFunctionFactory> factoryPtr = makeLift(kind, peak, maxLift);
    std::unique_ptr<ILiftFunction> liftPtr = factoryPtr->create();
    double lift[8], bound[8];
    for (uint32 n = 1; n <= L; n++) {
        lift[n] = liftPtr->calculateLift(n);
        bound[n] = liftPtr->getMaxLift(n);
        sx_check(lift[n] >= 1, "a lift is at least one");
    }
    for (uint32 n = 1; n <= L; n++)
        for (uint32 m = n; m <= L; m++) sx_check(bound[n] >= lift[m], "the maximum lift is an upper bound for greater numbers of labels");
    if (kind == 0)
        for (uint32 n = 1; n <= L; n++) sx_check(lift[n] == 1, "no lift");
    if (kind == 1) {
        for (uint32 n = 1; n <= L; n++) {
            sx_near(lift[n], 1 + maxLift * std::log((double) n), "kln");
            if (n > 1) sx_check(lift[n] >= lift[n - 1], "the lift increases monotonously");
        }
    }
    if (kind == 2) {
        sx_near(lift[peak], maxLift, "the lift is maximal at the peak");
        for (uint32 n = 2; n <= L; n++) {
            if (n <= peak) sx_check(lift[n] >= lift[n - 1], "the lift increases monotonously until the peak is reached");
            else sx_check(lift[n] <= lift[n - 1], "the lift decreases monotonously after the peak");
        }
        if (peak > 1) sx_near(lift[1], 1, "the lift of a single label is one");
        if (peak < L) sx_near(lift[L], 1, "the lift of all labels is one");
    }
    sx_reach("end");
}

// Rule evaluation -----------------------------------------------------------------------------------------------------

// Uses one element of the confusion matrix as the quality, which allows to obtain arbitrary qualities
struct FakeHeuristic final : public IHeuristic {
        float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin, float64 uip, float64 urn, float64 urp) const override {
            sx_check(cip == 2 && crn == 3 && crp == 4 && uip == 5 && urn == 6 && urp == 7, "covered and uncovered elements are passed to the heuristic");
            return cin - uin;   // the total is 100
        }
};

struct FakeHeuristicFactory final : public IHeuristicFactory {
        std::unique_ptr<IHeuristic> create() const override { return std::make_unique<FakeHeuristic>(); }
};

struct Result {
        uint32 num = 0;
        uint32 idx[MAXL];
        double val[MAXL];
        double quality = 0;
};

static void extract(const IScoreVector& s, Result& r) {
    std::unique_ptr<IEvaluatedPrediction> headPtr;
    ScoreProcessor processor(headPtr);
    processor.processScores(s);
    r.num = headPtr->getNumElements();
    r.quality = headPtr->quality;
    sx_check(r.num <= L, "number of predictions");
    // rules are sorted before they are added to a model
    headPtr->sort();
    auto p = dynamic_cast<PartialPrediction*>(headPtr.get());
    auto c = dynamic_cast<CompletePrediction*>(headPtr.get());
    for (uint32 i = 0; i < r.num; i++) {
        r.idx[i] = headPtr->getIndex(i);
        r.val[i] = p ? p->values_cbegin()[i] : c->values_cbegin()[i];
        sx_check(r.idx[i] < L && (i == 0 || r.idx[i] > r.idx[i - 1]), "predictions are for distinct labels and can be sorted");
    }
}

extern "C" void h_evaluation() {
    L = sx_param("l", 3);
    N = 1;
    uint32 kind = sx_param("kind", 0);        // single output, partial
    bool partial = sx_param("partial", 0);
    uint32 majority[MAXL];
    uint32 numMajority = 0;
    for (uint32 l = 0; l < L; l++) {
        MAJ[l] = sx_param("fixed", 0) ? l % 2 : sx_choice("majority", 2);
        if (MAJ[l]) majority[numMajority++] = l;
    }
    NUM_INDICES = 0;
    for (uint32 l = 0; l < L; l++)
        if (!partial || sx_choice("considered", 2)) INDICES[NUM_INDICES++] = l;
    sx_assume(NUM_INDICES > 0);
    CompleteIndexVector complete(L);
    PartialIndexVector part(NUM_INDICES);
    for (uint32 p = 0; p < NUM_INDICES; p++) part.begin()[p] = INDICES[p];
    uint32 peak = 0;
    double maxLift = 0;
    std::unique_ptr<IDecomposableRuleEvaluationFactory> factoryPtr;
    double lift[MAXL + 1];
    if (kind == 0) {
        factoryPtr = std::make_unique<DecomposableSingleOutputRuleEvaluationFactory>(std::make_unique<FakeHeuristicFactory>());
    } else {
        std::unique_ptr<ILiftFunctionFactory> liftFactoryPtr = makeLift(sx_param("lift", 0), peak, maxLift);
        std::unique_ptr<ILiftFunction> liftPtr = liftFactoryPtr->create();
        for (uint32 n = 1; n <= L; n++) lift[n] = liftPtr->calculateLift(n);
        factoryPtr = std::make_unique<DecomposablePartialRuleEvaluationFactory>(std::make_unique<FakeHeuristicFactory>(), std::move(liftFactoryPtr));
    }
    std::unique_ptr<seco::IRuleEvaluation> evaluationPtr = partial ? factoryPtr->create(part) : factoryPtr->create(complete);
    DenseConfusionMatrixVector total(L, true);
    DenseConfusionMatrixVector covered(NUM_INDICES, true);
    for (uint32 l = 0; l < L; l++) {
        ConfusionMatrix& t = total.begin()[l];
        t.in = 100;
        t.ip = 7;
        t.rn = 9;
        t.rp = 11;
    }
    uint32 rounds = sx_param("rounds", 1);
    for (uint32 round = 0; round < rounds; round++) {
        double q[MAXL];
        for (uint32 p = 0; p < NUM_INDICES; p++) {
            ConfusionMatrix& c = covered.begin()[p];
            c.in = sx_f64("quality", 0, 100);
            q[p] = c.in - (100 - c.in);
            if (!sx_param("negative", 0)) sx_assume(q[p] >= 0);
            c.ip = 2;
            c.rn = 3;
            c.rp = 4;
        }
        Result r;
        extract(evaluationPtr->calculateScores(majority, majority + numMajority, total, covered), r);
        for (uint32 i = 0; i < r.num; i++) sx_check(r.val[i] == (MAJ[r.idx[i]] ? 0 : 1), "the minority label is predicted");
        double rq[MAXL];
        for (uint32 i = 0; i < r.num; i++) {
            bool found = false;
            for (uint32 p = 0; p < NUM_INDICES; p++)
                if (INDICES[p] == r.idx[i]) {
                    rq[i] = q[p];
                    found = true;
                }
            sx_check(found, "only considered labels are predicted");
        }
        if (kind == 0) {
            sx_check(r.num == 1, "a single label is predicted");
            sx_check(r.quality == rq[0], "quality of a single-output head");
            for (uint32 p = 0; p < NUM_INDICES; p++) sx_check(q[p] <= r.quality, "the label with the greatest quality is selected");
        } else {
            double sum = 0;
            for (uint32 i = 0; i < r.num; i++) sum += rq[i];
            sx_near(r.quality, sum / r.num * lift[r.num], "the quality of a head is the lifted mean of the qualities of its labels");
            if (partial) sx_check(r.num == NUM_INDICES, "all given labels are predicted");
            else {
                // no other set of labels is better
                for (uint32 m = 1; m < 1u << L; m++) {
                    uint32 n = 0;
                    double s = 0;
                    for (uint32 l = 0; l < L; l++)
                        if (m >> l & 1) {
                            s += q[l];
                            n++;
                        }
                    sx_check(s / n * lift[n] <= r.quality + 1e-9, "the best set of labels is predicted");
                }
            }
        }
    }
    sx_reach("end");
}

// The rule evaluations that are used for the default rule, for learning and for pruning
extern "C" void h_default() {
    N = sx_param("n", 2);
    L = sx_param("l", 2);
    makeLabels();
    bool sparse = sx_param("sparse", 0);
    bool partialHead = sx_choice("head", 2);
    static FMeasureConfig heuristic;
    static AccuracyConfig pruning;
    static NoLiftFunctionConfig lift;
    auto h = ReadableProperty<IHeuristicConfig>([]() -> IHeuristicConfig& { return heuristic; });
    auto p = ReadableProperty<IHeuristicConfig>([]() -> IHeuristicConfig& { return pruning; });
    auto lf = ReadableProperty<ILiftFunctionConfig>([]() -> ILiftFunctionConfig& { return lift; });
    std::unique_ptr<IClassificationStatisticsProviderFactory> factoryPtr;
    if (partialHead) factoryPtr = PartialHeadConfig(h, p, lf).createStatisticsProviderFactory(LABELS);
    else factoryPtr = SingleOutputHeadConfig(h, p).createStatisticsProviderFactory(LABELS);
    CContiguousView<const uint8> dense(Y, N, L);
    BinaryCsrView csr(IDX, PTR, N, L);
    std::unique_ptr<IStatisticsProvider> providerPtr = sparse ? factoryPtr->create(csr) : factoryPtr->create(dense);
    EqualWeightVector weights(N);
    CompleteIndexVector complete(L);
    {
        std::unique_ptr<IStatisticsSubset> subsetPtr = providerPtr->get().createSubset(complete, weights);
        for (uint32 i = 0; i < N; i++) subsetPtr->addToSubset(i);
        Result r;
        extract(subsetPtr->calculateScores(), r);
        sx_check(r.num == L, "the default rule predicts all labels");
        for (uint32 l = 0; l < L; l++) sx_check((r.val[l] != 0) == MAJ[l], "the default rule predicts the majority");
    }
    // a rule that covers a subset of the examples
    uint32 mode = sx_choice("mode", 2);
    if (mode == 0) providerPtr->switchToRegularRuleEvaluation();
    else providerPtr->switchToPruningRuleEvaluation();
    std::unique_ptr<IStatisticsSubset> subsetPtr = providerPtr->get().createSubset(complete, weights);
    bool cov[MAXE];
    for (uint32 i = 0; i < N; i++) {
        cov[i] = sx_choice("covers", 2);
        if (cov[i]) subsetPtr->addToSubset(i);
    }
    Result r;
    extract(subsetPtr->calculateScores(), r);
    double sum = 0;
    for (uint32 k = 0; k < r.num; k++) {
        uint32 l = r.idx[k];
        sx_check((r.val[k] != 0) != MAJ[l], "rules predict the minority");
        double tp = 0, fp = 0, fn = 0, tn = 0;
        for (uint32 i = 0; i < N; i++) {
            bool correct = (Y[i * L + l] != 0) != MAJ[l];
            (cov[i] ? (correct ? tp : fp) : (correct ? fn : tn))++;
        }
        double q;
        if (mode == 0) {
            double den = 1.0625 * tp + 0.0625 * fn + fp;   // beta = 0.25
            q = den > 0 ? 1.0625 * tp / den : 0;
        } else q = (tp + tn) / N;
        sum += q;
    }
    sx_near(r.quality, sum / r.num, "the configured heuristic is used");
    sx_reach("end");
}
