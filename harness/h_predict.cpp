// Predictions of boosted models
#include "predict_model.hpp"
#include "mlrl/boosting/losses/loss.hpp"
#include "mlrl/boosting/prediction/predictor_binary_example_wise.hpp"
#include "mlrl/boosting/prediction/predictor_binary_gfm.hpp"
#include "mlrl/boosting/prediction/predictor_binary_output_wise.hpp"
#include "mlrl/boosting/prediction/predictor_probability_marginalized.hpp"
#include "mlrl/boosting/prediction/predictor_probability_output_wise.hpp"
#include "mlrl/boosting/prediction/predictor_score_output_wise.hpp"
#include "mlrl/boosting/prediction/probability_function_chain_rule.hpp"
#include "mlrl/boosting/prediction/probability_function_logistic.hpp"
#include <cmath>

using namespace boosting;

// Calibration models that depend on the label and the label vector, respectively
class Marginal final : public IMarginalProbabilityCalibrationModel {
    public:

        static float64 calibrate(uint32 labelIndex, float64 p) {
            return labelIndex == 0 ? p * 0.5 : (labelIndex == 1 ? 0.25 + p * 0.5 : 1 - p);
        }

        float64 calibrateMarginalProbability(uint32 labelIndex, float64 p) const override {
            return calibrate(labelIndex, p);
        }
};

class Joint final : public IJointProbabilityCalibrationModel {
    public:

        static float64 calibrate(uint32 labelVectorIndex, float64 p) {
            return labelVectorIndex == 0 ? p * 0.5 : (labelVectorIndex == 1 ? 0.5 + p * 0.5 : p);
        }

        float64 calibrateJointProbability(uint32 labelVectorIndex, float64 p) const override {
            return calibrate(labelVectorIndex, p);
        }
};

// Scores are used as probabilities
class IdentityFunction final : public IMarginalProbabilityFunction {
    private:

        const IMarginalProbabilityCalibrationModel& model_;

    public:

        IdentityFunction(const IMarginalProbabilityCalibrationModel& model) : model_(model) {}

        float64 transformScoreIntoMarginalProbability(uint32 labelIndex, float64 score) const override {
            return model_.calibrateMarginalProbability(labelIndex, score);
        }
};

class IdentityFunctionFactory final : public IMarginalProbabilityFunctionFactory {
    public:

        std::unique_ptr<IMarginalProbabilityFunction> create(const IMarginalProbabilityCalibrationModel& model) const override {
            return std::make_unique<IdentityFunction>(model);
        }
};

// The distance of a label vector, depending on the scores
class Distance final : public IDistanceMeasure {
    public:

        static float64 distance(const bool* labels, const float64* scores, uint32 n) {
            float64 d = 0;
            for (uint32 i = 0; i < n; i++) d += labels[i] ? 1 - scores[i] : (i + 1) * scores[i];
            return d;
        }

        float64 measureDistance(uint32 labelVectorIndex, const LabelVector& labelVector, View<float64>::const_iterator scoresBegin,
                                View<float64>::const_iterator scoresEnd) const override {
            uint32 n = scoresEnd - scoresBegin;
            bool labels[MAXL] = {false, false, false, false};
            for (auto it = labelVector.cbegin(); it != labelVector.cend(); it++) labels[*it] = true;
            return distance(labels, scoresBegin, n);
        }
};

class DistanceFactory final : public IDistanceMeasureFactory {
    public:

        std::unique_ptr<IDistanceMeasure> createDistanceMeasure(const IMarginalProbabilityCalibrationModel&,
                                                                const IJointProbabilityCalibrationModel&) const override {
            return std::make_unique<Distance>();
        }
};

class LossConfig final : public IClassificationLossConfig {
    public:

        float64 threshold = 0;
        bool logistic = false;

        bool isDecomposable() const override { return true; }

        bool isSparse() const override { return false; }

        float64 getDefaultPrediction() const override { return threshold; }

        std::unique_ptr<IClassificationStatisticsProviderFactory> createClassificationStatisticsProviderFactory(
          const IFeatureMatrix&, const IRowWiseLabelMatrix&, const Blas&, const Lapack&, bool) const override {
            return nullptr;
        }

        std::unique_ptr<IClassificationEvaluationMeasureFactory> createClassificationEvaluationMeasureFactory() const override {
            return nullptr;
        }

        std::unique_ptr<IDistanceMeasureFactory> createDistanceMeasureFactory() const override {
            return std::make_unique<DistanceFactory>();
        }

        std::unique_ptr<IMarginalProbabilityFunctionFactory> createMarginalProbabilityFunctionFactory() const override {
            if (logistic) return std::make_unique<LogisticFunctionFactory>();
            return std::make_unique<IdentityFunctionFactory>();
        }

        std::unique_ptr<IJointProbabilityFunctionFactory> createJointProbabilityFunctionFactory() const override {
            return std::make_unique<ChainRuleFactory>(this->createMarginalProbabilityFunctionFactory());
        }
};

enum Kind { SCORE, BINARY_OUTPUT_WISE, BINARY_EXAMPLE_WISE, BINARY_GFM, PROBABILITY_OUTPUT_WISE, PROBABILITY_MARGINALIZED };

struct Oracle {
        uint32 kind, l;
        bool prob, cal, logistic;
        float64 threshold;
        uint32 v;               // number of label vectors
        bool labels[4][MAXL];
        uint32 frequency[4];

        float64 marginal(uint32 j, float64 score) const {
            float64 p = logistic ? 1 / (1 + std::exp(-score)) : score;
            return cal ? Marginal::calibrate(j, p) : p;
        }

        float64 joint(uint32 k, const float64* s) const {
            float64 p = 1;
            for (uint32 j = 0; j < l; j++) p *= labels[k][j] ? marginal(j, s[j]) : 1 - marginal(j, s[j]);
            return cal ? Joint::calibrate(k, p) : p;
        }

        // Tests whether a binary prediction is correct
        bool test(const float64* s, const bool* y) const {
            if (kind == BINARY_OUTPUT_WISE) {
                bool ok = true;
                for (uint32 j = 0; j < l; j++) ok &= y[j] == (prob ? marginal(j, s[j]) > 0.5 : s[j] > threshold);
                return ok;
            }
            if (v == 0) {
                bool ok = true;
                for (uint32 j = 0; j < l; j++) ok &= !y[j];
                return ok;
            }
            if (kind == BINARY_EXAMPLE_WISE) {
                float64 d[4];
                for (uint32 k = 0; k < v; k++) d[k] = prob ? 1 - joint(k, s) : Distance::distance(labels[k], s, l);
                // the label vector must be known, no other one may be closer, or equally close and more frequent
                for (uint32 k = 0; k < v; k++) {
                    bool same = true;
                    for (uint32 j = 0; j < l; j++) same = same && labels[k][j] == y[j];
                    if (same) {
                        bool best = true;
                        for (uint32 q = 0; q < v; q++) best &= !(d[q] < d[k] || (d[q] == d[k] && frequency[q] > frequency[k]));
                        return best;
                    }
                }
                return false;
            }
            // GFM: no other label vector has a greater expected F1-measure (joint probabilities are not normalized here)
            float64 p[4];
            for (uint32 k = 0; k < v; k++) p[k] = joint(k, s);
            auto quality = [&](const bool* z) {
                float64 f = 0;
                for (uint32 k = 0; k < v; k++) {
                    uint32 both = 0, sum = 0;
                    for (uint32 j = 0; j < l; j++) {
                        both += labels[k][j] && z[j];
                        sum += labels[k][j] + z[j];
                    }
                    f += (sum == 0 ? 1.0 : 2.0 * both / sum) * p[k];
                }
                return f;
            };
            float64 q = quality(y);
            bool ok = true;
            for (uint32 mask = 0; mask < (1u << l); mask++) {
                bool z[MAXL];
                for (uint32 j = 0; j < l; j++) z[j] = mask >> j & 1;
                ok &= !(quality(z) > q + 1e-9);
            }
            return ok;
        }

        float64 probability(uint32 j, const float64* s) const {
            if (kind == PROBABILITY_OUTPUT_WISE) return marginal(j, s[j]);
            float64 sum = 0, p = 0;
            for (uint32 k = 0; k < v; k++) {
                float64 q = joint(k, s);
                sum += q;
                if (labels[k][j]) p += q;
            }
            return sum > 0 ? p / sum : 0;
        }
};

extern "C" void h_predict() {
    Oracle o;
    o.kind = sx_param("kind", 0);
    o.prob = sx_param("prob", 0) || o.kind >= BINARY_GFM;
    o.cal = sx_param("cal", 0);
    o.logistic = sx_param("logistic", 0);
    bool unit = o.prob && !o.logistic;   // the scores are probabilities
    Model m;
    makeModel(m, true, false, unit ? 0 : -2, unit ? 1 : 2);
    o.l = m.l;
    o.v = 0;
    o.threshold = sx_param("half", 0) ? 0.5 : 0;
    bool sparse = sx_param("sparse", 0);
    uint32 inc = sx_param("inc", 0);
    Threads threads;
    threads.num = sx_param("threads", 1);
    ReadableProperty<IMultiThreadingConfig> threadProp([&]() -> IMultiThreadingConfig& { return threads; });
    LossConfig loss;
    loss.threshold = o.threshold;
    loss.logistic = o.logistic;
    ReadableProperty<IClassificationLossConfig> lossProp([&]() -> IClassificationLossConfig& { return loss; });
    Marginal marginal;
    Joint joint;
    // label vectors
    std::unique_ptr<ILabelVectorSet> setPtr = createLabelVectorSet();
    bool needsSet = o.kind == BINARY_EXAMPLE_WISE || o.kind == BINARY_GFM || o.kind == PROBABILITY_MARGINALIZED;
    if (needsSet) {
        o.v = sx_param("v", 2);
        uint32 prev[4];
        for (uint32 k = 0; k < o.v; k++) {
            uint32 mask = sx_choice("labelVector", 1u << m.l);
            for (uint32 q = 0; q < k; q++) sx_assume(prev[q] != mask);
            prev[k] = mask;
            uint32 card = 0;
            for (uint32 j = 0; j < m.l; j++) {
                o.labels[k][j] = mask >> j & 1;
                card += mask >> j & 1;
            }
            std::unique_ptr<LabelVector> vectorPtr = std::make_unique<LabelVector>(card);
            uint32 p = 0;
            for (uint32 j = 0; j < m.l; j++) {
                if (mask >> j & 1) vectorPtr->begin()[p++] = j;
            }
            o.frequency[k] = o.kind == BINARY_EXAMPLE_WISE ? sx_u32("frequency", 1, 3) : 1;
            setPtr->addLabelVector(std::move(vectorPtr), o.frequency[k]);
        }
    }
    uint32 maxRules = sx_param("limit", 0) ? sx_choice("maxRules", m.num + 2) : 0;
    uint32 order[MAXR];
    uint32 count = rulesToApply(m, maxRules, order);
    // expected scores if the first k rules are applied
    auto scores = [&](uint32 i, uint32 k, float64* s) {
        for (uint32 j = 0; j < m.l; j++) s[j] = 0;
        for (uint32 q = 0; q < k; q++) {
            uint32 r = order[q];
            if (m.covers[i][r]) {
                for (uint32 j = 0; j < m.l; j++) {
                    if (m.affects[r][j]) s[j] += m.value[r][j];
                }
            }
        }
        if (unit) {
            for (uint32 j = 0; j < m.l; j++) sx_assume(s[j] >= 0 && s[j] <= 1);
        }
    };
    auto checkReal = [&](const float64* values, uint32 k, bool isScore) {
        for (uint32 i = 0; i < m.n; i++) {
            float64 s[MAXL];
            scores(i, k, s);
            for (uint32 j = 0; j < m.l; j++) {
                float64 actual = values[i * m.l + j];
                if (isScore) sx_near(actual, s[j], "the score is the sum of the predictions of all covering rules");
                else {
                    sx_near(actual, o.probability(j, s), "the probability is the one obtained from the scores");
                    sx_check(actual >= -1e-9 && actual <= 1 + 1e-9, "a probability is between 0 and 1");
                }
            }
        }
    };
    auto checkDense = [&](const uint8* values, uint32 k) {
        for (uint32 i = 0; i < m.n; i++) {
            float64 s[MAXL];
            scores(i, k, s);
            bool y[MAXL];
            for (uint32 j = 0; j < m.l; j++) {
                sx_check(values[i * m.l + j] <= 1, "a binary prediction is 0 or 1");
                y[j] = values[i * m.l + j];
            }
            sx_check(o.test(s, y), "the predicted labels are those obtained from the scores");
        }
    };
    auto checkSparse = [&](BinarySparsePredictionMatrix& matrix, uint32 k) {
        const uint32* indptr = matrix.getIndptr();
        const uint32* indices = matrix.getIndices();
        sx_check(indptr[0] == 0 && matrix.getNumRows() == m.n && matrix.getNumCols() == m.l, "shape of a sparse prediction");
        for (uint32 i = 0; i < m.n; i++) {
            float64 s[MAXL];
            scores(i, k, s);
            bool y[MAXL];
            for (uint32 j = 0; j < m.l; j++) y[j] = false;
            sx_check(indptr[i] <= indptr[i + 1] && indptr[i + 1] <= m.n * m.l, "row pointers are ascending");
            for (uint32 p = indptr[i]; p < indptr[i + 1]; p++) {
                sx_check(indices[p] < m.l && (p == indptr[i] || indices[p - 1] < indices[p]), "indices are valid and sorted");
                y[indices[p]] = true;
            }
            sx_check(o.test(s, y), "the (sparse) predicted labels are those obtained from the scores");
        }
    };
    // predicts in one step, or incrementally
    auto run = [&](auto& predictor, auto check) {
        if (!inc) {
            auto matrixPtr = predictor.predict(maxRules);
            sx_check(matrixPtr->getNumRows() == m.n && matrixPtr->getNumCols() == m.l, "one prediction per example and output");
            check(*matrixPtr, count);
            if (sx_param("again", 0)) check(*predictor.predict(maxRules), count);
        } else {
            sx_check(predictor.canPredictIncrementally(), "incremental predictions are supported");
            auto incPtr = predictor.createIncrementalPredictor(maxRules);
            uint32 done = 0;
            for (uint32 step = 0; step < inc; step++) {
                sx_check(incPtr->getNumNext() == count - done && incPtr->hasNext() == (done < count), "number of remaining rules");
                uint32 size = sx_choice("stepSize", count + 2);
                auto& matrix = incPtr->applyNext(size);
                done = done + size < count ? done + size : count;
                check(matrix, done);
            }
            sx_check(incPtr->getNumNext() == count - done, "number of remaining rules in the end");
        }
        sx_reach("end");
    };
    const IRowWiseFeatureMatrix& x = *m.featuresPtr;
    auto realScores = [&](DensePredictionMatrix<float64>& p, uint32 k) { checkReal(p.get(), k, true); };
    auto realProbabilities = [&](DensePredictionMatrix<float64>& p, uint32 k) { checkReal(p.get(), k, false); };
    auto dense = [&](DensePredictionMatrix<uint8>& p, uint32 k) { checkDense(p.get(), k); };
    auto binary = [&](auto& config) {
        if (sparse) {
            auto f = config.createSparsePredictorFactory(x, m.l);
            auto p = x.createSparseBinaryPredictor(*f, *m.listPtr, *setPtr, marginal, joint, m.l);
            run(*p, checkSparse);
        } else {
            auto f = config.createPredictorFactory(x, m.l);
            auto p = x.createBinaryPredictor(*f, *m.listPtr, *setPtr, marginal, joint, m.l);
            run(*p, dense);
        }
    };
    if (o.kind == SCORE) {
        OutputWiseScorePredictorConfig config(threadProp);
        auto f = config.createPredictorFactory(x, m.l);
        auto p = x.createScorePredictor(*f, *m.listPtr, *setPtr, m.l);
        run(*p, realScores);
    } else if (o.kind == BINARY_OUTPUT_WISE) {
        OutputWiseBinaryPredictorConfig config(lossProp, threadProp);
        config.setBasedOnProbabilities(o.prob);
        config.setUseProbabilityCalibrationModel(o.cal);
        sx_check(config.isBasedOnProbabilities() == o.prob && config.isProbabilityCalibrationModelUsed() == o.cal, "configuration");
        binary(config);
    } else if (o.kind == BINARY_EXAMPLE_WISE) {
        ExampleWiseBinaryPredictorConfig config(lossProp, threadProp);
        config.setBasedOnProbabilities(o.prob);
        config.setUseProbabilityCalibrationModel(o.cal);
        sx_check(config.isBasedOnProbabilities() == o.prob && config.isProbabilityCalibrationModelUsed() == o.cal, "configuration");
        binary(config);
    } else if (o.kind == BINARY_GFM) {
        GfmBinaryPredictorConfig config(lossProp, threadProp);
        config.setUseProbabilityCalibrationModel(o.cal);
        binary(config);
    } else if (o.kind == PROBABILITY_OUTPUT_WISE) {
        OutputWiseProbabilityPredictorConfig config(lossProp, threadProp);
        config.setUseProbabilityCalibrationModel(o.cal);
        auto f = config.createPredictorFactory(x, m.l);
        auto p = x.createProbabilityPredictor(*f, *m.listPtr, *setPtr, marginal, joint, m.l);
        run(*p, realProbabilities);
    } else {
        MarginalizedProbabilityPredictorConfig config(lossProp, threadProp);
        config.setUseProbabilityCalibrationModel(o.cal);
        auto f = config.createPredictorFactory(x, m.l);
        auto p = x.createProbabilityPredictor(*f, *m.listPtr, *setPtr, marginal, joint, m.l);
        run(*p, realProbabilities);
    }
}
