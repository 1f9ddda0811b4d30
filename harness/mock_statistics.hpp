// Statistics that record which examples contribute to a score. The score of a set of examples is the set itself (as a bit
// mask); it is up to the harness to decide which of the scores is considered to be the best.
#pragma once
#include "sx.hpp"
#include "mlrl/common/data/vector_dok_binary.hpp"
#include "mlrl/common/indices/index_vector_complete.hpp"
#include "mlrl/common/indices/index_vector_partial.hpp"
#include "mlrl/common/rule_evaluation/score_vector_dense.hpp"
#include "mlrl/common/rule_refinement/prediction_complete.hpp"
#include "mlrl/common/rule_refinement/prediction_partial.hpp"
#include "mlrl/common/sampling/weight_vector_bit.hpp"
#include "mlrl/common/sampling/weight_vector_dense.hpp"
#include "mlrl/common/sampling/weight_vector_equal.hpp"
#include "mlrl/common/sampling/weight_vector_out_of_sample.hpp"
#include "mlrl/common/statistics/statistics.hpp"
#include "mlrl/common/statistics/statistics_provider.hpp"
#include "mlrl/common/statistics/statistics_weighted.hpp"

#include <memory>
#include <stdexcept>

static const uint32 MAXN = 8;

struct Recorder {
        // Decides about the quality of a score (called for each evaluation)
        double (*quality)(uint32 mask) = nullptr;
        uint32 masks[256];
        uint32 numMasks = 0;
        // The statistics an update has been applied to or reverted for
        int32 applied[MAXN] = {0, 0, 0, 0, 0, 0, 0, 0};

        bool has(uint32 m) const {
            for (uint32 i = 0; i < numMasks; i++)
                if (masks[i] == m) return true;
            return false;
        }
};

static Recorder REC;

struct Counts {
        int32 c[MAXN] = {0, 0, 0, 0, 0, 0, 0, 0};
};

static inline uint32 toMask(const Counts& c, uint32 n) {
    uint32 m = 0;
    for (uint32 i = 0; i < n; i++) {
        sx_check(c.c[i] == 0 || c.c[i] == 1, "each example contributes to a score at most once");
        if (c.c[i] > 0) m |= 1u << i;
    }
    return m;
}

struct Weights {
        uint32 n;
        uint32 w[MAXN];
};

template<typename W>
static inline Weights toWeights(const W& weights, uint32 n) {
    Weights r;
    r.n = n;
    for (uint32 i = 0; i < n; i++) r.w[i] = weights[i];
    return r;
}

// A subset of the available examples
template<typename IndexVector>
class MockSubset final : public IResettableStatisticsSubset {
    public:
        Weights w;
        Counts total, sub, acc;
        DenseScoreVector<IndexVector> scores;

        MockSubset(const Weights& w, const Counts& total, const IndexVector& indices)
            : w(w), total(total), scores(indices, true) {}

        bool hasNonZeroWeight(uint32 i) const override {
            sx_check(i < w.n, "examples are referred to by valid indices");
            return w.w[i] != 0;
        }
        void addToSubset(uint32 i) override {
            sx_check(i < w.n, "examples are referred to by valid indices");
            if (w.w[i]) {
                sub.c[i]++;
            }
        }
        const IScoreVector& eval(const Counts& c) {
            uint32 m = toMask(c, w.n);
            for (uint32 i = 0; i < scores.getNumElements(); i++) scores.values_begin()[i] = m;
            scores.quality = REC.quality ? REC.quality(m) : 0;
            if (REC.numMasks < 256) REC.masks[REC.numMasks++] = m;
            return scores;
        }
        const IScoreVector& calculateScores() override { return eval(sub); }
        bool reset = false;
        void resetSubset() override {
            reset = true;
            for (uint32 i = 0; i < w.n; i++) acc.c[i] += sub.c[i];
            sub = Counts();
        }
        const IScoreVector& calculateScoresAccumulated() override {
            sx_check(reset, "accumulated scores are only available after a subset has been reset");
            return eval(acc);
        }
        Counts minus(const Counts& a, const Counts& b) const {
            Counts r;
            for (uint32 i = 0; i < w.n; i++) r.c[i] = a.c[i] - b.c[i];
            return r;
        }
        const IScoreVector& calculateScoresUncovered() override { return eval(minus(total, sub)); }
        const IScoreVector& calculateScoresUncoveredAccumulated() override {
            sx_check(reset, "accumulated scores are only available after a subset has been reset");
            return eval(minus(total, acc));
        }
};

class MockWeighted final : public IWeightedStatistics {
    public:
        Weights w;
        uint32 numOutputs;
        Counts total;

        MockWeighted(const Weights& w, uint32 numOutputs) : w(w), numOutputs(numOutputs) {
            for (uint32 i = 0; i < w.n; i++) total.c[i] = w.w[i] ? 1 : 0;
        }
        MockWeighted(const MockWeighted& o) : w(o.w), numOutputs(o.numOutputs), total(o.total) {}
        uint32 getNumStatistics() const override { return w.n; }
        uint32 getNumOutputs() const override { return numOutputs; }
        std::unique_ptr<IWeightedStatistics> copy() const override { return std::make_unique<MockWeighted>(*this); }
        void resetCoveredStatistics() override { total = Counts(); }
        void addCoveredStatistic(uint32 i) override {
            sx_check(i < w.n, "examples are referred to by valid indices");
            if (w.w[i]) total.c[i]++;
        }
        void removeCoveredStatistic(uint32 i) override {
            sx_check(i < w.n, "examples are referred to by valid indices");
            if (w.w[i]) total.c[i]--;
        }
        template<typename I>
        std::unique_ptr<IResettableStatisticsSubset> make(const BinaryDokVector& excluded, const I& indices) const {
            Counts t = total;
            // as in the statistics of the actual learners: missing examples are subtracted from the total
            for (auto it = excluded.indices_cbegin(); it != excluded.indices_cend(); it++) {
                uint32 i = *it;
                sx_check(i < w.n, "examples are referred to by valid indices");
                if (w.w[i]) t.c[i]--;
            }
            return std::make_unique<MockSubset<I>>(w, t, indices);
        }
        std::unique_ptr<IResettableStatisticsSubset> createSubset(const BinaryDokVector& e, const CompleteIndexVector& i) const override {
            return make(e, i);
        }
        std::unique_ptr<IResettableStatisticsSubset> createSubset(const BinaryDokVector& e, const PartialIndexVector& i) const override {
            return make(e, i);
        }
};

class MockUpdate final : public IStatisticsUpdate {
    public:
        void applyPrediction(uint32 i) override { REC.applied[i]++; }
        void revertPrediction(uint32 i) override { REC.applied[i]--; }
};

class MockStatistics final : public IStatistics {
    public:
        uint32 n, numOutputs;

        MockStatistics(uint32 n, uint32 numOutputs) : n(n), numOutputs(numOutputs) {}
        uint32 getNumStatistics() const override { return n; }
        uint32 getNumOutputs() const override { return numOutputs; }
        std::unique_ptr<IStatisticsUpdate> createUpdate(const CompletePrediction&) override { return std::make_unique<MockUpdate>(); }
        std::unique_ptr<IStatisticsUpdate> createUpdate(const PartialPrediction&) override { return std::make_unique<MockUpdate>(); }
        double (*evaluation)(uint32) = nullptr;
        float64 evaluatePrediction(uint32 i) const override { return evaluation ? evaluation(i) : 0; }
        template<typename I, typename W>
        std::unique_ptr<IStatisticsSubset> make(const I& indices, const W& weights) const {
            Counts t;
            return std::make_unique<MockSubset<I>>(toWeights(weights, n), t, indices);
        }
#define MOCK_SUBSET(W)                                                                                               \
    std::unique_ptr<IStatisticsSubset> createSubset(const CompleteIndexVector& i, const W& w) const override { return make(i, w); } \
    std::unique_ptr<IStatisticsSubset> createSubset(const PartialIndexVector& i, const W& w) const override { return make(i, w); }
        MOCK_SUBSET(EqualWeightVector)
        MOCK_SUBSET(BitWeightVector)
        MOCK_SUBSET(DenseWeightVector<uint32>)
        MOCK_SUBSET(OutOfSampleWeightVector<EqualWeightVector>)
        MOCK_SUBSET(OutOfSampleWeightVector<BitWeightVector>)
        MOCK_SUBSET(OutOfSampleWeightVector<DenseWeightVector<uint32>>)
        std::unique_ptr<IWeightedStatistics> createWeightedStatistics(const EqualWeightVector& w) const override {
            return std::make_unique<MockWeighted>(toWeights(w, n), numOutputs);
        }
        std::unique_ptr<IWeightedStatistics> createWeightedStatistics(const BitWeightVector& w) const override {
            return std::make_unique<MockWeighted>(toWeights(w, n), numOutputs);
        }
        std::unique_ptr<IWeightedStatistics> createWeightedStatistics(const DenseWeightVector<uint32>& w) const override {
            return std::make_unique<MockWeighted>(toWeights(w, n), numOutputs);
        }
};

class MockStatisticsProvider final : public IStatisticsProvider {
    public:
        mutable MockStatistics s;
        uint32 state = 0;

        MockStatisticsProvider(uint32 n, uint32 numOutputs) : s(n, numOutputs) {}
        IStatistics& get() const override { return s; }
        void switchToRegularRuleEvaluation() override { state = 1; }
        void switchToPruningRuleEvaluation() override { state = 2; }
};
