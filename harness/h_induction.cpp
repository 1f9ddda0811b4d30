// Rule induction: greedy top-down search, beam search, comparison of refinements, pruning and default rules
#include "mlrl/common/input/feature_vector.hpp"
#include "mlrl/common/input/output_matrix.hpp"
#include "mlrl/common/input/feature_matrix.hpp"
#include "mlrl/common/model/condition_list.hpp"
#include "mlrl/common/model/head_complete.hpp"
#include "mlrl/common/model/model_builder.hpp"
#include "mlrl/common/multi_threading/multi_threading.hpp"
#include "mlrl/common/post_processing/post_processor.hpp"
#include "mlrl/common/rule_induction/rule_induction_top_down_beam_search.hpp"
#include "mlrl/common/rule_induction/rule_induction_top_down_greedy.hpp"
#include "mlrl/common/rule_pruning/rule_pruning_irep.hpp"
#include "mlrl/common/rule_pruning/rule_pruning_no.hpp"
#include "mlrl/common/rule_refinement/coverage_mask.hpp"
#include "mlrl/common/rule_refinement/feature_space.hpp"
#include "mlrl/common/rule_refinement/feature_subspace.hpp"
#include "mlrl/common/rule_refinement/refinement_comparator_fixed.hpp"
#include "mlrl/common/rule_refinement/refinement_comparator_single.hpp"
#include "mlrl/common/rule_refinement/rule_refinement_statistics_based.hpp"
#include "mlrl/common/sampling/feature_sampling.hpp"
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/partition_single.hpp"
#include "mock_statistics.hpp"

static const uint32 MAXF = 2, MAXC = 64;
static uint32 N, F, L;
static uint32 VAL[MAXF][MAXN];   // feature values
static uint32 W[MAXN];           // weights of examples
static bool HOLDOUT[MAXN];
static uint32 MIN_COVERAGE;
static uint32 FEATURES;          // features that are available (as a bit mask)

// The quality of a rule depends on the examples it covers and the number of outputs it predicts for
static double Q[256];
static bool KNOWN[256];

static double quality(uint32 mask) {
    if (!KNOWN[mask]) {
        KNOWN[mask] = true;
        Q[mask] = sx_f64("quality", -4, 4);
        for (uint32 m = 0; m < 256; m++)
            if (m != mask && KNOWN[m] && sx_param("distinct", 0)) sx_assume(Q[m] != Q[mask]);
    }
    return Q[mask];
}

static bool better(double a, double b) {
    return a > b;
}

static const double MIN_QUALITY = 0;

static RuleCompareFunction compareFunction() {
    return RuleCompareFunction([](const Quality& a, const Quality& b) { return better(a.quality, b.quality); }, MIN_QUALITY);
}

static uint32 count(uint32 m) {
    uint32 n = 0;
    for (; m; m &= m - 1) n++;
    return n;
}

static bool satisfied(uint32 f, bool leq, uint32 t, uint32 i) {
    return leq ? VAL[f][i] <= t : VAL[f][i] > t;
}

static uint32 maskOf(const Condition& c) {
    uint32 m = 0;
    sx_check(c.featureIndex < F && (c.comparator == NUMERICAL_LEQ || c.comparator == NUMERICAL_GR), "conditions of a rule are refinements that have been found");
    uint32 t = (uint32) std::get<float32>(c.threshold);
    for (uint32 i = 0; i < N; i++)
        if (satisfied(c.featureIndex, c.comparator == NUMERICAL_LEQ, t, i)) m |= 1u << i;
    return m;
}

static uint32 TRAINING, ALL;     // masks: examples with non-zero weights, all examples

// The possible refinements of a rule that covers given examples
struct Candidate {
        uint32 f, t;
        bool leq;
        uint32 mask;   // examples with non-zero weights that are covered
        uint32 all;    // all examples that are covered
};

static uint32 candidates(uint32 covered, Candidate* c, uint32 f) {
    uint32 num = 0;
    for (uint32 t = 0; t < N; t++)
        for (uint32 side = 0; side < 2; side++) {
            uint32 all = 0;
            bool exists = false;
            for (uint32 i = 0; i < N; i++) {
                if (!(covered >> i & 1)) continue;
                if (VAL[f][i] == t && W[i]) exists = true;
                if (satisfied(f, side == 0, t, i)) all |= 1u << i;
            }
            uint32 m = all & TRAINING, rest = covered & TRAINING & ~m;
            if (!exists || !rest || !m || count(m) < MIN_COVERAGE) continue;
            c[num++] = {f, t, side == 0, m, all};
        }
    return num;
}

// What happened while learning a rule
static uint32 APPLIED_MASK, NUM_APPLIED, NUM_RECALCULATED, RECALCULATED_MASK;
static double APPLIED_VALUE;
static uint32 NUM_SEARCHES;
static bool DYNAMIC;             // whether heads predict for one of the outputs
static const IStatisticsProvider* PROVIDER;

class FeatVec final : public IFeatureVector {
    public:
        uint32 f;
        uint32 covered;

        FeatVec(uint32 f, uint32 covered) : f(f), covered(covered) {}

        std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubset(const IWeightedStatistics& s, const CompleteIndexVector& o) const override {
            return s.createSubset(AllocatedBinaryDokVector(), o);
        }
        std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubset(const IWeightedStatistics& s, const PartialIndexVector& o) const override {
            return s.createSubset(AllocatedBinaryDokVector(), o);
        }
        template<typename C>
        void search(C& comparator, const IWeightedStatistics& s, const IIndexVector& o, uint32 numExamples, uint32 minCoverage, Refinement& r) const {
            sx_check(numExamples == count(covered & TRAINING), "the number of examples that are covered by a rule is known");
            sx_check(minCoverage == MIN_COVERAGE, "refinements cover the minimum number of examples");
            sx_check(r.featureIndex == f, "refinements refer to the correct features");
            sx_check(FEATURES >> f & 1, "only sampled features are used");
            Candidate c[MAXC];
            uint32 num = candidates(covered, c, f);
            for (uint32 k = 0; k < num; k++) {
                std::unique_ptr<IResettableStatisticsSubset> subset;
                PartialIndexVector single(1);
                if (DYNAMIC && o.getNumElements() > 1) {
                    // heads that predict for a single output, depending on the covered examples
                    single.begin()[0] = count(c[k].mask) & 1;
                    subset = createStatisticsSubset(s, single);
                } else
                    o.visit([&](const PartialIndexVector& v) { subset = createStatisticsSubset(s, v); },
                            [&](const CompleteIndexVector& v) { subset = createStatisticsSubset(s, v); });
                for (uint32 i = 0; i < N; i++)
                    if (c[k].mask >> i & 1) subset->addToSubset(i);
                const IScoreVector& scores = subset->calculateScores();
                if (comparator.isImprovement(scores)) {
                    r.comparator = c[k].leq ? NUMERICAL_LEQ : NUMERICAL_GR;
                    r.threshold = (float32) c[k].t;
                    r.numCovered = count(c[k].mask);
                    r.start = 0;
                    r.end = 0;
                    r.inverse = false;
                    comparator.pushRefinement(r, scores);
                }
            }
        }
        void searchForRefinement(SingleRefinementComparator& c, const IWeightedStatistics& s, const IIndexVector& o, uint32 n, uint32 m, Refinement& r) const override {
            search(c, s, o, n, m, r);
        }
        void searchForRefinement(FixedRefinementComparator& c, const IWeightedStatistics& s, const IIndexVector& o, uint32 n, uint32 m, Refinement& r) const override {
            search(c, s, o, n, m, r);
        }
        void updateCoverageMaskAndStatistics(const Interval&, CoverageMask&, uint32, IWeightedStatistics&) const override {}
        std::unique_ptr<IFeatureVector> createFilteredFeatureVector(std::unique_ptr<IFeatureVector>&, const Interval&) const override { return nullptr; }
        std::unique_ptr<IFeatureVector> createFilteredFeatureVector(std::unique_ptr<IFeatureVector>&, const CoverageMask&) const override { return nullptr; }
};

class Subspace final : public IFeatureSubspace {
    public:
        MockWeighted statistics;
        CoverageMask coverage;
        uint32 covered;

        static Weights weights() {
            Weights w;
            w.n = N;
            for (uint32 i = 0; i < N; i++) w.w[i] = W[i];
            return w;
        }
        Subspace() : statistics(weights(), L), coverage(N), covered(ALL) {}
        Subspace(const Subspace& o) : statistics(o.statistics), coverage(o.coverage), covered(o.covered) {}
        std::unique_ptr<IFeatureSubspace> copy() const override { return std::make_unique<Subspace>(*this); }
        class Callback final : public ICallback {
            public:
                const Subspace& s;
                FeatVec v;

                Callback(const Subspace& s, uint32 f) : s(s), v(f, s.covered) {}
                Result invoke() override { return Result(s.statistics, v); }
        };
        std::unique_ptr<ICallback> createCallback(uint32 f) override { return std::make_unique<Callback>(*this, f); }
        void update(uint32 m) {
            covered = m;
            coverage.reset();
            coverage.indicatorValue = 1;
            for (uint32 i = 0; i < N; i++) coverage.begin()[i] = m >> i & 1;
        }
        void filterSubspace(const Condition& c) override { update(covered & maskOf(c)); }
        void resetSubspace() override { update(ALL); }
        uint32 getNumCovered() const override { return count(covered & TRAINING); }
        const CoverageMask& getCoverageMask() const override { return coverage; }
        static uint32 toMask(const CoverageMask& m) {
            uint32 r = 0;
            for (uint32 i = 0; i < N; i++)
                if (m[i]) r |= 1u << i;
            return r;
        }
        static Quality outOfSample(const CoverageMask& m) {
            uint32 r = 0;
            for (uint32 i = 0; i < N; i++)
                if (m[i] && !W[i] && !HOLDOUT[i]) r |= 1u << i;
            sx_check(((const MockStatisticsProvider*) PROVIDER)->state == 2, "rules are pruned based on a different kind of quality");
            return Quality(quality(r));
        }
        static void recalculate(const CoverageMask& m, IPrediction& head) {
            NUM_RECALCULATED++;
            RECALCULATED_MASK = toMask(m);
            sx_check(((const MockStatisticsProvider*) PROVIDER)->state == 1, "predictions are recalculated based on the regular kind of scores");
            double values[4];
            for (uint32 l = 0; l < head.getNumElements(); l++) values[l] = RECALCULATED_MASK + 1000;
            head.set((View<float64>::const_iterator) values, values + head.getNumElements());
        }
        Quality evaluateOutOfSample(const SinglePartition&, const CoverageMask& m, const IPrediction&) const override { return outOfSample(m); }
        Quality evaluateOutOfSample(const BiPartition&, const CoverageMask& m, const IPrediction&) const override { return outOfSample(m); }
        void recalculatePrediction(const SinglePartition&, const CoverageMask& m, IPrediction& h) const override { recalculate(m, h); }
        void recalculatePrediction(const BiPartition&, const CoverageMask& m, IPrediction& h) const override { recalculate(m, h); }
        static double valueOf(const IPrediction& p) {
            const CompletePrediction* cp = dynamic_cast<const CompletePrediction*>(&p);
            const PartialPrediction* pp = dynamic_cast<const PartialPrediction*>(&p);
            double v = cp ? cp->values_cbegin()[0] : pp->values_cbegin()[0];
            for (uint32 l = 0; l < p.getNumElements(); l++) sx_check((cp ? cp->values_cbegin()[l] : pp->values_cbegin()[l]) == v, "the scores of a head belong together");
            return v;
        }
        void applyPrediction(const IPrediction& p) override {
            NUM_APPLIED++;
            APPLIED_MASK = covered;
            APPLIED_VALUE = valueOf(p);
        }
        void revertPrediction(const IPrediction&) override { sx_check(false, "no predictions are reverted"); }
};

class Space final : public IFeatureSpace {
    public:
        MockStatisticsProvider provider;

        Space() : provider(N, L) { PROVIDER = &provider; }
        std::unique_ptr<IFeatureSubspace> createSubspace(const EqualWeightVector&) override { return std::make_unique<Subspace>(); }
        std::unique_ptr<IFeatureSubspace> createSubspace(const BitWeightVector&) override { return std::make_unique<Subspace>(); }
        std::unique_ptr<IFeatureSubspace> createSubspace(const DenseWeightVector<uint32>&) override { return std::make_unique<Subspace>(); }
        IStatisticsProvider& getStatisticsProvider() const override { return const_cast<MockStatisticsProvider&>(provider); }
};

class Sampling final : public IFeatureSampling {
    public:
        PartialIndexVector indices;

        Sampling() : indices(count(FEATURES)) {
            uint32 n = 0;
            for (uint32 f = 0; f < F; f++)
                if (FEATURES >> f & 1) indices.begin()[n++] = f;
        }
        const IIndexVector& sample() override {
            NUM_SEARCHES++;
            return indices;
        }
        std::unique_ptr<IFeatureSampling> createBeamSearchFeatureSampling(bool resample) override { return std::make_unique<Sampling>(); }
};

class Processor final : public IPostProcessor {
    public:
        void postProcess(View<float64>::iterator begin, View<float64>::iterator end) const override {
            for (; begin != end; begin++) *begin = 2 * *begin;
        }
};
class ProcessorFactory final : public IPostProcessorFactory {
    public:
        std::unique_ptr<IPostProcessor> create() const override { return std::make_unique<Processor>(); }
};
class ProcessorConfig final : public IPostProcessorConfig {
    public:
        std::unique_ptr<IPostProcessorFactory> createPostProcessorFactory() const override { return std::make_unique<ProcessorFactory>(); }
};

// Delegates to the actual implementation, but remembers the rule before it is pruned
static uint32 GROWN, PREFIX[MAXN * MAXF + 1], PRUNED_AT, MASK_AFTER_PRUNING;
static bool PRUNING;
class Pruning final : public IRulePruning {
    public:
        std::unique_ptr<IRulePruning> delegate;

        Pruning(std::unique_ptr<IRulePruning> d) : delegate(std::move(d)) {}
        std::unique_ptr<CoverageMask> prune(IFeatureSubspace& s, IPartition& p, ConditionList& c, const IPrediction& h) const override {
            GROWN = c.getNumConditions();
            PREFIX[0] = ALL;
            uint32 k = 0;
            for (auto it = c.cbegin(); it != c.cend(); it++, k++) PREFIX[k + 1] = PREFIX[k] & maskOf(*it);
            PRUNING = true;
            return delegate->prune(s, p, c, h);
        }
};
class PruningFactory final : public IRulePruningFactory {
    public:
        std::unique_ptr<IRulePruningFactory> delegate;

        PruningFactory(std::unique_ptr<IRulePruningFactory> d) : delegate(std::move(d)) {}
        std::unique_ptr<IRulePruning> create() const override { return std::make_unique<Pruning>(delegate->create()); }
};
class PruningConfig final : public IRulePruningConfig {
    public:
        IrepConfig irep;
        NoRulePruningConfig no;
        bool useIrep;

        PruningConfig(bool useIrep) : irep(compareFunction()), useIrep(useIrep) {}
        std::unique_ptr<IRulePruningFactory> createRulePruningFactory() const override {
            return std::make_unique<PruningFactory>(useIrep ? irep.createRulePruningFactory() : no.createRulePruningFactory());
        }
};

class Builder final : public IModelBuilder {
    public:
        std::unique_ptr<IEvaluatedPrediction> defaultRule, head;
        std::unique_ptr<ConditionList> conditions;

        void setDefaultRule(std::unique_ptr<IEvaluatedPrediction>& p) override { defaultRule = std::move(p); }
        void addRule(std::unique_ptr<ConditionList>& c, std::unique_ptr<IEvaluatedPrediction>& p) override {
            sx_check(!head, "a single rule is added to the model");
            conditions = std::move(c);
            head = std::move(p);
        }
        void setNumUsedRules(uint32) override {}
        std::unique_ptr<IRuleModel> buildModel() override { return nullptr; }
};

class NoThreads final : public IMultiThreadingConfig {
    public:
        MultiThreadingSettings getSettings(const IFeatureMatrix&, uint32) const override { return MultiThreadingSettings(1); }
};
struct Features : public IFeatureMatrix {
        bool isSparse() const override { return false; }
        uint32 getNumExamples() const override { return N; }
        uint32 getNumFeatures() const override { return F; }
};
struct Outputs : public IOutputMatrix {
        bool isSparse() const override { return false; }
        uint32 getNumExamples() const override { return N; }
        uint32 getNumOutputs() const override { return L; }
};

static void setUp() {
    N = sx_param("n", 3);
    F = sx_param("f", 2);
    L = 2;
    for (uint32 f = 0; f < F; f++)
        for (uint32 i = 0; i < N; i++) VAL[f][i] = f == 0 ? i : 0;
    if (F > 1) {
        // the second feature orders the examples differently
        uint32 order = sx_param("order", 0);
        for (uint32 i = 0; i < N; i++) VAL[1][i] = order == 0 ? (i + 1) % N : order == 1 ? (i & 1) * 2 + i / 2 : N - 1 - i;
    }
    uint32 zero = sx_param("zero", 0);
    ALL = (1u << N) - 1;
    TRAINING = 0;
    for (uint32 i = 0; i < N; i++) {
        W[i] = zero >> i & 1 ? 0 : 1;
        HOLDOUT[i] = sx_param("holdout", 0) >> i & 1;
        if (HOLDOUT[i]) W[i] = 0;
        if (W[i]) TRAINING |= 1u << i;
    }
    FEATURES = sx_param("features", (1u << F) - 1);
    REC.quality = quality;
}

static bool isPartial(const IPrediction& p) {
    return dynamic_cast<const PartialPrediction*>(&p) != nullptr;
}

// Beam search retains the best rules in each iteration. Returns the examples that are covered by the rule to be learned
//  f1: (C19-F1) refinements are only retained if they are better than the worst one, even if there is capacity left
//  f2: (C19-F2) the rules are not sorted if the capacity is not exceeded, and the last one is replaced unconditionally
struct Entry {
        uint32 all;
        double q;
};
struct Entries {
        Entry e[MAXC];
        uint32 n = 0;

        // Entries are sorted by their quality
        void insert(Entry x, uint32 max) {
            uint32 at = n;
            while (at > 0 && better(x.q, e[at - 1].q)) at--;
            for (uint32 k = n; k > at; k--) e[k] = e[k - 1];
            e[at] = x;
            n++;
            if (n > max) n = max;
        }
        void sort() {
            Entries copy = *this;
            n = 0;
            for (uint32 k = 0; k < copy.n; k++) insert(copy.e[k], MAXC);
        }
};
static void refinements(Entries& result, uint32 covered, double min, uint32 beamWidth, bool f1) {
    Candidate c[MAXC];
    for (uint32 f = 0; f < F; f++)
        if (FEATURES >> f & 1) {
            Entries found;
            double worst = min;
            uint32 k = candidates(covered, c, f);
            for (uint32 i = 0; i < k; i++)
                if (better(quality(c[i].mask), worst)) {
                    found.insert({c[i].all, quality(c[i].mask)}, beamWidth);
                    if (f1 || found.n == beamWidth) worst = found.e[found.n - 1].q;
                }
            for (uint32 i = 0; i < found.n; i++) result.insert(found.e[i], beamWidth);
        }
}
static uint32 simulateBeam(uint32 beamWidth, uint32 maxConditions, bool f1, bool f2) {
    Entries beam;
    refinements(beam, ALL, MIN_QUALITY, beamWidth, f1);
    uint32 depth = 1;
    bool found = true;
    while (found && (maxConditions == 0 || depth < maxConditions)) {
        depth++;
        found = false;
        Entries next;
        double min = beam.e[beam.n - 1].q;
        for (uint32 b = 0; b < beam.n; b++) {
            Entries r;
            if (count(beam.e[b].all & TRAINING) > MIN_COVERAGE) refinements(r, beam.e[b].all, min, beamWidth, f1);
            bool refined = r.n > 0;
            if (!refined) r.e[r.n++] = beam.e[b];
            for (uint32 i = 0; i < r.n; i++) {
                if (!f2) {
                    next.insert(r.e[i], beamWidth);
                    if (next.n == beamWidth) min = next.e[next.n - 1].q;
                } else if (next.n < beamWidth) next.e[next.n++] = r.e[i];
                else if (refined || !better(min, r.e[i].q)) {
                    next.e[next.n - 1] = r.e[i];
                    next.sort();
                    min = next.e[next.n - 1].q;
                }
            }
            found = found || refined;
        }
        beam = next;
    }
    return beam.e[0].all;
}
static void checkBeam(uint32 learned, uint32 beamWidth, uint32 maxConditions) {
    const char* msg = "beam search returns the best of the rules it retains";
    if (learned == simulateBeam(beamWidth, maxConditions, false, false)) return;
    bool f1 = learned == simulateBeam(beamWidth, maxConditions, true, false), f2 = false, both = false;
    if (!f1) {
        f2 = learned == simulateBeam(beamWidth, maxConditions, false, true);
        both = f2 || learned == simulateBeam(beamWidth, maxConditions, true, true);
    }
    if (f1) sx_known("C19-F1", false, msg);
    else if (both) sx_known("C19-F2", false, msg);
    else sx_check(false, msg);
}

extern "C" void h_induction() {
    setUp();
    bool beam = sx_param("beam", 0), irep = sx_param("irep", 0), partial = sx_param("partial", 0);
    uint32 maxConditions = sx_param("maxConditions", 0), beamWidth = sx_param("beamWidth", 2);
    uint32 maxHeads = sx_param("maxHeads", 1);
    DYNAMIC = sx_param("dynamic", 0);
    MIN_COVERAGE = sx_param("minCoverage", 1);
    bool recalculate = sx_param("recalculate", 1);
    NoThreads threads;
    StatisticsBasedRuleRefinementConfig refinement(ReadableProperty<IMultiThreadingConfig>([&]() -> IMultiThreadingConfig& { return threads; }));
    PruningConfig pruning(irep);
    ProcessorConfig processor;
    auto r1 = ReadableProperty<IRuleRefinementConfig>([&]() -> IRuleRefinementConfig& { return refinement; });
    auto r2 = ReadableProperty<IRulePruningConfig>([&]() -> IRulePruningConfig& { return pruning; });
    auto r3 = ReadableProperty<IPostProcessorConfig>([&]() -> IPostProcessorConfig& { return processor; });
    GreedyTopDownRuleInductionConfig greedyConfig(compareFunction(), r1, r2, r3);
    BeamSearchTopDownRuleInductionConfig beamConfig(compareFunction(), r1, r2, r3);
    if (beam) beamConfig.setBeamWidth(beamWidth).setMaxConditions(maxConditions).setMinCoverage(MIN_COVERAGE).setMaxHeadRefinements(maxHeads).setRecalculatePredictions(recalculate);
    else greedyConfig.setMaxConditions(maxConditions).setMinCoverage(MIN_COVERAGE).setMaxHeadRefinements(maxHeads).setRecalculatePredictions(recalculate);
    Features features;
    Outputs outputs;
    auto factory = beam ? beamConfig.createRuleInductionFactory(features, outputs) : greedyConfig.createRuleInductionFactory(features, outputs);
    auto induction = factory->create();
    Space space;
    space.provider.state = 1;
    Builder builder;
    if (sx_param("default", 0)) {
        induction->induceDefaultRule(space.provider.get(), builder);
        sx_check(builder.defaultRule && builder.defaultRule->getNumElements() == L && Subspace::valueOf(*builder.defaultRule) == ALL, "the default rule is based on all examples");
        for (uint32 i = 0; i < N; i++) sx_check(REC.applied[i] == 1, "the predictions of the default rule are applied to all examples");
    }
    SinglePartition single(N);
    CompleteIndexVector complete(L);
    PartialIndexVector some(1);
    some.begin()[0] = 1;
    BitWeightVector weights(N, true);
    uint32 nz = 0;
    for (uint32 i = 0; i < N; i++) {
        weights.set(i, W[i] != 0);
        if (W[i]) nz++;
    }
    weights.setNumNonZeroWeights(nz);
    EqualWeightVector equal(N);
    const IIndexVector& outputIndices = partial ? (const IIndexVector&) some : complete;
    const IWeightVector& weightVector = TRAINING == ALL ? (const IWeightVector&) equal : weights;
    Sampling sampling;
    bool success = induction->induceRule(space, outputIndices, weightVector, single, sampling, builder);
    // the first refinement
    Candidate c[MAXC];
    uint32 num = 0;
    for (uint32 f = 0; f < F; f++)
        if (FEATURES >> f & 1) num += candidates(ALL, c + num, f);
    bool expected = false;
    for (uint32 k = 0; k < num; k++) expected = expected || better(quality(c[k].mask), MIN_QUALITY);
    sx_check(success == expected, "a rule is learned if there is any refinement with sufficient quality");
    sx_check(success == (bool) builder.head, "a single rule is added to the model");
    sx_check(space.provider.state == 1, "the regular kind of scores is used for learning the next rule");
    if (success) {
        uint32 n = builder.conditions->getNumConditions();
        uint32 prefix[MAXN * MAXF + 1], length = 0;
        uint32 finalMask = ALL;
        for (auto it = builder.conditions->cbegin(); it != builder.conditions->cend(); it++) finalMask &= maskOf(*it);
        if (PRUNING) {
            length = GROWN;
            for (uint32 k = 0; k <= length; k++) prefix[k] = PREFIX[k];
        } else {
            prefix[0] = ALL;
            for (auto it = builder.conditions->cbegin(); it != builder.conditions->cend(); it++, length++) prefix[length + 1] = prefix[length] & maskOf(*it);
        }
        sx_check(n >= 1 && length >= n && (maxConditions == 0 || length <= maxConditions), "the number of conditions is limited");
        uint32 grown = prefix[length] & TRAINING;
        sx_check(count(grown) >= MIN_COVERAGE, "rules cover the minimum number of examples");
        for (uint32 k = 0; k < length; k++) {
            uint32 m = prefix[k] & TRAINING, next = prefix[k + 1] & TRAINING;
            sx_check(next != m && next != 0, "each condition reduces the number of covered examples");
            if (!beam) {
                sx_check(better(quality(next), k == 0 ? MIN_QUALITY : quality(m)), "each condition improves a rule");
                num = 0;
                for (uint32 f = 0; f < F; f++)
                    if (FEATURES >> f & 1) num += candidates(prefix[k], c + num, f);
                bool exists = false;
                for (uint32 i = 0; i < num; i++) {
                    exists = exists || c[i].all == prefix[k + 1];
                    sx_check(!better(quality(c[i].mask), quality(next)), "the best refinement of a rule is used");
                }
                sx_check(exists, "conditions of a rule are refinements that have been found");
                sx_check(count(m) > MIN_COVERAGE || k == 0, "rules that cover the minimum number of examples are not refined");
            }
        }
        if (!beam && (maxConditions == 0 || length < maxConditions) && count(grown) > MIN_COVERAGE) {
            num = 0;
            for (uint32 f = 0; f < F; f++)
                if (FEATURES >> f & 1) num += candidates(prefix[length], c + num, f);
            for (uint32 i = 0; i < num; i++) sx_check(!better(quality(c[i].mask), quality(grown)), "rules are refined as long as they can be improved");
        }
        sx_reach("rule");
        if (length > 1) sx_reach("refined");
        // pruning
        uint32 covered = prefix[n];
        sx_check(finalMask == covered, "pruning removes trailing conditions");
        if (!irep || !PRUNING) sx_check(n == length, "pruning is only used if configured so");
        else {
            uint32 oos = ALL & ~TRAINING;
            for (uint32 i = 0; i < N; i++)
                if (HOLDOUT[i]) oos &= ~(1u << i);
            double q = quality(covered & oos);
            for (uint32 k = 1; k <= length; k++) {
                double p = quality(prefix[k] & oos);
                sx_check(!better(p, q), "pruning selects the rule with the best quality on the examples that have not been used for learning");
                if (k < n) sx_check(better(q, p), "pruning prefers rules with less conditions");
            }
        }
        sx_check(PRUNING == (TRAINING != ALL), "rules are pruned if some examples have not been used for learning");
        // head
        bool expectRecalculated = PRUNING && recalculate;
        sx_check(NUM_RECALCULATED == (expectRecalculated ? 1 : 0), "predictions are recalculated if configured so");
        if (expectRecalculated) sx_check(RECALCULATED_MASK == covered, "predictions are recalculated based on all covered examples");
        double value = 2 * (expectRecalculated ? covered + 1000.0 : grown);
        sx_check(builder.head->getNumElements() == (DYNAMIC ? 1 : outputIndices.getNumElements()) && Subspace::valueOf(*builder.head) == value, "the head of a rule corresponds to the examples it covers");
        if (DYNAMIC && !partial) {
            uint32 at = maxHeads == 0 || length < maxHeads ? length : maxHeads;
            sx_check(builder.head->getIndex(0) == (count(prefix[at] & TRAINING) & 1), "heads are refined as often as allowed");
        }
        sx_check(isPartial(*builder.head) == (partial || DYNAMIC), "the head of a rule corresponds to the examples it covers");
        if (!expectRecalculated) sx_check(builder.head->quality == quality(grown), "the quality of a rule is known");
        sx_check(NUM_APPLIED == 1 && APPLIED_VALUE == value, "the predictions of a rule are applied once");
        if (APPLIED_MASK != covered) {
            // C17-F1: after pruning, the feature space is filtered by all conditions except for the last one
            if (irep && PRUNING && length > 1 && APPLIED_MASK == prefix[length - 1]) sx_known("C17-F1", false, "the predictions of a rule are applied to the examples it covers");
            else sx_check(false, "the predictions of a rule are applied to the examples it covers");
        }
        if (beam && !irep) checkBeam(prefix[length], beamWidth, maxConditions);
    } else sx_check(NUM_APPLIED == 0, "the predictions of a rule are applied once");
    sx_reach("end");
}
