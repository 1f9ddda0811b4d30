// Assembling rules into a model, optimizing the model afterwards, and building the final model
#include "mlrl/boosting/model/rule_list_builder.hpp"
#include "mlrl/common/input/feature_matrix.hpp"
#include "mlrl/common/input/output_matrix.hpp"
#include "mlrl/common/model/condition_list.hpp"
#include "mlrl/common/model/body_conjunctive.hpp"
#include "mlrl/common/model/head_complete.hpp"
#include "mlrl/common/model/head_partial.hpp"
#include "mlrl/common/model/rule_list.hpp"
#include "mlrl/common/post_optimization/post_optimization_phase_list.hpp"
#include "mlrl/common/post_optimization/post_optimization_sequential.hpp"
#include "mlrl/common/post_optimization/post_optimization_unused_rule_removal.hpp"
#include "mlrl/common/rule_model_assemblage/default_rule.hpp"
#include "mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.hpp"
#include "mlrl/common/rule_refinement/coverage_mask.hpp"
#include "mlrl/common/rule_refinement/feature_space.hpp"
#include "mlrl/common/rule_refinement/feature_subspace.hpp"
#include "mlrl/common/sampling/feature_sampling.hpp"
#include "mlrl/common/sampling/partition_single.hpp"
#include "mlrl/common/stopping/stopping_criterion.hpp"
#include "mlrl/seco/model/decision_list_builder.hpp"
#include "mock_statistics.hpp"

static const uint32 MAXT = 24;   // rules that are ever learned
static const uint32 F = 2, L = 2;
static uint32 N;
static float32 VAL[F][MAXN];
static bool DEFAULT;

// All rules that have been learned, in the order they have been learned, identified by the scores they predict
struct Learned {
        uint32 numConditions;
        uint32 feature[2];
        float32 threshold[2];
        bool partial;
        int32 applied[MAXN];   // how often the rule is currently taken into account for each example
};
static Learned RULE[MAXT];
static uint32 NUM_LEARNED;
static int32 DEFAULT_APPLIED;

// The rules that are supposed to make up the model
static uint32 MODEL[MAXT], NUM_MODEL;
static uint32 NUM_SAMPLES, NUM_OUTPUT_SAMPLES, NUM_TESTS;
static bool REMOVED[MAXT];       // rules that have been removed from the model
static int32 FAILED[MAXT];       // how often a rule could not be replaced

static bool coveredBy(const Learned& r, uint32 i) {
    bool c = VAL[r.feature[0]][i] <= r.threshold[0];
    if (r.numConditions > 1) c = c & (VAL[r.feature[1]][i] <= r.threshold[1]);
    return c;
}

static uint32 tagOf(const IPrediction& p) {
    const CompletePrediction* c = dynamic_cast<const CompletePrediction*>(&p);
    return (uint32) (c ? c->values_cbegin()[0] : dynamic_cast<const PartialPrediction&>(p).values_cbegin()[0]);
}

class Subspace final : public IFeatureSubspace {
    public:
        bool covered[MAXN];
        CoverageMask mask;

        Subspace() : mask(N) {
            for (uint32 i = 0; i < N; i++) covered[i] = true;
        }
        std::unique_ptr<IFeatureSubspace> copy() const override { return std::make_unique<Subspace>(*this); }
        std::unique_ptr<ICallback> createCallback(uint32) override { return nullptr; }
        void filterSubspace(const Condition& c) override {
            for (uint32 i = 0; i < N; i++) covered[i] = covered[i] & (VAL[c.featureIndex][i] <= std::get<float32>(c.threshold));
        }
        void resetSubspace() override {
            for (uint32 i = 0; i < N; i++) covered[i] = true;
        }
        uint32 getNumCovered() const override { return N; }
        const CoverageMask& getCoverageMask() const override { return mask; }
        Quality evaluateOutOfSample(const SinglePartition&, const CoverageMask&, const IPrediction&) const override { return Quality(0); }
        Quality evaluateOutOfSample(const BiPartition&, const CoverageMask&, const IPrediction&) const override { return Quality(0); }
        void recalculatePrediction(const SinglePartition&, const CoverageMask&, IPrediction&) const override {}
        void recalculatePrediction(const BiPartition&, const CoverageMask&, IPrediction&) const override {}
        void update(const IPrediction& p, int32 by) {
            Learned& r = RULE[tagOf(p)];
            for (uint32 i = 0; i < N; i++) r.applied[i] += covered[i] ? by : 0;
        }
        void applyPrediction(const IPrediction& p) override { update(p, 1); }
        void revertPrediction(const IPrediction& p) override { update(p, -1); }
};

class Space final : public IFeatureSpace {
    public:
        MockStatisticsProvider provider;

        Space() : provider(N, L) {}
        std::unique_ptr<IFeatureSubspace> createSubspace(const EqualWeightVector&) override { return std::make_unique<Subspace>(); }
        std::unique_ptr<IFeatureSubspace> createSubspace(const BitWeightVector&) override { return std::make_unique<Subspace>(); }
        std::unique_ptr<IFeatureSubspace> createSubspace(const DenseWeightVector<uint32>&) override { return std::make_unique<Subspace>(); }
        IStatisticsProvider& getStatisticsProvider() const override { return const_cast<MockStatisticsProvider&>(provider); }
};

class FeatureSampling final : public IFeatureSampling {
    public:
        CompleteIndexVector indices;

        FeatureSampling() : indices(F) {}
        const IIndexVector& sample() override { return indices; }
        std::unique_ptr<IFeatureSampling> createBeamSearchFeatureSampling(bool) override { return nullptr; }
};
class OutputSampling final : public IOutputSampling {
    public:
        CompleteIndexVector indices;

        OutputSampling() : indices(L) {}
        const IIndexVector& sample() override {
            NUM_OUTPUT_SAMPLES++;
            return indices;
        }
};
class InstanceSampling final : public IInstanceSampling {
    public:
        EqualWeightVector weights;

        InstanceSampling() : weights(N) {}
        const IWeightVector& sample() override {
            NUM_SAMPLES++;
            return weights;
        }
};

static FeatureSampling* FEATURE_SAMPLING;
static OutputSampling* OUTPUT_SAMPLING;
static InstanceSampling* INSTANCE_SAMPLING;
static bool OPTIMIZING, REFINE_HEADS, RESAMPLE;
static uint32 POSITION;          // the rule to be replaced next

// The statistics correspond to the rules of a model, except for one of them
//  f1: (C18-F1) the predictions of a rule that can not be replaced are reverted, although the rule is retained
//  f2: (C18-F2) the predictions of rules that are removed from a model are still taken into account
static bool consistent(uint32 except, bool f1 = false, bool f2 = false) {
    bool ok = DEFAULT_APPLIED == (DEFAULT ? 1 : 0);
    for (uint32 t = 0; t < NUM_LEARNED; t++) {
        bool included = f2 && REMOVED[t];
        for (uint32 k = 0; k < NUM_MODEL; k++)
            if (MODEL[k] == t && k != except) included = true;
        int32 expected = (included ? 1 : 0) - (f1 ? FAILED[t] : 0);
        for (uint32 i = 0; i < N; i++) ok = ok & (RULE[t].applied[i] == (coveredBy(RULE[t], i) ? expected : 0));
    }
    return ok;
}
static bool consistentOrKnown(uint32 except) {
    bool failed = false, removed = false;
    for (uint32 t = 0; t < NUM_LEARNED; t++) {
        failed = failed || FAILED[t];
        removed = removed || REMOVED[t];
    }
    bool ok = consistent(except);
    if (failed) ok = ok | consistent(except, true);
    if (removed) ok = ok | consistent(except, false, true);
    if (failed && removed) ok = ok | consistent(except, true, true);
    return ok;
}

class Induction final : public IRuleInduction {
    public:
        void induceDefaultRule(IStatistics&, IModelBuilder& builder) const override {
            sx_check(DEFAULT && !OPTIMIZING && NUM_LEARNED == 0 && DEFAULT_APPLIED == 0, "the default rule is learned first, if it is used");
            DEFAULT_APPLIED++;
            auto p = std::make_unique<CompletePrediction>(L);
            for (uint32 l = 0; l < L; l++) p->values_begin()[l] = 1000;
            std::unique_ptr<IEvaluatedPrediction> e = std::move(p);
            builder.setDefaultRule(e);
        }
        bool induceRule(IFeatureSpace& space, const IIndexVector& outputs, const IWeightVector& weights, IPartition& partition, IFeatureSampling& sampling,
                        IModelBuilder& builder) const override {
            sx_check(&weights == &INSTANCE_SAMPLING->weights && NUM_SAMPLES > 0, "examples are sampled for each rule");
            NUM_SAMPLES = 0;
            if (!OPTIMIZING) {
                sx_check(((const MockStatisticsProvider&) space.getStatisticsProvider()).state == 1, "rules are learned based on the regular kind of scores");
                sx_check(&outputs == &OUTPUT_SAMPLING->indices && NUM_OUTPUT_SAMPLES == 1, "outputs are sampled for each rule");
                sx_check(&sampling == FEATURE_SAMPLING, "features are sampled for each rule");
                sx_check(NUM_TESTS == NUM_MODEL + 1, "the stopping criterion is tested before learning a rule");
                sx_check(consistent(MAXT), "the statistics correspond to the rules that have been learned");
            } else {
                const Learned& old = RULE[MODEL[POSITION]];
                sx_check(consistentOrKnown(POSITION), "a rule is replaced with one that takes all other rules of the model into account");
                if (REFINE_HEADS) sx_check(&outputs == &OUTPUT_SAMPLING->indices && NUM_OUTPUT_SAMPLES == 1, "outputs are sampled for each rule");
                else sx_check(outputs.getNumElements() == (old.partial ? 1 : L) && outputs.isPartial() == old.partial && outputs.getIndex(0) == (old.partial ? 1 : 0), "a rule is replaced with one that predicts for the same outputs");
                if (RESAMPLE) sx_check(&sampling == FEATURE_SAMPLING, "features are sampled for each rule");
                else {
                    const IIndexVector& v = sampling.sample();
                    bool used[F] = {false, false}, found[F] = {false, false};
                    for (uint32 k = 0; k < old.numConditions; k++) used[old.feature[k]] = true;
                    for (uint32 k = 0; k < v.getNumElements(); k++) {
                        sx_check(v.getIndex(k) < F && !found[v.getIndex(k)], "features are unique");
                        found[v.getIndex(k)] = true;
                    }
                    for (uint32 f = 0; f < F; f++) sx_check(used[f] == found[f], "a rule is replaced with one that uses the same features");
                }
            }
            NUM_OUTPUT_SAMPLES = 0;
            bool success = sx_bool("success");
            if (success) {
                uint32 t = NUM_LEARNED++;
                sx_check(t < MAXT, "harness: too many rules");
                Learned& r = RULE[t];
                uint32 kind = OPTIMIZING && !REFINE_HEADS ? (RULE[MODEL[POSITION]].partial ? 1 : 0) : sx_choice("kind", sx_param("kinds", 2));
                r.partial = kind & 1;
                r.numConditions = kind & 1 ? 2 : 1;
                for (uint32 k = 0; k < r.numConditions; k++) {
                    r.feature[k] = r.partial ? sx_param("same", 0) ? 1 : k : (t & 1);
                    r.threshold[k] = sx_f32("threshold", -4, 4);
                }
                for (uint32 i = 0; i < N; i++) r.applied[i] = coveredBy(r, i) ? 1 : 0;
                auto c = std::make_unique<ConditionList>();
                for (uint32 k = 0; k < r.numConditions; k++) {
                    Condition x;
                    x.start = x.end = 0;
                    x.inverse = false;
                    x.featureIndex = r.feature[k];
                    x.comparator = NUMERICAL_LEQ;
                    x.threshold = r.threshold[k];
                    x.numCovered = 1;
                    c->addCondition(x);
                }
                std::unique_ptr<IEvaluatedPrediction> p;
                if (r.partial) {
                    auto q = std::make_unique<PartialPrediction>(1, true);
                    q->indices_begin()[0] = 1;
                    q->values_begin()[0] = t;
                    p = std::move(q);
                } else {
                    auto q = std::make_unique<CompletePrediction>(L);
                    for (uint32 l = 0; l < L; l++) q->values_begin()[l] = t;
                    p = std::move(q);
                }
                if (OPTIMIZING) MODEL[POSITION] = t;
                else MODEL[NUM_MODEL++] = t;
                builder.addRule(c, p);
            } else if (OPTIMIZING) FAILED[MODEL[POSITION]]++;
            if (OPTIMIZING) POSITION = (POSITION + 1) % NUM_MODEL;
            return success;
        }
};
class InductionFactory final : public IRuleInductionFactory {
    public:
        std::unique_ptr<IRuleInduction> create() const override { return std::make_unique<Induction>(); }
};
class InductionConfig final : public IRuleInductionConfig {
    public:
        std::unique_ptr<IRuleInductionFactory> createRuleInductionFactory(const IFeatureMatrix&, const IOutputMatrix&) const override { return std::make_unique<InductionFactory>(); }
};

static uint32 MAX_RULES, USED;
static bool STOPPED;
class Stopping final : public IStoppingCriterion {
    public:
        Result test(const IStatistics&, uint32 numRules) override {
            sx_check(!STOPPED, "no more rules are learned as soon as a stopping criterion is met");
            sx_check(numRules == NUM_MODEL + (DEFAULT ? 1 : 0), "stopping criteria take the number of rules into account");
            NUM_TESTS++;
            Result r;
            if (NUM_MODEL >= MAX_RULES) r.stop = true;
            else if (NUM_MODEL > 0) r.stop = sx_bool("stop");
            if (numRules > 0) r.numUsedRules = sx_u32("used", 0, numRules);
            USED = r.numUsedRules != 0 ? r.numUsedRules : USED;
            STOPPED = r.stop;
            return r;
        }
};
class StoppingFactory final : public IStoppingCriterionFactory {
    public:
        std::unique_ptr<IStoppingCriterion> create(const SinglePartition&) const override { return std::make_unique<Stopping>(); }
        std::unique_ptr<IStoppingCriterion> create(BiPartition&) const override { return std::make_unique<Stopping>(); }
};

struct Features : public IFeatureMatrix {
        bool isSparse() const override { return false; }
        uint32 getNumExamples() const override { return N; }
        uint32 getNumFeatures() const override { return F; }
};
struct Outputs : public IOutputMatrix {
        bool isSparse() const override { return false; }
        uint32 getNumExamples() const override { return N; }
        uint32 getNumOutputs() const override { return L; }
};

extern "C" void h_assembly() {
    N = sx_param("n", 2);
    MAX_RULES = sx_param("rules", 2);
    DEFAULT = sx_param("default", 1);
    bool removal = sx_param("removal", 0), sequential = sx_param("sequential", 0), decisionList = sx_param("decisionList", 0);
    REFINE_HEADS = sx_param("refineHeads", 0);
    RESAMPLE = sx_param("resample", 1);
    for (uint32 f = 0; f < F; f++)
        for (uint32 i = 0; i < N; i++) VAL[f][i] = sx_f32("value", -4, 4);
    Features features;
    Outputs outputs;
    InductionConfig inductionConfig;
    DefaultRuleConfig defaultRuleConfig(DEFAULT);
    auto r1 = ReadableProperty<IRuleInductionConfig>([&]() -> IRuleInductionConfig& { return inductionConfig; });
    auto r2 = ReadableProperty<IDefaultRuleConfig>([&]() -> IDefaultRuleConfig& { return defaultRuleConfig; });
    SequentialRuleModelAssemblageConfig assemblageConfig(r1, r2);
    SequentialPostOptimizationConfig sequentialConfig(r1);
    sequentialConfig.setNumIterations(sx_param("iterations", 1)).setRefineHeads(REFINE_HEADS).setResampleFeatures(RESAMPLE);
    UnusedRuleRemovalConfig removalConfig;
    PostOptimizationPhaseListFactory list;
    if (removal) list.addPostOptimizationPhaseFactory(removalConfig.createPostOptimizationPhaseFactory(features, outputs));
    if (sequential) list.addPostOptimizationPhaseFactory(sequentialConfig.createPostOptimizationPhaseFactory(features, outputs));
    boosting::RuleListBuilderFactory ruleLists;
    seco::DecisionListBuilderFactory decisionLists;
    auto postOptimization = decisionList ? list.create(decisionLists) : list.create(ruleLists);
    IModelBuilder& builder = postOptimization->getModelBuilder();
    FeatureSampling featureSampling;
    OutputSampling outputSampling;
    InstanceSampling instanceSampling;
    FEATURE_SAMPLING = &featureSampling;
    OUTPUT_SAMPLING = &outputSampling;
    INSTANCE_SAMPLING = &instanceSampling;
    SinglePartition partition(N);
    Space space;
    auto assemblageFactory = assemblageConfig.createRuleModelAssemblageFactory(features, outputs);
    auto assemblage = assemblageFactory->create(std::make_unique<StoppingFactory>());
    assemblage->induceRules(partition, outputSampling, instanceSampling, featureSampling, space.provider, space, builder);
    sx_check(consistent(MAXT), "the statistics correspond to the rules that have been learned");
    sx_check(((const MockStatisticsProvider&) space.provider).state == 1, "rules are learned based on the regular kind of scores");
    uint32 total = NUM_MODEL;
    uint32 used = (uint32) sx_concretize(USED);
    NUM_SAMPLES = NUM_OUTPUT_SAMPLES = 0;
    if (removal && used > 0) {
        uint32 keep = used > (DEFAULT ? 1 : 0) ? used - (DEFAULT ? 1 : 0) : 0;
        for (; NUM_MODEL > keep; NUM_MODEL--) REMOVED[MODEL[NUM_MODEL - 1]] = true;
    }
    OPTIMIZING = true;
    POSITION = 0;
    postOptimization->optimizeModel(partition, outputSampling, instanceSampling, featureSampling, space);
    sx_check(POSITION == 0, "each rule is replaced once per iteration");
    auto model = builder.buildModel();
    const RuleList& rules = dynamic_cast<const RuleList&>(*model);
    uint32 d = DEFAULT ? 1 : 0;
    sx_check(rules.getNumRules() == NUM_MODEL + d && rules.containsDefaultRule() == DEFAULT, "a model consists of the rules that have been learned");
    sx_check(rules.getNumUsedRules() == (used > 0 && !removal ? used : NUM_MODEL + d), "the number of used rules is known");
    sx_check(rules.isDefaultRuleTakingPrecedence() == !decisionList, "the default rule of a decision list comes last");
    uint32 bodies = 0, heads = 0;
    auto at = [&](uint32 position) -> uint32 {
        // the rule at a position of the model
        if (DEFAULT && (decisionList ? position == NUM_MODEL : position == 0)) return 1000;
        return MODEL[position - (DEFAULT && !decisionList ? 1 : 0)];
    };
    rules.visit([&](const EmptyBody&) {
            sx_check(at(bodies++) == 1000, "rules are included in a model in the order they have been learned");
        },
        [&](const ConjunctiveBody& b) {
            uint32 t = at(bodies++);
            sx_check(t < NUM_LEARNED && b.getNumNumericalLeq() == RULE[t].numConditions, "rules are included in a model in the order they have been learned");
            for (uint32 k = 0; k < RULE[t].numConditions; k++)
                sx_check(b.numerical_leq_indices_cbegin()[k] == RULE[t].feature[k] && b.numerical_leq_thresholds_cbegin()[k] == RULE[t].threshold[k], "the body of a rule is retained");
        },
        [&](const CompleteHead& h) {
            uint32 t = at(heads++);
            sx_check(h.getNumElements() == L && (t == 1000 || !RULE[t].partial), "the head of a rule is retained");
            for (uint32 l = 0; l < L; l++) sx_check(h.values_cbegin()[l] == t, "the head of a rule is retained");
        },
        [&](const PartialHead& h) {
            uint32 t = at(heads++);
            sx_check(t < NUM_LEARNED && RULE[t].partial && h.getNumElements() == 1 && h.indices_cbegin()[0] == 1 && h.values_cbegin()[0] == t, "the head of a rule is retained");
        });
    sx_check(bodies == NUM_MODEL + d && heads == bodies, "a model consists of the rules that have been learned");
    sx_reach("end");
    if (total > NUM_MODEL) sx_reach("removed");
    // the statistics, which are used to calibrate probabilities, correspond to the final model
    sx_check(consistentOrKnown(MAXT), "the statistics correspond to the rules of the final model");
    bool failed = false;
    for (uint32 t = 0; t < NUM_LEARNED; t++) failed = failed || FAILED[t];
    if (failed) sx_known("C18-F1", consistent(MAXT) | consistent(MAXT, false, true), "the statistics correspond to the rules of the final model");
    if (total > NUM_MODEL) sx_known("C18-F2", consistent(MAXT) | consistent(MAXT, true), "the statistics correspond to the rules of the final model");
}
