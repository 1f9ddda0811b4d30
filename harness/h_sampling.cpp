// Sampling of examples, features and outputs, and splitting into training and holdout set, for any stream of random numbers
#include "mock_statistics.hpp"
#include "nondet_rng.hpp"
#include "mlrl/common/data/view_matrix_c_contiguous.hpp"
#include "mlrl/common/data/view_matrix_csr_binary.hpp"
#include "mlrl/common/input/feature_matrix_fortran_contiguous.hpp"
#include "mlrl/common/input/output_matrix.hpp"
#include "mlrl/common/rule_refinement/feature_space.hpp"
#include "mlrl/common/rule_refinement/feature_subspace.hpp"
#include "mlrl/common/sampling/feature_sampling_no.hpp"
#include "mlrl/common/sampling/feature_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/instance_sampling_no.hpp"
#include "mlrl/common/sampling/instance_sampling_stratified_example_wise.hpp"
#include "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp"
#include "mlrl/common/sampling/instance_sampling_with_replacement.hpp"
#include "mlrl/common/sampling/instance_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/output_sampling_no.hpp"
#include "mlrl/common/sampling/output_sampling_round_robin.hpp"
#include "mlrl/common/sampling/output_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_random.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_example_wise.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_output_wise.hpp"
#include "mlrl/common/sampling/partition_sampling_no.hpp"
#include "mlrl/common/sampling/partition_single.hpp"

static const uint32 MAXE = 40;
static const uint32 MAXL = 3;
static uint32 N, L;
static uint8 Y[MAXE * MAXL];
static uint32 IDX[MAXE * MAXL], PTR[MAXE + 1];

static void makeLabels() {
    uint32 m = 0;
    for (uint32 i = 0; i < N; i++) {
        PTR[i] = m;
        for (uint32 l = 0; l < L; l++) {
            Y[i * L + l] = sx_param("labels", 1) ? sx_choice("y", 2) : 0;
            if (Y[i * L + l]) IDX[m++] = l;
        }
    }
    PTR[N] = m;
}

// The weights of the examples, as seen by the rest of the system
struct Capture final : public IFeatureSpace {
        uint32 w[MAXE];
        uint32 numNonZero = 0;
        bool counted = false;
        template<typename W>
        std::unique_ptr<IFeatureSubspace> get(const W& weights) {
            sx_check(weights.getNumElements() == N, "there is a weight for each example");
            for (uint32 i = 0; i < N; i++) w[i] = weights[i];
            numNonZero = weights.getNumNonZeroWeights();
            return nullptr;
        }
        std::unique_ptr<IFeatureSubspace> createSubspace(const EqualWeightVector& weights) override { return get(weights); }
        std::unique_ptr<IFeatureSubspace> createSubspace(const BitWeightVector& weights) override { return get(weights); }
        std::unique_ptr<IFeatureSubspace> createSubspace(const DenseWeightVector<uint32>& weights) override { return get(weights); }
        MockStatisticsProvider provider {1, 1};
        IStatisticsProvider& getStatisticsProvider() const override { return const_cast<MockStatisticsProvider&>(provider); }
};

static RNGConfig RNG_CONFIG;

static RNGConfig& rngConfig() {
    return RNG_CONFIG;
}

template<typename C>
static void setup(C& config, float32 size, uint32 minSamples, uint32 maxSamples) {
    config.setSampleSize(size).setMinSamples(minSamples).setMaxSamples(maxSamples);
}

static uint32 imin(uint32 a, uint32 b) {
    return a < b ? a : b;
}

// The size of a sample, and whether it complies with the configuration
static void checkSize(uint32 num, uint32 total, float32 size, uint32 minSamples, uint32 maxSamples, uint32 slack, const char* known) {
    bool bounds = num >= imin(minSamples, total) && (maxSamples == 0 || num <= maxSamples);
    if (known) sx_known(known, bounds, "the minimum and maximum size of a sample are respected");
    else sx_check(bounds, "the minimum and maximum size of a sample are respected");
    // if the bounds have no effect, the size of the sample is the given fraction
    float64 f = (float64) size * total;
    if (maxSamples == 0 && f > minSamples + slack)
        sx_check(num > f - slack && num < f + slack, "the size of a sample corresponds to the given fraction");
}

extern "C" void h_instance() {
    N = sx_param("n", 3);
    L = sx_param("l", 1);
    uint32 kind = sx_param("kind", 0);
    bool bi = sx_param("bi", 0);
    uint32 rounds = sx_param("rounds", 2);
    makeLabels();
    float32 size = 0;
    uint32 minSamples = 1, maxSamples = 0;
    if (kind) {
        size = sx_param("size", 0) ? (float32) sx_param("size", 0) / 100 : sx_f32("sampleSize", 0, 1);
        sx_assume(size > 0 && size < 1);
        if (sx_param("minmax", 0)) {
            minSamples = 1 + sx_choice("minSamples", N + 1);
            maxSamples = sx_choice("hasMax", 2) ? minSamples + sx_choice("maxSamples", 2) : 0;
        }
    }
    auto prop = ReadableProperty<RNGConfig>(rngConfig);
    std::unique_ptr<IClassificationInstanceSamplingFactory> factoryPtr;
    switch (kind) {
        case 0: factoryPtr = NoInstanceSamplingConfig().createClassificationInstanceSamplingFactory(); break;
        case 1: {
            InstanceSamplingWithReplacementConfig c(prop);
            setup<IInstanceSamplingWithReplacementConfig>(c, size, minSamples, maxSamples);
            factoryPtr = c.createClassificationInstanceSamplingFactory();
            break;
        }
        case 2: {
            InstanceSamplingWithoutReplacementConfig c(prop);
            setup<IInstanceSamplingWithoutReplacementConfig>(c, size, minSamples, maxSamples);
            factoryPtr = c.createClassificationInstanceSamplingFactory();
            break;
        }
        case 3: {
            ExampleWiseStratifiedInstanceSamplingConfig c(prop);
            setup<IExampleWiseStratifiedInstanceSamplingConfig>(c, size, minSamples, maxSamples);
            factoryPtr = c.createClassificationInstanceSamplingFactory();
            break;
        }
        default: {
            OutputWiseStratifiedInstanceSamplingConfig c(prop);
            setup<IOutputWiseStratifiedInstanceSamplingConfig>(c, size, minSamples, maxSamples);
            factoryPtr = c.createClassificationInstanceSamplingFactory();
        }
    }
    // the training set (an arbitrary permutation of a subset of the examples, if a holdout set is used)
    uint32 holdout = bi ? sx_param("holdout", 1) : 0;
    uint32 numTraining = N - holdout;
    bool training[MAXE];
    BiPartition biPartition(numTraining, holdout);
    SinglePartition single(N);
    uint32 rot = bi ? sx_choice("rotation", N) : 0;
    for (uint32 i = 0; i < N; i++) {
        uint32 e = (i + rot) % N;
        if (i < numTraining) biPartition.first_begin()[i] = e;
        else biPartition.second_begin()[i - numTraining] = e;
        training[e] = i < numTraining;
    }
    Capture capture;
    MockStatistics statistics(N, L);
    CContiguousView<const uint8> dense(Y, N, L);
    BinaryCsrView csr(IDX, PTR, N, L);
    bool sparse = sx_param("sparse", 0);
    std::unique_ptr<IInstanceSampling> samplingPtr =
      sparse ? (bi ? factoryPtr->create(csr, biPartition, statistics) : factoryPtr->create(csr, single, statistics))
             : (bi ? factoryPtr->create(dense, biPartition, statistics) : factoryPtr->create(dense, single, statistics));

    for (uint32 r = 0; r < rounds; r++) {
        const IWeightVector& weights = samplingPtr->sample();
        weights.createFeatureSubspace(capture);
        uint32 numNonZero = 0, sum = 0;
        for (uint32 i = 0; i < N; i++) {
            if (!training[i]) sx_check(capture.w[i] == 0, "examples in the holdout set are never used for training");
            if (capture.w[i]) numNonZero++;
            sum += capture.w[i];
        }
        sx_check(capture.numNonZero == numNonZero, "the number of examples with non-zero weights is correct");
        sx_check(weights.hasZeroWeights() == (numNonZero < N), "whether there are examples with zero weights is known");
        sx_obs("sum", sum);
        if (kind == 0) sx_check(numNonZero == numTraining && sum == numTraining, "without sampling, each training example is used once");
        if (kind == 1) checkSize(sum, numTraining, size, minSamples, maxSamples, 1, nullptr);
        if (kind >= 2) sx_check(sum == numNonZero, "without replacement, each example is used at most once");
        if (kind == 2) checkSize(sum, numTraining, size, minSamples, maxSamples, 1, nullptr);
        if (kind >= 3) {
            // whether each label set is represented by the given fraction of its examples
            bool proportional = true;
            for (uint32 i = 0; i < N && kind == 3; i++) {
                uint32 total = 0, num = 0;
                for (uint32 j = 0; j < N; j++) {
                    bool same = training[i] && training[j];
                    for (uint32 l = 0; l < L; l++) same = same && Y[i * L + l] == Y[j * L + l];
                    if (same) {
                        total++;
                        if (capture.w[j]) num++;
                    }
                }
                float64 f = (float64) size * total;
                if (training[i] && !(num > f - 1 && num < f + 1)) proportional = false;
            }
            // there is at most one stratum per label, and one for the examples without labels
            float64 f = (float64) size * numTraining;
            if (kind == 4 && !(sum > f - L - 1 && sum < f + L + 1)) proportional = false;
            if (minSamples == 1 && maxSamples == 0) sx_check(proportional, "label sets or labels are represented by the given fraction of their examples");
            // finding: the minimum and maximum are not taken into account
            checkSize(sum, numTraining, size, minSamples, maxSamples, N, proportional ? (kind == 3 ? "C13-F1" : "C13-F2") : nullptr);
        }
        for (uint32 i = 0; i < N && i < 8; i++)
            if (capture.w[i]) {
                static const char* tags[8] = {"sampled0", "sampled1", "sampled2", "sampled3", "sampled4", "sampled5", "sampled6", "sampled7"};
                sx_reach(tags[i]);
            }
    }
    sx_reach("end");
}

extern "C" void h_partition() {
    N = sx_param("n", 3);
    L = sx_param("l", 1);
    uint32 kind = sx_param("kind", 0);
    makeLabels();
    float32 size = 0;
    if (kind) {
        uint32 fixed = sx_param("holdout", 0);
        if (fixed) size = (fixed + 0.5f) / N;
        else size = sx_f32("holdoutSetSize", 0, 1);
        sx_assume(size > 0 && size < 1);
    }
    auto prop = ReadableProperty<RNGConfig>(rngConfig);
    std::unique_ptr<IClassificationPartitionSamplingFactory> factoryPtr;
    switch (kind) {
        case 0: factoryPtr = NoPartitionSamplingConfig().createClassificationPartitionSamplingFactory(); break;
        case 1: {
            RandomBiPartitionSamplingConfig c(prop);
            c.setHoldoutSetSize(size);
            factoryPtr = c.createClassificationPartitionSamplingFactory();
            break;
        }
        case 2: {
            ExampleWiseStratifiedBiPartitionSamplingConfig c(prop);
            c.setHoldoutSetSize(size);
            factoryPtr = c.createClassificationPartitionSamplingFactory();
            break;
        }
        default: {
            OutputWiseStratifiedBiPartitionSamplingConfig c(prop);
            c.setHoldoutSetSize(size);
            factoryPtr = c.createClassificationPartitionSamplingFactory();
        }
    }
    CContiguousView<const uint8> dense(Y, N, L);
    BinaryCsrView csr(IDX, PTR, N, L);
    std::unique_ptr<IPartitionSampling> samplingPtr = sx_param("sparse", 0) ? factoryPtr->create(csr) : factoryPtr->create(dense);
    uint32 rounds = sx_param("rounds", 2);
    for (uint32 r = 0; r < rounds; r++) {
        IPartition& partition = samplingPtr->partition();
        if (kind == 0) {
            SinglePartition* p = dynamic_cast<SinglePartition*>(&partition);
            sx_check(p && p->getNumElements() == N, "without partition sampling, all examples are used for training");
            if (p)
                for (uint32 i = 0; i < N; i++) sx_check(p->cbegin()[i] == i, "each example is part of the training set");
            sx_check(p->cend() - p->cbegin() == N, "number of training examples");
        } else {
            BiPartition* p = dynamic_cast<BiPartition*>(&partition);
            sx_check(p, "a training and a holdout set are created");
            uint32 numFirst = p->getNumFirst(), numSecond = p->getNumSecond();
            sx_check(numFirst + numSecond == N, "training and holdout set contain all examples");
            float64 f = (float64) size * N;
            sx_check(numSecond > f - 1 && numSecond < f + 1, "the size of the holdout set corresponds to the given fraction");
            sx_check(p->first_cend() - p->first_cbegin() == numFirst && p->second_cend() - p->second_cbegin() == numSecond, "sizes of the sets");
            uint32 seen[MAXE];
            bool first[MAXE];
            for (uint32 i = 0; i < N; i++) seen[i] = 0;
            for (uint32 i = 0; i < numFirst; i++) {
                uint32 e = p->first_cbegin()[i];
                sx_check(e < N, "valid training example");
                seen[e]++;
                first[e] = true;
            }
            for (uint32 i = 0; i < numSecond; i++) {
                uint32 e = p->second_cbegin()[i];
                sx_check(e < N, "valid holdout example");
                seen[e]++;
                first[e] = false;
            }
            for (uint32 i = 0; i < N; i++) sx_check(seen[i] == 1, "each example is part of either the training or the holdout set");
            if (kind == 2) {
                for (uint32 i = 0; i < N; i++) {
                    uint32 total = 0, num = 0;
                    for (uint32 j = 0; j < N; j++) {
                        bool same = true;
                        for (uint32 l = 0; l < L; l++) same = same && Y[i * L + l] == Y[j * L + l];
                        if (same) {
                            total++;
                            if (first[j]) num++;
                        }
                    }
                    // the fraction depends on how the examples with other labels have been split
                    float64 e = (float64) total * numFirst / N;
                    sx_check(num > e - 1 - 1e-4 && num < e + 1 + 1e-4, "label sets are represented proportionally in the training and holdout set");
                }
            }
            for (uint32 i = 0; i < N && i < 8; i++) {
                static const char* tags[8] = {"training0", "training1", "training2", "training3", "training4", "training5", "training6", "training7"};
                static const char* tags2[8] = {"holdout0", "holdout1", "holdout2", "holdout3", "holdout4", "holdout5", "holdout6", "holdout7"};
                sx_reach(first[i] ? tags[i] : tags2[i]);
            }
        }
    }
    sx_reach("end");
}

// Indices that have been sampled from [0, total)
static void checkIndices(const IIndexVector& v, uint32 total, uint32 retained, uint32 expectedMin, uint32 expectedMax) {
    uint32 n = v.getNumElements();
    sx_check(n >= expectedMin && n <= expectedMax, "the number of samples corresponds to the configuration");
    sx_check(n <= total, "there are not more samples than elements");
    bool seen[64];
    for (uint32 i = 0; i < total; i++) seen[i] = false;
    for (uint32 i = 0; i < n; i++) {
        uint32 e = v.getIndex(i);
        sx_check(e < total, "valid indices are sampled");
        if (e < total) {
            sx_check(!seen[e], "each index is sampled at most once");
            seen[e] = true;
            static const char* tags[8] = {"sampled0", "sampled1", "sampled2", "sampled3", "sampled4", "sampled5", "sampled6", "sampled7"};
            if (e < 8) sx_reach(tags[e]);
        }
    }
    for (uint32 i = total - retained; i < total; i++) sx_check(seen[i], "retained features are always included");
    sx_obs("numSamples", n);
}

extern "C" void h_feature() {
    uint32 n = sx_param("n", 3);
    uint32 retained = sx_param("retained", 0) ? sx_choice("retained", n + 2) : 0;
    uint32 kept = imin(retained, n), rest = n - kept;
    float32 x[64];
    for (uint32 i = 0; i < n; i++) x[i] = 0;
    auto matrixPtr = createFortranContiguousFeatureMatrix(x, 1, n);
    std::unique_ptr<IFeatureSamplingFactory> factoryPtr;
    uint32 lo, hi;
    if (sx_param("none", 0)) {
        factoryPtr = NoFeatureSamplingConfig().createFeatureSamplingFactory(*matrixPtr);
        lo = hi = n;
        kept = 0;
        rest = n;
    } else {
        FeatureSamplingWithoutReplacementConfig c {ReadableProperty<RNGConfig>(rngConfig)};
        c.setNumRetained(retained);
        if (sx_param("log", 0)) {
            // the default: log2(number of features - 1) + 1
            c.setSampleSize(0);
            lo = rest < 2 ? rest : 1;
            while (rest > 2 && (1u << lo) <= rest - 1) lo++;
            hi = lo;
        } else {
            uint32 minSamples = 1 + (sx_param("minmax", 0) ? sx_choice("minSamples", 2) : 0);
            uint32 maxSamples = sx_param("minmax", 0) && sx_choice("hasMax", 2) ? minSamples + sx_choice("maxSamples", 2) : 0;
            float32 size = sx_param("size", 0) ? (float32) sx_param("size", 0) / 100 : sx_f32("sampleSize", 0, 1);
            sx_assume(size > 0 && size < 1);
            c.setSampleSize(size).setMinSamples(minSamples).setMaxSamples(maxSamples);
            lo = imin(minSamples, rest);
            hi = maxSamples ? imin(maxSamples, rest) : rest;
            while (lo < hi && (float64) size * rest >= lo + 1) lo++;
            while (hi > lo && (float64) size * rest <= hi - 1) hi--;
        }
        factoryPtr = c.createFeatureSamplingFactory(*matrixPtr);
    }
    std::unique_ptr<IFeatureSampling> samplingPtr = factoryPtr->create();
    for (uint32 r = 0; r < sx_param("rounds", 2); r++) checkIndices(samplingPtr->sample(), n, kept, lo + kept, hi + kept);
    if (sx_param("beam", 0)) {
        bool resample = sx_choice("resample", 2);
        std::unique_ptr<IFeatureSampling> beamPtr = samplingPtr->createBeamSearchFeatureSampling(resample);
        uint32 before[64];
        const IIndexVector& v = beamPtr->sample();
        checkIndices(v, n, kept, lo + kept, hi + kept);
        for (uint32 i = 0; i < v.getNumElements(); i++) before[i] = v.getIndex(i);
        const IIndexVector& v2 = beamPtr->sample();
        checkIndices(v2, n, kept, lo + kept, hi + kept);
        if (!resample)
            for (uint32 i = 0; i < v2.getNumElements(); i++)
                sx_check(before[i] == v2.getIndex(i), "if no resampling is used, the same features are used for all refinements of a rule");
    }
    sx_reach("end");
}

extern "C" void h_output() {
    uint32 n = sx_param("n", 3), kind = sx_param("kind", 0);
    struct Outputs final : public IOutputMatrix {
            uint32 n;
            bool isSparse() const override { return false; }
            uint32 getNumExamples() const override { return 1; }
            uint32 getNumOutputs() const override { return n; }
    } outputs;
    outputs.n = n;
    std::unique_ptr<IOutputSamplingFactory> factoryPtr;
    uint32 lo = n, hi = n;
    if (kind == 0) {
        factoryPtr = NoOutputSamplingConfig().createOutputSamplingFactory(outputs);
    } else if (kind == 1) {
        factoryPtr = RoundRobinOutputSamplingConfig().createOutputSamplingFactory(outputs);
        lo = hi = 1;
    } else {
        OutputSamplingWithoutReplacementConfig c {ReadableProperty<RNGConfig>(rngConfig)};
        uint32 minSamples = 1 + (sx_param("minmax", 0) ? sx_choice("minSamples", n + 1) : 0);
        uint32 maxSamples = sx_param("minmax", 0) && sx_choice("hasMax", 2) ? minSamples + sx_choice("maxSamples", 2) : 0;
        float32 size = sx_f32("sampleSize", 0, 1);
        sx_assume(size > 0 && size < 1);
        c.setSampleSize(size).setMinSamples(minSamples).setMaxSamples(maxSamples);
        lo = imin(minSamples, n);
        hi = maxSamples ? imin(maxSamples, n) : n;
        while (lo < hi && (float64) size * n >= lo + 1) lo++;
        while (hi > lo && (float64) size * n <= hi - 1) hi--;
        factoryPtr = c.createOutputSamplingFactory(outputs);
    }
    std::unique_ptr<IOutputSampling> samplingPtr = factoryPtr->create();
    for (uint32 r = 0; r < sx_param("rounds", 2); r++) {
        const IIndexVector& v = samplingPtr->sample();
        checkIndices(v, n, 0, lo, hi);
        sx_check(v.isPartial() == (kind != 0), "a sample is partial unless all outputs are included");
        if (kind == 1) sx_check(v.getIndex(0) == r % n, "round robin sampling cycles through the outputs");
    }
    sx_reach("end");
}
