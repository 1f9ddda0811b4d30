// Stopping criteria: size, time, lists of criteria, pre-pruning and post-pruning of rule models
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/partition_single.hpp"
#include "mlrl/common/stopping/global_pruning_post.hpp"
#include "mlrl/common/stopping/global_pruning_pre.hpp"
#include "mlrl/common/stopping/stopping_criterion_list.hpp"
#include "mlrl/common/stopping/stopping_criterion_size.hpp"
#include "mlrl/common/stopping/stopping_criterion_time.hpp"
#include "mock_statistics.hpp"

#include <chrono>
#include <cmath>
#include <limits>

// The clock returns arbitrary values that do not decrease
static int64 now() {
    int64 t = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
    sx_assume(t >= 0 && t < (int64) 1 << sx_param("clockBits", 34));
    return t;
}

static const uint32 MAXR = 12, MAXE = 4;
static uint32 N, E;   // number of rules, number of examples
static double SCORES[MAXE];
static uint32 EVALUATED;

static double evaluation(uint32 i) {
    sx_check(i < E, "only available examples are evaluated");
    EVALUATED |= 1u << i;
    return SCORES[i];
}

static bool isNear(double a, double b) {
    double d = a - b;
    return d < 0.00001 && d > -0.00001;
}

struct Data {
        MockStatistics statistics;
        SinglePartition single;
        std::unique_ptr<BiPartition> bi;
        uint32 numFirst;

        Data() : statistics(E, 1), single(E), numFirst(E) {
            statistics.evaluation = evaluation;
            if (sx_param("holdout", 0)) {
                numFirst = E - 1;
                bi = std::make_unique<BiPartition>(numFirst, E - numFirst);
                // the example in the holdout set is chosen arbitrarily
                uint32 h = sx_choice("holdout", E);
                uint32 n = 0;
                for (uint32 i = 0; i < E; i++)
                    if (i != h) bi->first_begin()[n++] = i;
                bi->second_begin()[0] = h;
            }
        }

        std::unique_ptr<IStoppingCriterion> create(const IStoppingCriterionFactory& factory) {
            return bi ? bi->createStoppingCriterion(factory) : single.createStoppingCriterion(factory);
        }

        bool relevant(uint32 i, bool useHoldoutSet) {
            if (!bi) return true;
            bool holdout = bi->second_cbegin()[0] == i;
            return holdout == useHoldoutSet;
        }

        // The quality of the current model
        double makeScores(bool useHoldoutSet) {
            double sum = 0;
            uint32 n = 0;
            for (uint32 i = 0; i < E; i++) {
                SCORES[i] = sx_f64("score", 0, 4);
                if (relevant(i, useHoldoutSet)) {
                    sum += SCORES[i];
                    n++;
                }
            }
            return sum / n;
        }
};

extern "C" void h_prepruning() {
    N = sx_param("n", 5);
    E = sx_param("e", 1);
    Data data;
    bool useHoldoutSet = sx_choice("useHoldoutSet", data.bi ? 2 : 1);
    bool remove = sx_choice("remove", 2);
    bool infinite = sx_param("infinite", 0);
    uint32 past = sx_param("past", 1), recent = sx_param("recent", 1);
    uint32 update = sx_param("update", 1), stop = update * sx_param("stop", 1);
    uint32 minRules = 1 + sx_choice("minRules", sx_param("minRules", 4));
    uint32 aggregation = sx_choice("aggregation", past > 1 || recent > 1 ? 3 : 1);
    double minImprovement = sx_f64("minImprovement", 0, 1);
    PrePruningConfig config;
    config.setUseHoldoutSet(useHoldoutSet).setRemoveUnusedRules(remove).setMinRules(minRules).setUpdateInterval(update).setStopInterval(stop)
      .setNumPast(past).setNumCurrent(recent).setMinImprovement(minImprovement)
      .setAggregationFunction(aggregation == 0 ? AggregationFunction::ARITHMETIC_MEAN : aggregation == 1 ? AggregationFunction::MIN : AggregationFunction::MAX);
    auto factory = config.createStoppingCriterionFactory();
    auto criterion = data.create(*factory);
    double scores[MAXR];
    uint32 num = 0, bestRules = 0;
    double best = 0;
    bool stopped = false;
    uint32 capacity = (past + recent) * update;
    uint32 offset = capacity < minRules ? minRules - capacity : 0;
    for (uint32 r = 1; r <= N; r++) {
        double score = data.makeScores(useHoldoutSet);
        if (infinite && sx_choice("infinite", 2)) {
            for (uint32 i = 0; i < E; i++) SCORES[i] = std::numeric_limits<double>::infinity();
            score = SCORES[0];
        }
        EVALUATED = 0;
        auto result = criterion->test(data.statistics, r);
        for (uint32 i = 0; i < E; i++)
            if (EVALUATED & (1u << i)) sx_check(data.relevant(i, useHoldoutSet), "only examples in the correct set are evaluated");
        sx_check(result.numUsedRules <= r, "at most all rules are used");
        sx_check(result.numUsedRules == 0 || result.numUsedRules >= minRules, "the minimum number of rules is retained");
        sx_check(!result.stop || r >= minRules, "at least the minimum number of rules is learned");
        sx_check(!result.stop || remove, "additional rules are learned if unused rules should be retained");
        if (stopped) sx_check(!result.stop && result.numUsedRules == 0, "unused rules are determined once");
        bool expected = false, unspecified = false;
        if (!stopped && !infinite && r > offset && r % update == 0) {
            if (num >= past + recent) {
                if (bestRules == 0 || score < best) {
                    best = score;
                    bestRules = r;
                }
                if (r % stop == 0) {
                    double values[2];
                    for (uint32 k = 0; k < 2; k++) {
                        uint32 from = k ? num - recent : num - recent - past, to = k ? num : num - recent;
                        double v = aggregation == 0 ? 0 : scores[from];
                        for (uint32 i = from; i < to; i++)
                            if (aggregation == 0) v += scores[i];
                            else if (aggregation == 1 ? scores[i] < v : scores[i] > v) v = scores[i];
                        values[k] = aggregation == 0 ? v / (to - from) : v;
                    }
                    double t = minImprovement * values[1], d = values[0] - values[1];
                    expected = d < t;
                    // a model that is perfect can not be improved, i.e., learning is stopped
                    if (values[1] == 0) {
                        unspecified = values[0] > 0 || minImprovement == 0;
                        expected = true;
                    }
                    // no deviations because of rounding
                    if (!unspecified && isNear(d, t) && values[1] != 0) unspecified = sx_param("exact", 0) ? false : !sx_symbolic();
                }
            }
            scores[num++] = score;
        }
        if (!infinite) {
            bool actual = result.stop || result.numUsedRules != 0;
            if (!unspecified) sx_check(actual == expected, "learning is stopped when the quality does not improve anymore");
            if (actual) {
                sx_check(result.numUsedRules == bestRules, "the rules that result in the best quality are used");
                sx_check(result.stop == remove, "learning is stopped when the quality does not improve anymore");
                stopped = true;
            }
        } else if (result.stop || result.numUsedRules != 0) stopped = true;
        if (result.stop) break;
    }
    sx_reach("end");
    if (stopped) sx_reach("stopped");
}

extern "C" void h_postpruning() {
    N = sx_param("n", 5);
    E = sx_param("e", 1);
    Data data;
    bool useHoldoutSet = sx_choice("useHoldoutSet", data.bi ? 2 : 1);
    bool remove = sx_choice("remove", 2);
    uint32 minRules = 1 + sx_choice("minRules", 3);
    uint32 interval = 1 + sx_choice("interval", 2);
    PostPruningConfig config;
    config.setUseHoldoutSet(useHoldoutSet).setRemoveUnusedRules(remove).setMinRules(minRules).setInterval(interval);
    sx_check(config.shouldUseHoldoutSet() == useHoldoutSet && config.shouldRemoveUnusedRules() == remove, "options of post-pruning");
    auto factory = config.createStoppingCriterionFactory();
    auto criterion = data.create(*factory);
    double best = 0;
    uint32 bestRules = 0, used = 0;
    for (uint32 r = 1; r <= N; r++) {
        double score = data.makeScores(useHoldoutSet);
        EVALUATED = 0;
        auto result = criterion->test(data.statistics, r);
        for (uint32 i = 0; i < E; i++)
            if (EVALUATED & (1u << i)) sx_check(data.relevant(i, useHoldoutSet), "only examples in the correct set are evaluated");
        sx_check(!result.stop, "post-pruning does not stop learning");
        if (result.numUsedRules != 0) used = result.numUsedRules;
        if (r >= minRules && r % interval == 0) {
            // no deviations because of rounding
            if (bestRules != 0) sx_assume(score == best || !isNear(score, best));
            if (bestRules == 0 || score < best) {
                best = score;
                bestRules = r;
            }
        }
    }
    sx_check(used == bestRules, "the rules that result in the best quality are used");
    sx_reach("end");
}

extern "C" void h_limits() {
    N = sx_param("n", 4);
    E = 1;
    Data data;
    uint32 criteria = sx_param("criteria", 7);
    bool size = criteria & 1, time = criteria & 2, post = criteria & 4;
    uint32 maxRules = sx_u32("maxRules", 1, 4294967295u);
    uint32 limit = sx_u32("timeLimit", 1, sx_param("maxLimit", 16));
    StoppingCriterionListFactory list;
    SizeStoppingCriterionConfig sizeConfig;
    TimeStoppingCriterionConfig timeConfig;
    PostPruningConfig postConfig;
    sizeConfig.setMaxRules(maxRules);
    timeConfig.setTimeLimit(limit);
    postConfig.setMinRules(1);
    sx_check(sizeConfig.getMaxRules() == maxRules && timeConfig.getTimeLimit() == limit, "options of stopping criteria");
    uint32 order = sx_choice("order", 2);
    for (uint32 k = 0; k < 3; k++) {
        uint32 c = order ? 2 - k : k;
        if (c == 0 && size) list.addStoppingCriterionFactory(sizeConfig.createStoppingCriterionFactory());
        if (c == 1 && time) list.addStoppingCriterionFactory(timeConfig.createStoppingCriterionFactory());
        if (c == 2 && post) list.addStoppingCriterionFactory(postConfig.createStoppingCriterionFactory());
    }
    auto criterion = data.create(list);
    int64 start[2] = {0, 0};
    double best = 0;
    uint32 r = sx_u32("numRules", 0, 4294967290u);
    for (uint32 k = 0; k < N; k++) {
        double score = data.makeScores(false);
        int64 before = now();
        auto result = criterion->test(data.statistics, r);
        int64 after = now();
        if (k == 0) {
            start[0] = before;
            start[1] = after;
        }
        bool sizeReached = size && r >= maxRules;
        bool timeReached = time && k > 0 && before - start[1] >= (int64) limit * 1000000000;
        bool timeNotReached = !time || k == 0 || after - start[0] < (int64) limit * 1000000000;
        if (sizeReached || timeReached) sx_check(result.stop, "learning is stopped if the maximum number of rules is reached or the time limit is exceeded");
        if (!sizeReached && timeNotReached) sx_check(!result.stop, "learning is not stopped before the maximum number of rules is reached or the time limit is exceeded");
        bool used = false;
        if (post && r >= 1) {
            used = best == 0 || score + 1 < best;
            if (used) best = score + 1;
        }
        sx_check(result.numUsedRules == (used ? r : 0), "the rules that result in the best quality are used");
        if (result.stop) break;
        r++;
    }
    sx_reach("end");
}
