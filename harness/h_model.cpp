// Rule bodies, condition lists and rule lists
#include "sx.hpp"
#include "mlrl/common/model/body_conjunctive.hpp"
#include "mlrl/common/model/body_empty.hpp"
#include "mlrl/common/model/condition_list.hpp"
#include "mlrl/common/model/head_complete.hpp"
#include "mlrl/common/model/head_partial.hpp"
#include "mlrl/common/model/rule_list.hpp"

#include <cmath>
#include <limits>

static const uint32 NF = 2;

struct Cond {
        uint32 f;
        uint32 cmp;
        float32 ft;
        int32 it;
};

static bool refCovers(const Cond& c, float32 v) {
    // missing values do not satisfy any condition
    if (std::isnan(v)) return false;
    switch (c.cmp) {
        case NUMERICAL_LEQ: return !(v > c.ft);
        case NUMERICAL_GR: return v > c.ft;
        case ORDINAL_LEQ: return (int32) v <= c.it;
        case ORDINAL_GR: return (int32) v > c.it;
        case NOMINAL_EQ: return (int32) v == c.it;
        default: return (int32) v != c.it;
    }
}

static Condition toCondition(const Cond& c) {
    Condition r;
    r.start = 0;
    r.end = 0;
    r.inverse = false;
    r.featureIndex = c.f;
    r.comparator = static_cast<Comparator>(c.cmp);
    if (c.cmp <= NUMERICAL_GR) r.threshold = c.ft;
    else r.threshold = c.it;
    r.numCovered = 1;
    return r;
}

// The number of conditions per comparator that a body must report
static void checkCounts(const ConjunctiveBody& b, const Cond* c, uint32 n) {
    uint32 cnt[6] = {0, 0, 0, 0, 0, 0};
    for (uint32 i = 0; i < n; i++) cnt[c[i].cmp]++;
    sx_check(b.getNumNumericalLeq() == cnt[0] && b.getNumNumericalGr() == cnt[1] && b.getNumOrdinalLeq() == cnt[2]
               && b.getNumOrdinalGr() == cnt[3] && b.getNumNominalEq() == cnt[4] && b.getNumNominalNeq() == cnt[5],
             "a body has as many conditions of each type as have been added");
}

extern "C" void h_body() {
    uint32 maxN = sx_param("conds", 2);
    uint32 n = maxN;
    Cond c[4];
    ConditionList list;
    for (uint32 i = 0; i < n; i++) {
        c[i].f = sx_choice("feature", NF);
        c[i].cmp = sx_choice("comparator", 6);
        c[i].ft = 0;
        c[i].it = 0;
        if (c[i].cmp <= NUMERICAL_GR) c[i].ft = sx_f32("threshold", -4, 4);
        else c[i].it = sx_i32("ithreshold", -2, 2);
        list.addCondition(toCondition(c[i]));
    }
    // histories: conditions may be removed from the end, and lists may be copied
    uint32 mode = sx_choice("history", n > 1 ? 4 : 2);   // plain, copied, shortened, shortened and extended again
    if (mode >= 2) {
        list.removeLastCondition();
        n--;
    }
    ConditionList copy1(list);
    ConditionList copy2(copy1);
    ConditionList* l = &list;
    if (mode == 1) l = &copy1;
    if (mode == 3) {
        // a copy can be modified independently
        copy2.addCondition(toCondition(c[n]));
        n++;
        l = &copy2;
    }
    sx_check(l->getNumConditions() == n, "number of conditions");
    uint32 k = 0;
    for (auto it = l->cbegin(); it != l->cend(); it++) {
        const Condition& cond = *it;
        sx_check(k < n && cond.featureIndex == c[k].f && cond.comparator == c[k].cmp, "conditions are kept in order");
        k++;
    }
    std::unique_ptr<ConjunctiveBody> bodyPtr = l->createConjunctiveBody();
    checkCounts(*bodyPtr, c, n);

    // an example: dense, and the corresponding sparse representation
    float32 x[NF];
    bool stored[NF];
    float32 sparseValue = sx_f32("sparseValue", -3, 3);
    for (uint32 f = 0; f < NF; f++) {
        uint32 kind = sx_choice("kind", 3);
        stored[f] = kind != 0;
        x[f] = kind == 0 ? sparseValue : kind == 1 ? sx_f32("x", -3, 3) : std::numeric_limits<float32>::quiet_NaN();
    }
    bool expected = true;
    for (uint32 i = 0; i < n; i++) expected = expected & refCovers(c[i], x[c[i].f]);
    const IBody& body = *bodyPtr;
    bool dense = body.covers(x, x + NF);
    sx_check(dense == expected, "a dense example is covered iff all conditions are satisfied");
    uint32 idx[NF];
    float32 val[NF];
    uint32 m = 0;
    for (uint32 f = 0; f < NF; f++)
        if (stored[f]) {
            idx[m] = f;
            val[m] = x[f];
            m++;
        }
    float32 tmp1[NF] = {77, -77};
    uint32 tmp2[NF] = {0, 0};
    // the temporary arrays are reused for several rules and examples
    if (maxN > 1 || sx_choice("dirty", 2)) {
        uint32 i2[NF] = {0, 1};
        float32 v2[NF] = {3.5f, -3.5f};
        body.covers(i2, i2 + NF, v2, v2 + NF, sparseValue, tmp1, tmp2, 1);
    }
    bool sparse = body.covers(idx, idx + m, val, val + m, sparseValue, tmp1, tmp2, 2);
    sx_check(sparse == expected, "a sparse example is covered iff the dense one is");
    EmptyBody empty;
    sx_check(empty.covers(x, x + NF), "an empty body covers every example");
    sx_check(empty.covers(idx, idx + m, val, val + m, sparseValue, tmp1, tmp2, 3), "an empty body covers every sparse example");
    sx_obs("covered", dense);
    if (expected) sx_reach("covered");
    else sx_reach("uncovered");
}

// Rule lists -----------------------------------------------------------------------------------------------------------

extern "C" void h_rule_list() {
    bool precedence = sx_choice("precedence", 2);
    std::unique_ptr<IRuleList> listPtr = createRuleList(precedence);
    uint32 n = sx_choice("rules", 5);
    uint32 hasDefault = sx_choice("default", 3);   // 0: none, 1: added first, 2: added last
    auto addDefault = [&]() {
        std::unique_ptr<CompleteHead> headPtr = std::make_unique<CompleteHead>(1);
        headPtr->values_begin()[0] = 1000;
        listPtr->addDefaultRule(std::move(headPtr));
    };
    if (hasDefault == 1) addDefault();
    for (uint32 i = 0; i < n; i++) {
        std::unique_ptr<PartialHead> headPtr = std::make_unique<PartialHead>(1);
        headPtr->indices_begin()[0] = i;
        headPtr->values_begin()[0] = i;
        listPtr->addRule(std::make_unique<ConjunctiveBody>(i, 0, 0, 0, 0, 0), std::move(headPtr));
    }
    if (hasDefault == 2) addDefault();
    uint32 total = n + (hasDefault ? 1 : 0);
    sx_check(listPtr->getNumRules() == total, "number of rules");
    sx_check(listPtr->containsDefaultRule() == (hasDefault != 0), "presence of a default rule");
    sx_check(listPtr->getNumUsedRules() == total, "by default, all rules are used");
    uint32 used = sx_choice("used", total + 1);
    listPtr->setNumUsedRules(used);
    uint32 numUsed = used ? used : total;
    sx_check(listPtr->getNumUsedRules() == numUsed, "number of used rules");
    sx_check(listPtr->getNumRules() == total, "the number of rules does not depend on how many are used");

    double seq[8];
    uint32 bodySize[8];
    uint32 h = 0, b = 0;
    auto eb = [&](const EmptyBody&) { bodySize[b++] = 99; };
    auto cb = [&](const ConjunctiveBody& body) { bodySize[b++] = body.getNumNumericalLeq(); };
    auto ch = [&](const CompleteHead& head) { seq[h++] = head.values_cbegin()[0]; };
    auto ph = [&](const PartialHead& head) {
        sx_check(head.getNumElements() == 1 && head.indices_cbegin()[0] == (uint32) head.values_cbegin()[0], "partial head");
        seq[h++] = head.values_cbegin()[0];
    };
    auto expectSeq = [&](uint32 count) {
        sx_check(h == count && b == count, "each rule is visited exactly once");
        uint32 next = 0;
        for (uint32 i = 0; i < count; i++) {
            bool isDefault = hasDefault && (precedence ? i == 0 : i == count - 1);
            sx_check(seq[i] == (isDefault ? 1000 : (double) next), "rules are visited in order, the default rule first or last");
            sx_check(bodySize[i] == (isDefault ? 99 : next), "bodies belong to their heads");
            if (!isDefault) next++;
        }
        h = b = 0;
    };
    listPtr->visit(eb, cb, ch, ph);
    expectSeq(total);
    listPtr->visitUsed(eb, cb, ch, ph);
    expectSeq(numUsed);
    // iterators with a maximum number of rules
    const RuleList& rl = dynamic_cast<const RuleList&>(*listPtr);
    uint32 maxRules = sx_choice("maxRules", 6);
    uint32 lim = maxRules && maxRules < numUsed ? maxRules : numUsed;
    uint32 count = 0;
    for (auto it = rl.used_cbegin(maxRules); it != rl.used_cend(maxRules); it++) {
        (*it).visit(eb, cb, ch, ph);
        count++;
    }
    sx_check(count == lim, "at most the given number of rules is considered");
    expectSeq(lim);
    sx_check(rl.used_cend(maxRules) - rl.used_cbegin(maxRules) == (int) lim, "distance of iterators");
    sx_obs("count", count);
    sx_reach("end");
}
