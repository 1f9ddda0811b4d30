// A model with a few rules and a feature matrix, together with what each rule is supposed to predict for each example
#pragma once
#include "sx.hpp"
#include "mlrl/common/input/feature_matrix_c_contiguous.hpp"
#include "mlrl/common/input/feature_matrix_csr.hpp"
#include "mlrl/common/model/body_conjunctive.hpp"
#include "mlrl/common/model/head_complete.hpp"
#include "mlrl/common/model/head_partial.hpp"
#include "mlrl/common/model/rule_list.hpp"
#include "mlrl/common/multi_threading/multi_threading.hpp"
#include "mlrl/common/prediction/label_vector_set.hpp"
#include "mlrl/common/prediction/output_space_info_no.hpp"
#include "mlrl/common/prediction/prediction_matrix_dense.hpp"
#include "mlrl/common/prediction/prediction_matrix_sparse_binary.hpp"
#include "mlrl/common/prediction/predictor_binary.hpp"
#include "mlrl/common/prediction/predictor_probability.hpp"
#include "mlrl/common/prediction/predictor_score.hpp"
#include "mlrl/common/prediction/probability_calibration_no.hpp"
#include <memory>

static const uint32 MAXN = 3, MAXL = 4, MAXR = 5, MAXF = 3;

class Threads final : public IMultiThreadingConfig {
    public:

        uint32 num;

        MultiThreadingSettings getSettings(const IFeatureMatrix&, uint32) const override {
            return MultiThreadingSettings(num);
        }
};

struct Model {
        uint32 n, l, r, nf;
        bool hasDefault, defaultFirst;
        std::unique_ptr<IRuleList> listPtr;
        std::unique_ptr<IRowWiseFeatureMatrix> featuresPtr;
        // in the order in which rules are to be applied
        uint32 num;                       // number of rules including the default rule
        bool covers[MAXN][MAXR];
        bool affects[MAXR][MAXL];
        float64 value[MAXR][MAXL];
        float32 dense[MAXN * MAXF];
        float32 values[MAXN * MAXF];
        uint32 indices[MAXN * MAXF];
        uint32 indptr[MAXN + 1];
        uint32 used;                      // number of rules that may be used
};

// binary: heads predict 0 or 1
static void makeModel(Model& m, bool defaultFirst, bool binary, float64 lo, float64 hi) {
    m.n = sx_param("n", 2);
    m.l = sx_param("l", 2);
    m.r = sx_param("r", 2);
    m.nf = sx_param("f", 2);
    uint32 dflt = sx_param("default", 2);
    m.hasDefault = dflt == 2 ? sx_choice("default", 2) : dflt;
    m.defaultFirst = defaultFirst;
    m.listPtr = createRuleList(defaultFirst);
    m.num = m.r + m.hasDefault;
    bool defaultEarly = m.hasDefault && sx_param("early", 1);   // when the default rule is added
    auto value = [&](const char* name) -> float64 { return binary ? (float64) sx_choice(name, 2) : sx_f64(name, lo, hi); };
    uint32 defaultIndex = defaultFirst ? 0 : m.r;
    auto addDefault = [&]() {
        std::unique_ptr<CompleteHead> headPtr = std::make_unique<CompleteHead>(m.l);
        for (uint32 j = 0; j < m.l; j++) {
            float64 v = value("defaultValue");
            headPtr->values_begin()[j] = v;
            m.value[defaultIndex][j] = v;
            m.affects[defaultIndex][j] = true;
        }
        for (uint32 i = 0; i < m.n; i++) m.covers[i][defaultIndex] = true;
        m.listPtr->addDefaultRule(std::move(headPtr));
    };
    if (m.hasDefault && defaultEarly) addDefault();
    // features
    bool csr = sx_param("csr", 0);
    float32 sparseValue = csr ? sx_f32("sparseValue", -2, 2) : 0;
    uint32 nnz = 0;
    for (uint32 i = 0; i < m.n; i++) {
        m.indptr[i] = nnz;
        for (uint32 f = 0; f < m.nf; f++) {
            bool stored = !csr || sx_choice("stored", 2);
            float32 v = sparseValue;
            if (stored) {
                v = sx_f32("featureValue", -2, 2);
                m.values[nnz] = v;
                m.indices[nnz] = f;
                nnz++;
            }
            m.dense[i * m.nf + f] = v;
        }
    }
    m.indptr[m.n] = nnz;
    if (csr) m.featuresPtr = createCsrFeatureMatrix(m.values, m.indices, m.indptr, m.n, m.nf, sparseValue);
    else m.featuresPtr = createCContiguousFeatureMatrix(m.dense, m.n, m.nf);
    // rules
    uint32 fixedHeads = sx_param("heads", 0);
    for (uint32 r = 0; r < m.r; r++) {
        uint32 k = m.hasDefault && defaultFirst ? r + 1 : r;
        uint32 f = r % m.nf;
        bool gr = (r & 1) != 0;
        std::unique_ptr<ConjunctiveBody> bodyPtr = std::make_unique<ConjunctiveBody>(!gr, gr, 0, 0, 0, 0);
        if (gr) {
            bodyPtr->numerical_gr_indices_begin()[0] = f;
            bodyPtr->numerical_gr_thresholds_begin()[0] = 0.5f;
        } else {
            bodyPtr->numerical_leq_indices_begin()[0] = f;
            bodyPtr->numerical_leq_thresholds_begin()[0] = 0.5f;
        }
        for (uint32 i = 0; i < m.n; i++) m.covers[i][k] = (m.dense[i * m.nf + f] > 0.5f) == gr;
        // 0: complete head, otherwise a bit mask of labels (in ascending order)
        uint32 head = fixedHeads ? (r == 0 ? (fixedHeads == 1 ? 0 : 1) : (1u << m.l) - 1) : sx_choice("head", 1u << m.l);
        for (uint32 j = 0; j < m.l; j++) {
            m.affects[k][j] = head == 0 || (head >> j & 1);
            m.value[k][j] = m.affects[k][j] ? value("value") : 0;
        }
        if (head == 0) {
            std::unique_ptr<CompleteHead> headPtr = std::make_unique<CompleteHead>(m.l);
            for (uint32 j = 0; j < m.l; j++) headPtr->values_begin()[j] = m.value[k][j];
            m.listPtr->addRule(std::move(bodyPtr), std::move(headPtr));
        } else {
            uint32 size = 0;
            for (uint32 j = 0; j < m.l; j++) size += head >> j & 1;
            std::unique_ptr<PartialHead> headPtr = std::make_unique<PartialHead>(size);
            uint32 p = 0;
            for (uint32 j = 0; j < m.l; j++) {
                if (head >> j & 1) {
                    headPtr->indices_begin()[p] = j;
                    headPtr->values_begin()[p] = m.value[k][j];
                    p++;
                }
            }
            m.listPtr->addRule(std::move(bodyPtr), std::move(headPtr));
        }
    }
    if (m.hasDefault && !defaultEarly) addDefault();
    m.used = m.num;
    if (sx_param("limit", 0)) {
        uint32 used = sx_choice("used", m.num + 1);
        m.listPtr->setNumUsedRules(used);
        if (used) m.used = used;
    }
}

// The rules (in order) that must be applied if at most maxRules rules may be used
static uint32 rulesToApply(const Model& m, uint32 maxRules, uint32* out) {
    uint32 k = maxRules && maxRules < m.used ? maxRules : m.used;
    uint32 c = 0;
    if (m.hasDefault && !m.defaultFirst) {
        for (uint32 i = 0; i + 1 < k; i++) out[c++] = i;
        out[c++] = m.r;   // the default rule remains
    } else {
        for (uint32 i = 0; i < k; i++) out[c++] = i;
    }
    return c;
}
