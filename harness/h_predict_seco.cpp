// Predictions of separate-and-conquer models (decision lists)
#include "predict_model.hpp"
#include "mlrl/seco/prediction/predictor_binary_output_wise.hpp"

extern "C" void h_predict_seco() {
    Model m;
    makeModel(m, false, true, 0, 1);
    Threads threads;
    threads.num = sx_param("threads", 1);
    seco::OutputWiseBinaryPredictorConfig config(ReadableProperty<IMultiThreadingConfig>([&]() -> IMultiThreadingConfig& { return threads; }));
    std::unique_ptr<INoOutputSpaceInfo> infoPtr = createNoOutputSpaceInfo();
    std::unique_ptr<INoProbabilityCalibrationModel> calPtr = createNoProbabilityCalibrationModel();
    uint32 maxRules = sx_param("limit", 0) ? sx_choice("maxRules", m.num + 2) : 0;
    uint32 order[MAXR];
    uint32 count = rulesToApply(m, maxRules, order);
    bool expected[MAXN][MAXL], any[MAXN][MAXL];
    for (uint32 i = 0; i < m.n; i++) {
        for (uint32 j = 0; j < m.l; j++) {
            bool done = false;
            expected[i][j] = false;
            any[i][j] = false;
            for (uint32 k = 0; k < count; k++) {
                uint32 r = order[k];
                if (m.covers[i][r] && m.affects[r][j]) {
                    if (!done) expected[i][j] = m.value[r][j] > 0;
                    done = true;
                    any[i][j] = any[i][j] || m.value[r][j] > 0;
                }
            }
        }
    }
    auto factoryPtr = config.createPredictorFactory(*m.featuresPtr, m.l);
    auto predictorPtr = m.featuresPtr->createBinaryPredictor(*factoryPtr, *m.listPtr, *infoPtr, *calPtr, *calPtr, m.l);
    auto densePtr = predictorPtr->predict(maxRules);
    sx_check(densePtr->getNumRows() == m.n && densePtr->getNumCols() == m.l, "one prediction per example and label");
    for (uint32 i = 0; i < m.n; i++) {
        for (uint32 j = 0; j < m.l; j++)
            sx_check(densePtr->get()[i * m.l + j] == (expected[i][j] ? 1 : 0), "the first covering rule decides about a label");
    }
    auto sparseFactoryPtr = config.createSparsePredictorFactory(*m.featuresPtr, m.l);
    auto sparsePtr = m.featuresPtr->createSparseBinaryPredictor(*sparseFactoryPtr, *m.listPtr, *infoPtr, *calPtr, *calPtr, m.l)->predict(maxRules);
    sx_check(sparsePtr->getNumRows() == m.n && sparsePtr->getNumCols() == m.l, "one sparse prediction per example and label");
    const uint32* indptr = sparsePtr->getIndptr();
    const uint32* indices = sparsePtr->getIndices();
    sx_check(indptr[0] == 0, "the indices of the first row start at 0");
    for (uint32 i = 0; i < m.n; i++) {
        bool s[MAXL];
        for (uint32 j = 0; j < m.l; j++) s[j] = false;
        sx_check(indptr[i] <= indptr[i + 1], "row pointers are ascending");
        for (uint32 p = indptr[i]; p < indptr[i + 1]; p++) {
            uint32 j = indices[p];
            sx_check(j < m.l && (p == indptr[i] || indices[p - 1] < j), "indices are valid and sorted");
            s[j] = true;
        }
        for (uint32 j = 0; j < m.l; j++) {
            bool asKnown = s[j] == any[i][j] && any[i][j] && !expected[i][j];
            if (asKnown) sx_known("C12-F1", s[j] == expected[i][j], "sparse and dense predictions are the same (several rules cover the example)");
            else sx_check(s[j] == expected[i][j], "sparse and dense predictions are the same");
        }
    }
    sx_check(!predictorPtr->canPredictIncrementally(), "decision lists cannot be evaluated incrementally");
    sx_obs("first", densePtr->get()[0]);
    sx_reach("end");
}
