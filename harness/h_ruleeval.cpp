// Gradient boosting: heads of rules and their quality (rule evaluation), label binning
#include "sx.hpp"
#include "mlrl/boosting/binning/label_binning_equal_width.hpp"
#include "mlrl/boosting/binning/label_binning_no.hpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_dense.hpp"
#include "mlrl/boosting/data/vector_statistic_decomposable_sparse.hpp"
#include "mlrl/boosting/data/vector_statistic_non_decomposable_dense.hpp"
#include "mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_single.hpp"
#include "mlrl/boosting/util/blas.hpp"
#include "mlrl/boosting/util/lapack.hpp"
#include "mlrl/common/indices/index_vector_complete.hpp"
#include "mlrl/common/indices/index_vector_partial.hpp"
#include "mlrl/common/rule_refinement/prediction_complete.hpp"
#include "mlrl/common/rule_refinement/prediction_partial.hpp"
#include "mlrl/common/rule_refinement/score_processor.hpp"

#include <cmath>

using namespace boosting;

static const uint32 MAXL = 4;
static uint32 L;
static double G[MAXL];                    // gradients
static double H[MAXL][MAXL];              // Hessians
static double CRIT[MAXL];                 // what is predicted for individual outputs
static double L1, L2;
static bool NONDEC;

static bool isNear(double a, double b) {
    double d = a - b;
    return d < 0.00001 && d > -0.00001;
}

static double absolute(double v) {
    return v < 0 ? -v : v;
}

// BLAS and LAPACK ---------------------------------------------------------------------------------------------------------
static double ddot(int* n, double* x, int* incx, double* y, int* incy) {
    sx_check(*incx == 1 && *incy == 1, "strides of vectors");
    double sum = 0;
    for (int i = 0; i < *n; i++) sum += x[i] * y[i];
    return sum;
}

static void dspmv(char* uplo, int* n, double* alpha, double* ap, double* x, int* incx, double* beta, double* y, int* incy) {
    sx_check(*uplo == 'U' && *incx == 1 && *incy == 1 && *alpha == 1 && *beta == 0, "arguments of DSPMV");
    for (int i = 0; i < *n; i++) y[i] = 0;
    for (int c = 0; c < *n; c++)
        for (int r = 0; r <= c; r++) {
            double v = ap[c * (c + 1) / 2 + r];
            y[r] += v * x[c];
            if (r != c) y[c] += v * x[r];
        }
}

static void dsysv(char* uplo, int* n, int* nrhs, double* a, int* lda, int*, double* b, int* ldb, double* work, int* lwork, int* info) {
    *info = 0;
    if (*lwork == -1) {
        *work = 1;
        return;
    }
    int m = *n;
    sx_check(*uplo == 'U' && *nrhs == 1 && *lda == m && *ldb == m && *lwork >= 1, "arguments of DSYSV");
    // the solution is unique, because systems that are not positive definite are not considered
    double s[MAXL][MAXL], x[MAXL];
    for (int c = 0; c < m; c++)
        for (int r = 0; r <= c; r++) s[r][c] = s[c][r] = a[c * m + r];
    sx_assume(s[0][0] > 0.01);
    if (m > 1) sx_assume(s[0][0] * s[1][1] - s[0][1] * s[0][1] > 0.01);
    if (m > 2)
        sx_assume(s[0][0] * (s[1][1] * s[2][2] - s[1][2] * s[1][2]) - s[0][1] * (s[0][1] * s[2][2] - s[1][2] * s[0][2])
                    + s[0][2] * (s[0][1] * s[1][2] - s[1][1] * s[0][2]) > 0.01);
    for (int i = 0; i < m; i++) x[i] = sx_f64("solution", -1000000, 1000000);
    if (sx_symbolic()) {
        for (int i = 0; i < m; i++) {
            double sum = 0;
            for (int j = 0; j < m; j++) sum += s[i][j] * x[j];
            sx_assume(sum == b[i]);
        }
        for (int i = 0; i < m; i++) b[i] = x[i];
    } else {
        for (int i = 0; i < m; i++)
            for (int j = i + 1; j < m; j++) {
                double f = s[j][i] / s[i][i];
                for (int k = i; k < m; k++) s[j][k] -= f * s[i][k];
                b[j] -= f * b[i];
            }
        for (int i = m - 1; i >= 0; i--) {
            for (int k = i + 1; k < m; k++) b[i] -= s[i][k] * b[k];
            b[i] /= s[i][i];
        }
    }
}

// Specification -----------------------------------------------------------------------------------------------------------
// -g, moved towards zero by the weight of the L1 regularization
static double shrink(double gradient, double l1) {
    double o = -gradient;
    return o > l1 ? o - l1 : o < -l1 ? o + l1 : 0;
}

static double optimum(double gradient, double hessian, double l1, double l2) {
    double d = hessian + l2;
    return d == 0 ? 0 : shrink(gradient, l1) / d;
}

static double quality(double s, double gradient, double hessian, double l1, double l2) {
    return gradient * s + 0.5 * hessian * (s * s) + l1 * absolute(s) + 0.5 * l2 * (s * s);
}

struct Regularization final : public IRegularizationConfig {
        double weight;

        Regularization(double w) : weight(w) {}

        double getWeight() const override {
            return weight;
        }
};

struct Settings {
        uint32 head;         // 0: complete, 1: single output, 2: fixed size, 3: dynamic size
        bool binned;
        float32 ratio;
        uint32 minOutputs;
        uint32 maxOutputs;
        float32 threshold;
        uint32 exponent;
        float32 binRatio;
        uint32 minBins;
        uint32 maxBins;
};

static Settings SET;

static uint32 boundedFraction(uint32 n, float32 ratio, uint32 min, uint32 max) {
    uint32 k = 0;
    while (k < n && (float32) k < ratio * n) k++;
    if (max >= min && k > max) k = max;
    if (k < min) k = min;
    return k > n ? n : k;
}

static void makeSettings() {
    SET.head = sx_param("head", 0);
    SET.binned = sx_param("binned", 0);
    static const float32 RATIOS[] = {0.25f, 0.5f, 0.75f};
    SET.ratio = SET.head == 2 ? (sx_param("ratio", 0) ? RATIOS[sx_param("ratio", 0) - 1] : RATIOS[sx_choice("ratio", 3)]) : 0.5f;
    SET.minOutputs = SET.head == 2 ? 1 + sx_choice("minOutputs", 2) : 1;
    SET.maxOutputs = SET.head == 2 && sx_choice("maxOutputs", 2) ? SET.minOutputs : 0;
    SET.threshold = SET.head == 3 ? sx_f32("threshold", 0.001f, 0.999f) : 0;
    SET.exponent = SET.head == 3 ? (sx_param("exp", 0) ? sx_param("exp", 0) : 1 + sx_choice("exponent", 2)) : 1;
    SET.binRatio = SET.binned ? RATIOS[sx_choice("binRatio", 2)] : 0;
    SET.minBins = SET.binned ? 1 + sx_choice("minBins", 2) : 0;
    SET.maxBins = SET.binned && sx_choice("maxBins", 2) ? SET.minBins : 0;
    L1 = sx_param("l1", 0) ? sx_f64("l1", 0.125, 4) : 0;
    L2 = sx_param("l2", 1) ? sx_f64("l2", 0.125, 4) : 0;
}

static uint32 numPredictions(uint32 n) {
    if (SET.head == 1) return 1;
    if (SET.head == 2) return boundedFraction(n, SET.ratio, SET.minOutputs, SET.maxOutputs);
    return n;
}

static const uint32 NOBIN = 99;

// Assigns outputs to bins of equal width
static void assignBins(const double* criteria, uint32 n, uint32* bins) {
    for (uint32 sign = 0; sign < 2; sign++) {
        uint32 count = 0;
        double min = 0, max = 0;
        for (uint32 i = 0; i < n; i++) {
            bool selected = sign ? criteria[i] > 0 : criteria[i] < 0;
            if (!selected) continue;
            if (count == 0 || criteria[i] < min) min = criteria[i];
            if (count == 0 || criteria[i] > max) max = criteria[i];
            count++;
        }
        if (!count) continue;
        uint32 num = boundedFraction(count, SET.binRatio, SET.minBins, SET.maxBins);
        for (uint32 i = 0; i < n; i++) {
            bool selected = sign ? criteria[i] > 0 : criteria[i] < 0;
            if (!selected) continue;
            // criteria that are equal to the maximum belong to the last bin, unless there is a single value
            uint32 b = 0;
            while (min < max && b + 1 < num && criteria[i] >= min + (b + 1) * ((max - min) / num)) b++;
            bins[i] = sign * MAXL + b;
        }
    }
    for (uint32 i = 0; i < n; i++)
        if (criteria[i] == 0) bins[i] = NOBIN;
}

// The expected result for the selected outputs, if the statistics at the given positions are taken into account
struct Expected {
        bool ok;
        bool qualityOk;
};

static double l1Shrink(double aggregated, uint32 count) {
    return shrink(aggregated, count * L1);
}

static Expected evaluate(const uint32* selected, const uint32* positions, const uint32* bins, const double* values, uint32 n, double q) {
    Expected e;
    e.ok = true;
    uint32 group[MAXL];
    uint32 first[MAXL], count[MAXL];
    double value[MAXL], g[MAXL], h[MAXL][MAXL];
    uint32 num = 0;
    // groups of outputs that share the same score
    for (uint32 i = 0; i < n; i++) {
        group[i] = NOBIN;
        if (SET.binned) {
            if (bins[i] == NOBIN) {
                e.ok = e.ok && values[i] == 0;
                continue;
            }
            for (uint32 j = 0; j < num; j++)
                if (bins[first[j]] == bins[i]) group[i] = j;
        }
        if (group[i] == NOBIN) {
            group[i] = num;
            first[num] = i;
            count[num] = 0;
            g[num] = 0;
            for (uint32 j = 0; j <= num; j++) h[num][j] = h[j][num] = 0;
            value[num] = values[i];
            num++;
        }
        uint32 j = group[i];
        count[j]++;
        g[j] += G[positions[i]];
        h[j][j] += H[positions[i]][positions[i]];
        e.ok = e.ok && values[i] == value[j];
    }
    if (NONDEC)
        for (uint32 i = 0; i < n; i++)
            for (uint32 j = 0; j < n; j++)
                if (group[i] != NOBIN && group[j] != NOBIN && group[i] != group[j])
                    h[group[i]][group[j]] += H[positions[i]][positions[j]];
    double total = 0;
    for (uint32 i = 0; i < num; i++) {
        double r = l1Shrink(g[i], count[i]);
        if (!NONDEC) {
            double s = optimum(g[i], h[i][i], count[i] * L1, count[i] * L2);
            e.ok = e.ok && isNear(value[i], s);
            total += quality(value[i], g[i], h[i][i], count[i] * L1, count[i] * L2);
        } else {
            double sum = (h[i][i] + count[i] * L2) * value[i];
            for (uint32 j = 0; j < num; j++)
                if (j != i) sum += h[i][j] * value[j];
            e.ok = e.ok && isNear(sum, r);
            double sum2 = h[i][i] * value[i];
            for (uint32 j = 0; j < num; j++)
                if (j != i) sum2 += h[i][j] * value[j];
            total += value[i] * g[i] + 0.5 * (value[i] * sum2) + count[i] * L1 * absolute(value[i]) + 0.5 * (count[i] * L2) * (value[i] * value[i]);
        }
    }
    e.qualityOk = isNear(q, total);
    return e;
}

static const char* M_VALUES = "the scores of a head optimize the second-order approximation of the loss for the outputs it predicts for";
static const char* M_QUALITY = "the quality of a head is the value of the objective for the outputs it predicts for";

// Checks the head that corresponds to given scores. The outputs are identified by the given indices.
static void checkHead(const IScoreVector& scores, const uint32* indices, bool partial, bool isFirst) {
    std::unique_ptr<IEvaluatedPrediction> headPtr;
    ScoreProcessor processor(headPtr);
    processor.processScores(scores);
    uint32 selected[MAXL];
    double values[MAXL];
    uint32 n = headPtr->getNumElements();
    PartialPrediction* pp = dynamic_cast<PartialPrediction*>(headPtr.get());
    CompletePrediction* cp = dynamic_cast<CompletePrediction*>(headPtr.get());
    bool expectPartial = SET.head != 0 || partial;
    sx_check(expectPartial ? pp != nullptr : cp != nullptr, "the type of a head is as configured");
    bool dynamic = SET.head == 3 && !partial;
    sx_check(dynamic ? n >= 1 && n <= L : n == (partial && SET.head != 1 ? L : numPredictions(L)), "the number of outputs a head predicts for is as configured");
    for (uint32 k = 0; k < n; k++) {
        values[k] = pp ? pp->values_cbegin()[k] : cp->values_cbegin()[k];
        uint32 index = pp ? pp->indices_cbegin()[k] : k;
        selected[k] = NOBIN;
        for (uint32 l = 0; l < L; l++)
            if (indices[l] == index) selected[k] = l;
        sx_check(selected[k] != NOBIN, "a head predicts for available outputs");
        for (uint32 j = 0; j < k; j++) sx_check(selected[j] != selected[k], "a head predicts for distinct outputs");
    }
    // selection of outputs
    if (n < L || dynamic || SET.head == 1) {
        double min = absolute(CRIT[0]), max = min;
        for (uint32 l = 1; l < L; l++) {
            double a = absolute(CRIT[l]);
            if (a < min) min = a;
            if (a > max) max = a;
        }
        for (uint32 l = 0; l < L; l++) {
            bool contained = false;
            for (uint32 k = 0; k < n; k++) contained = contained || selected[k] == l;
            double a = absolute(CRIT[l]);
            if (dynamic) {
                double d = a - min, t = (1.0 - SET.threshold) * (SET.exponent == 1 ? max - min : (max - min) * (max - min));
                double w = SET.exponent == 1 ? d : d * d;
                sx_check(contained ? w >= t - 0.00001 : w <= t + 0.00001, "a head predicts for all outputs with scores above a threshold");
            } else if (!contained) {
                for (uint32 k = 0; k < n; k++)
                    sx_check(absolute(CRIT[selected[k]]) >= a - 0.00001, "a head predicts for the outputs with the highest absolute scores");
            }
        }
    }
    uint32 bins[MAXL];
    double criteria[MAXL];
    for (uint32 k = 0; k < n; k++) criteria[k] = CRIT[selected[k]];
    if (SET.binned) assignBins(criteria, n, bins);
    double q = headPtr->quality;
    // the positions of statistics that are taken into account
    uint32 positions[MAXL];
    bool identical = true;
    for (uint32 k = 0; k < n; k++) {
        positions[k] = k;
        identical = identical && selected[k] == k;
    }
    Expected right = evaluate(selected, selected, bins, values, n, q);
    if (identical || (!SET.binned && !NONDEC)) {
        sx_check(right.ok, M_VALUES);
        sx_check(right.qualityOk, M_QUALITY);
    } else if (SET.binned) {
        // C07-F1: if only some outputs are selected, the statistics of the first outputs are used
        Expected wrong = evaluate(selected, positions, bins, values, n, q);
        sx_check(right.ok || wrong.ok, M_VALUES);
        sx_check(right.qualityOk || wrong.qualityOk, M_QUALITY);
        if (!right.ok || !right.qualityOk) sx_known("C07-F1", false, M_VALUES);
    } else {
        bool sorted = true;
        for (uint32 k = 1; k < n; k++) sorted = sorted && selected[k - 1] < selected[k];
        // C07-F3: wrong Hessians are used if the outputs are not sorted by their indices
        if (sorted) sx_check(right.ok, M_VALUES);
        else {
            bool wrongOk = true;
            for (uint32 i = 0; i < n; i++) {
                double sum = 0;
                for (uint32 j = 0; j < n; j++) {
                    uint32 c = i > j ? i : j, r = i > j ? j : i;
                    uint32 at = selected[c] * (selected[c] + 1) / 2 + selected[r];
                    uint32 row = 0;
                    while ((row + 1) * (row + 2) / 2 <= at) row++;
                    sum += (H[row][at - row * (row + 1) / 2] + (i == j ? L2 : 0)) * values[j];
                }
                wrongOk = wrongOk && isNear(sum, shrink(G[selected[i]], L1));
            }
            sx_check(right.ok || wrongOk, M_VALUES);
        }
        // C07-F2: the quality is determined based on the statistics of the first outputs
        double total = 0;
        for (uint32 i = 0; i < n; i++) {
            double sum = 0;
            for (uint32 j = 0; j < n; j++) sum += H[i][j] * values[j];
            total += values[i] * G[i] + 0.5 * (values[i] * sum) + L1 * absolute(values[i]) + 0.5 * L2 * (values[i] * values[i]);
        }
        sx_check(right.qualityOk || isNear(q, total), M_QUALITY);
        if (!right.ok) sx_known("C07-F3", false, M_VALUES);
        if (!right.qualityOk) sx_known("C07-F2", false, M_QUALITY);
    }
    // heads are sorted before they are applied
    headPtr->sort();
    if (pp) {
        for (uint32 k = 0; k < n; k++) {
            if (k > 0) sx_check(pp->indices_cbegin()[k - 1] < pp->indices_cbegin()[k], "the outputs a head predicts for can be sorted");
            for (uint32 j = 0; j < n; j++)
                if (indices[selected[j]] == pp->indices_cbegin()[k]) sx_check(pp->values_cbegin()[k] == values[j], "sorting preserves the assignment of scores to outputs");
        }
    }
}

static ReadableProperty<IRegularizationConfig> property(Regularization& r) {
    return ReadableProperty<IRegularizationConfig>([&r]() -> IRegularizationConfig& { return r; });
}

static void makeStatistics(uint32 round) {
    for (uint32 i = 0; i < L; i++) {
        G[i] = sx_f64("gradient", -4, 4);
        for (uint32 j = 0; j <= i; j++) H[i][j] = H[j][i] = i == j ? sx_f64("hessian", 0, 4) : NONDEC ? sx_f64("hessian", -4, 4) : 0;
        if (sx_param("unitHessians", 0)) sx_assume(H[i][i] == 1);
    }
    for (uint32 i = 0; i < L; i++) {
        // no deviations because of rounding
        if (L2 == 0) sx_assume(H[i][i] == 0 || H[i][i] >= 0.01);
        if (L1 > 0 && NONDEC) sx_assume(absolute(G[i]) > L1);
        CRIT[i] = optimum(G[i], H[i][i], L1, L2);
    }
}

static bool PARTIAL;
static uint32 INDICES[MAXL];

template<typename StatisticVector, typename Factory, typename Fill>
static void run(const Factory& factory, StatisticVector& vector, Fill fill) {
    CompleteIndexVector complete(L);
    PartialIndexVector partial(L);
    for (uint32 l = 0; l < L; l++) {
        INDICES[l] = PARTIAL ? 2 * l + 1 : l;
        partial.begin()[l] = INDICES[l];
    }
    auto evalPtr = PARTIAL ? factory.create(vector, partial) : factory.create(vector, complete);
    uint32 rounds = sx_param("rounds", 1);
    for (uint32 r = 0; r < rounds; r++) {
        makeStatistics(r);
        vector.clear();
        fill(vector);
        const IScoreVector& scores = evalPtr->calculateScores(vector);
        checkHead(scores, INDICES, PARTIAL, r == 0);
    }
}

extern "C" void h_head() {
    L = sx_param("l", 2);
    PARTIAL = sx_param("partial", 0);
    uint32 stats = sx_param("stats", 0);   // 0: dense decomposable, 1: sparse decomposable, 2: non-decomposable
    NONDEC = stats == 2;
    makeSettings();
    Regularization r1(L1), r2(L2);
    NoLabelBinningConfig no(property(r1), property(r2));
    EqualWidthLabelBinningConfig equalWidth(property(r1), property(r2));
    if (SET.binned) equalWidth.setBinRatio(SET.binRatio).setMinBins(SET.minBins).setMaxBins(SET.maxBins);
    const ILabelBinningConfig& config = SET.binned ? (const ILabelBinningConfig&) equalWidth : no;
    if (NONDEC) {
        Blas blas(&ddot, &dspmv);
        Lapack lapack(&dsysv);
        std::unique_ptr<INonDecomposableRuleEvaluationFactory> f =
          SET.head == 0   ? config.createNonDecomposableCompleteRuleEvaluationFactory(blas, lapack)
          : SET.head == 2 ? config.createNonDecomposableFixedPartialRuleEvaluationFactory(SET.ratio, SET.minOutputs, SET.maxOutputs, blas, lapack)
                          : config.createNonDecomposableDynamicPartialRuleEvaluationFactory(SET.threshold, SET.exponent, blas, lapack);
        DenseNonDecomposableStatisticVector v(L, true);
        run(*f, v, [](DenseNonDecomposableStatisticVector& sv) {
            DenseNonDecomposableStatisticView view(1, L);
            uint32 k = 0;
            for (uint32 i = 0; i < L; i++) {
                view.gradients_begin(0)[i] = G[i];
                for (uint32 j = 0; j <= i; j++) view.hessians_begin(0)[k++] = H[i][j];
            }
            sv.add(view, 0);
        });
    } else {
        auto dense = [](DenseDecomposableStatisticVector& sv) {
            AllocatedCContiguousView<Tuple<float64>> view(1, L);
            for (uint32 i = 0; i < L; i++) view.values_begin(0)[i] = Tuple<float64>(G[i], H[i][i]);
            sv.add(view, 0);
        };
        auto sparse = [](SparseDecomposableStatisticVector& sv) {
            SparseSetView<Tuple<float64>> view(1, L);
            for (uint32 i = 0; i < L; i++) view[0].emplace(i).value = Tuple<float64>(G[i], H[i][i]);
            sv.add(view, 0);
        };
        std::unique_ptr<ISparseDecomposableRuleEvaluationFactory> sparseFactory;
        std::unique_ptr<IDecomposableRuleEvaluationFactory> denseFactory;
        if (SET.head == 0) denseFactory = config.createDecomposableCompleteRuleEvaluationFactory();
        else if (SET.head == 1) sparseFactory = std::make_unique<DecomposableSingleOutputRuleEvaluationFactory>(L1, L2);
        else if (SET.head == 2) sparseFactory = config.createDecomposableFixedPartialRuleEvaluationFactory(SET.ratio, SET.minOutputs, SET.maxOutputs);
        else sparseFactory = config.createDecomposableDynamicPartialRuleEvaluationFactory(SET.threshold, SET.exponent);
        if (stats == 0) {
            DenseDecomposableStatisticVector v(L, true);
            const IDecomposableRuleEvaluationFactory& f = sparseFactory ? *sparseFactory : *denseFactory;
            run(f, v, dense);
        } else {
            SparseDecomposableStatisticVector v(L, true);
            run(*sparseFactory, v, sparse);
        }
    }
    sx_reach("end");
}
