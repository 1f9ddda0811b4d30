"""The properties, as prose. gen.py turns this file and registry.py into properties.jsonl and MANIFEST.json."""
C = 'cpp/subprojects/common/src/mlrl/common/'
CI = 'cpp/subprojects/common/include/mlrl/common/'
B = 'cpp/subprojects/boosting/src/mlrl/boosting/'
BI = 'cpp/subprojects/boosting/include/mlrl/boosting/'
S = 'cpp/subprojects/seco/src/mlrl/seco/'
SI = 'cpp/subprojects/seco/include/mlrl/seco/'
PROPS = {
    'C01': {
        'title': 'A rule covers exactly the examples that satisfy all of its conditions',
        'statement': 'Assembling conditions into a rule body preserves every condition, and the body covers an example iff the example '
            'satisfies the conjunction of all conditions with their comparators (numerical <= and >, ordinal <= and >, nominal == and !=), '
            'where a missing value satisfies no condition. The answer is the same for the dense and the sparse representation of '
            'the example (with any sparse value for features that are not stored), for empty bodies, and after copying, appending to or '
            'removing the last condition of a condition list.',
        'quantifier': 'All condition lists (comparators, feature indices, thresholds, order, repeated features), all feature vectors in dense and '
            'sparse form, all sparse values and all histories of append/copy/remove on condition lists.',
        'over': ['inputs', 'histories'],
        'why': 'Tests use a few fixed models; a wrong comparator, offset or sparse/dense mismatch only shows for particular combinations of condition '
            'types, feature order and sparse values.',
        'files': [C + 'model/body_conjunctive.cpp', C + 'model/condition_list.cpp', C + 'model/body_empty.cpp', C + 'model/rule_list.cpp'],
        'mechanism': [('ConjunctiveBody::covers', C + 'model/body_conjunctive.cpp'), ('ConditionList', C + 'model/condition_list.cpp')],
    },
    'C03': {
        'title': 'Refinement search: candidate conditions cover what they are scored on',
        'statement': 'When a rule is refined on a (numerical, ordinal or nominal) feature, every candidate condition is evaluated on statistics that stem from '
            'exactly those training examples with non-zero weight that the rule covers and that satisfy the condition; every way of splitting these examples '
            'by a condition of the feature is considered, subject to the minimum coverage; the coverage reported for the best refinement is the number of examples '
            'satisfying it; and after the refinement has been applied the coverage mask, the filtered feature vectors, the weighted statistics and the predictions '
            'that are applied or evaluated agree with the rule body that was learned. This holds for repeated refinement, for dense and sparse feature matrices, for missing values, weighted '
            'samples and for copies of a feature space.',
        'quantifier': 'All feature values (including ties, missing and sparse ones), example weights, minimum coverages and sequences of refinements within the bounds.',
        'over': ['inputs', 'histories'],
        'why': 'Tests compare textual golden models of a few data sets; off-by-one errors on ties, missing or sparse values and filtered vectors only change models for special value patterns.',
        'files': [C + 'rule_refinement/', C + 'input/feature_vector_numerical.cpp', C + 'input/feature_vector_nominal.cpp', C + 'input/feature_vector_ordinal.cpp'],
        'mechanism': [('rule refinement search', C + 'rule_refinement/'), ('feature vector filtering', C + 'input/')],
    },
    'C04': {
        'title': 'Feature binning: binned refinements agree with the thresholds they report',
        'statement': 'When numerical features are discretised with equal-width or equal-frequency binning, every example is assigned to exactly one bin, examples with equal '
            'values share a bin, bins are ordered, the thresholds reported for a refinement separate exactly the examples whose statistics were used for scoring it, and the '
            'search and the filtering of bins never access memory out of bounds, for dense and sparse feature vectors with and without missing values.',
        'quantifier': 'All feature values, numbers of bins, sparse values, weights and sequences of refinements within the bounds.',
        'over': ['inputs', 'configurations'],
        'why': 'Golden tests use few data sets and never check that the bins agree with the thresholds; corner cases need special ties, sparse values or empty bins.',
        'files': [C + 'input/feature_binning_equal_width.cpp', C + 'input/feature_binning_equal_frequency.cpp', C + 'input/feature_vector_binned.cpp', C + 'rule_refinement/'],
        'mechanism': [('EqualWidthFeatureBinning', C + 'input/feature_binning_equal_width.cpp'), ('EqualFrequencyFeatureBinning', C + 'input/feature_binning_equal_frequency.cpp')],
    },
    'C08': {
        'title': 'Boosting: predictions are determined by the sum of the covering rules',
        'statement': 'The scores predicted for an example are the sum of the heads of all rules that cover it (restricted to the rules that are used), and the predicted labels and probabilities are those obtained from these scores: thresholded scores or probabilities, the closest known label vector (ties broken by frequency), '
            'the label vector with the greatest expected F1-measure, (calibrated) marginal probabilities, or marginalised, normalised joint probabilities. Predicting incrementally, in steps of any sizes, gives the same result as predicting at once, as do sparse and dense predictions, and sparse and dense feature matrices; rows of sparse predictions are sorted and free of duplicates.',
        'quantifier': 'All models, feature matrices, label vectors, frequencies, calibration models and sequences of step sizes within the bounds.',
        'over': ['inputs', 'histories', 'configurations'],
        'why': 'Tests compare predictions of a few trained models; ties, empty predictions, unusual step sizes or sparse formats are not reached.',
        'files': [B + 'prediction/', BI + 'prediction/predictor_binary_common.hpp', BI + 'prediction/predictor_score_common.hpp', CI + 'prediction/predictor_common.hpp'],
        'mechanism': [('predictors', BI + 'prediction/'), ('transformations', B + 'prediction/')],
    },
    'C10': {
        'title': 'SeCo statistics: confusion matrices and coverage bookkeeping are exact',
        'statement': 'In separate-and-conquer learning, the confusion matrices that are used for evaluating a candidate rule (covered, uncovered, accumulated, with and without example weights, for complete and partial sets of labels) are at any time exactly the weighted '
            'numbers of label/majority-label combinations of the examples in question, and the coverage of a label is exactly the number of rules applied to it (minus those reverted). The default rule predicts for each label the value the majority of examples has, and the reported sum of uncovered weights is the '
            'number of cells that are not covered yet and for which the default rule is wrong.',
        'quantifier': 'All label matrices (dense and sparse), weights, and sequences of adding, removing, resetting, applying and reverting within the bounds.',
        'over': ['inputs', 'histories'],
        'why': 'Only end-to-end golden models of a few data sets exist for the SeCo statistics; a slip in one of the sparse or partial code paths only shows for special label patterns.',
        'files': [S + 'statistics/', S + 'data/'],
        'mechanism': [('decomposable statistics', S + 'statistics/'), ('dense confusion matrices and coverage matrices', S + 'data/')],
    },
    'C11': {
        'title': 'SeCo heuristics, lift functions and rule evaluation compute their definitions',
        'statement': 'Each heuristic (accuracy, precision, recall, Laplace, weighted relative accuracy, F-measure, m-estimate) returns for every confusion matrix the value of its documented formula, the lift functions (none, peak, key-value relaxation) return at least one, satisfy their documented fixed points '
            'and never exceed the upper bound they report. The head of a rule predicts the minority label where it is allowed to, its quality is the (lift-weighted) mean heuristic value of its labels, and the best partial head is found, regardless of pruning by upper bounds.',
        'quantifier': 'All confusion matrices, heuristic and lift parameters and label subsets within the bounds.',
        'over': ['inputs', 'configurations'],
        'why': 'Formulas are quantified over all real-valued confusion matrices, including degenerate ones with zero rows; tests sample a few.',
        'files': [S + 'heuristics/', S + 'lift_functions/', S + 'rule_evaluation/'],
        'mechanism': [('heuristics', S + 'heuristics/'), ('lift functions', S + 'lift_functions/'), ('rule evaluation', S + 'rule_evaluation/')],
    },
    'C12': {
        'title': 'SeCo: a label is predicted by the first rule that covers the example',
        'statement': 'When predicting with a decision list, each label is predicted by the first (used) rule that covers the example and predicts for the label, the default rule is considered last, and labels for which no rule predicts are irrelevant. '
            'Dense and sparse predictions agree, as do predictions for dense and sparse feature matrices, and rows of sparse predictions are sorted and free of duplicates.',
        'quantifier': 'All models (partial and complete heads), feature matrices and limits on the number of rules within the bounds.',
        'over': ['inputs', 'configurations'],
        'why': 'Tests compare predictions of a few trained models; interactions of overlapping rules with partial heads are rare.',
        'files': [S + 'prediction/predictor_binary_output_wise.cpp', CI + 'prediction/predictor_common.hpp'],
        'mechanism': [('OutputWiseBinaryPredictor', S + 'prediction/predictor_binary_output_wise.cpp')],
    },
    'C13': {
        'title': 'Instance sampling yields correct weights and never uses holdout examples',
        'statement': 'For every instance sampling method (none, with and without replacement, example-wise and output-wise stratified), each sampled weight vector '
            'assigns a weight to exactly the examples of the training set, sampled weights sum up to the configured sample size (clamped to the configured minimum and maximum), examples of the holdout set never obtain a '
            'non-zero weight, sampling without replacement and stratified sampling never select an example twice, and the reported number of non-zero weights is exact. Stratified sampling keeps the proportion of each stratum up to rounding. This '
            'holds for any sequence of random numbers, repeated sampling, and dense and sparse label matrices.',
        'quantifier': 'All sequences of random numbers, label matrices, sample sizes, minimum/maximum settings, training/holdout partitions and repeated rounds within the bounds.',
        'over': ['inputs', 'configurations', 'histories'],
        'why': 'The outcome depends on random numbers; tests sample one seed, while the guarantee is for every draw.',
        'files': [C + 'sampling/'],
        'mechanism': [('instance sampling', C + 'sampling/instance_sampling_without_replacement.cpp'), ('stratified sampling', C + 'sampling/stratified_sampling_output_wise.cpp')],
    },
    'C14': {
        'title': 'Partition sampling splits the examples into disjoint, complete sets',
        'statement': 'Partitioning a data set into a training and a holdout set (randomly, or stratified by label vectors or by individual labels) assigns every example to exactly one of the sets, '
            'the size of the holdout set is as configured (never making either set empty where both are required), and repeated calls return the same partition. Without holdout all examples are used for training.',
        'quantifier': 'All sequences of random numbers, label matrices (dense and sparse), holdout set sizes and numbers of examples within the bounds.',
        'over': ['inputs', 'configurations', 'histories'],
        'why': 'The guarantee is for every draw and every label matrix; tests use a few seeds.',
        'files': [C + 'sampling/'],
        'mechanism': [('bi-partitioning', C + 'sampling/partition_sampling_bi_random.cpp'), ('stratified partitioning', C + 'sampling/stratified_sampling_output_wise.cpp')],
    },
    'C15': {
        'title': 'Feature, output and random number sampling return valid, distinct indices',
        'statement': 'Feature sampling returns distinct feature indices in range, of the configured number (sample size clamped to minimum and maximum, or the logarithmic default), and retained features are always contained in the sample. '
            'Output sampling returns distinct, sorted indices of the configured number, round-robin sampling cycles through all outputs, and the random number generator returns numbers within the requested half-open interval for every state, never entering a stuck state.',
        'quantifier': 'All sequences of random numbers, generator states and seeds, sample sizes, minimum/maximum settings and repeated rounds within the bounds.',
        'over': ['inputs', 'configurations', 'histories'],
        'why': 'The guarantee is for every draw; tests use a few seeds.',
        'files': [C + 'sampling/', C + 'random/'],
        'mechanism': [('feature sampling', C + 'sampling/feature_sampling_without_replacement.cpp'), ('RNG', C + 'random/rng.cpp')],
    },
    'C05': {
        'title': 'Boosting statistics are sums of the gradients and Hessians of the right examples',
        'statement': 'The gradients and Hessians a rule evaluation is given are exactly the weighted sums over those examples and outputs that are covered by the rule, or, for the uncovered and accumulated variants, its complement, '
            'for dense, sparse, decomposable, non-decomposable and converted statistics, complete and partial sets of outputs, and any history of added, removed, excluded or reset examples. The scores of each example are the sums of '
            'the predictions that have been applied and not reverted, and gradients and Hessians are up to date with respect to these scores.',
        'quantifier': 'All ground truths (dense or sparse labels or regression targets), weights, predictions, subsets of examples and outputs and sequences of operations within the bounds.',
        'over': ['inputs', 'histories', 'configurations'],
        'why': 'Sums are kept incrementally across sequences of operations and several storage formats; tests do not cover the combinations.',
        'files': [B + 'statistics/', B + 'data/', B + 'losses/'],
        'mechanism': [('statistics', B + 'statistics/statistics_common.hpp'), ('sparse statistics', B + 'data/vector_statistic_decomposable_sparse.cpp'), ('non-decomposable statistics', B + 'data/vector_statistic_non_decomposable_dense.cpp')],
        'note': 'Real arithmetic (rounding is not modelled).',
    },
    'C06': {
        'title': 'Gradients and Hessians are derivatives of the loss that measures the quality',
        'statement': 'For each loss function (logistic, squared error, squared hinge; decomposable and non-decomposable; labels and regression targets; dense and sparse), the gradients and Hessians that are used for learning rules are '
            'the first and second derivatives of the loss with respect to the predicted scores (up to the constant factor and the constant Hessians that are used by convention), and the evaluation measure of the same name returns the value of the loss.',
        'quantifier': 'All ground truths and predicted scores (real numbers) within the bounds; non-differentiable points excluded.',
        'over': ['inputs', 'configurations'],
        'why': 'Tests check single points, while the formulas are piecewise and numerically re-arranged.',
        'files': [B + 'losses/'],
        'mechanism': [('decomposable losses', B + 'losses/loss_decomposable_common.hpp'), ('logistic loss', B + 'losses/loss_non_decomposable_logistic.cpp'), ('sparse losses', B + 'losses/loss_decomposable_sparse_common.hpp')],
        'note': 'Real arithmetic; exp and log are represented by their algebraic properties, so that the results hold for any functions with these properties.',
    },
    'C07': {
        'title': 'Heads of boosted rules optimize the regularized objective',
        'statement': 'The scores that are predicted by the head of a boosted rule minimize the second-order approximation of the loss, given by the gradients and Hessians of the covered examples, including L1 and L2 regularization, '
            'and the quality of the head is the value of this objective. Heads that predict for a single output, a fixed number of outputs, or outputs with scores above a threshold, predict for the outputs with the greatest absolute scores, '
            'and with label binning, outputs with similar scores share the score that is optimal for their aggregated statistics, without accessing memory out of bounds.',
        'quantifier': 'All gradients and Hessians, regularization weights, thresholds and combinations of head types, binning and numbers of outputs within the bounds.',
        'over': ['inputs', 'configurations'],
        'why': 'Tests compare a few models with files that were recorded earlier, so that wrong scores are considered correct if they were wrong before, and many combinations of options are not tested.',
        'files': [B + 'rule_evaluation/', B + 'binning/'],
        'mechanism': [('optimal scores and their quality', B + 'rule_evaluation/rule_evaluation_decomposable_common.hpp'), ('coupled outputs', B + 'rule_evaluation/rule_evaluation_non_decomposable_complete_common.hpp'), ('label binning', B + 'binning/label_binning_equal_width.cpp')],
        'note': 'Real arithmetic. BLAS and LAPACK are represented by their specifications (the linear system must have a unique solution). Non-decomposable losses with L1 regularization only if the magnitudes of gradients exceed the weight.',
    },
    'C16': {
        'title': 'Stopping criteria end learning and select the used rules as configured',
        'statement': 'Learning ends when the maximum number of rules or the time limit is reached, and not earlier. Pre-pruning ends it, or retains additional rules if configured so, as soon as the aggregated quality of recent iterations does not improve sufficiently over past ones, '
            'where neither learning ends nor rules are discarded before the minimum number of rules is reached. Pre- and post-pruning use exactly the number of rules that results in the best quality on the training or holdout set, as configured.',
        'quantifier': 'All sequences of qualities, clock readings and options (intervals, buffer sizes, aggregation functions) within the bounds.',
        'over': ['histories', 'configurations'],
        'why': 'Criteria depend on the whole history of qualities; tests only cover a few training runs with default options, where criteria are rarely triggered.',
        'files': [C + 'stopping/'],
        'mechanism': [('pre-pruning', C + 'stopping/global_pruning_pre.cpp'), ('post-pruning', C + 'stopping/global_pruning_post.cpp'), ('time', C + 'stopping/stopping_criterion_time.cpp')],
        'note': 'The clock returns arbitrary, non-decreasing values. The history of qualities is arbitrary (real arithmetic; infinite qualities in a separate variant).',
    },
    'C17': {
        'title': 'Pruning selects the best generalization of a rule on unseen examples',
        'statement': 'If some training examples have not been used for learning a rule, IREP removes those trailing conditions that result in the best quality on these examples, where fewer conditions are preferred in case of a tie, examples of a holdout set are not used, '
            'and at least one condition remains. Afterwards, the scores of the head are recalculated, if configured so, based on all examples that are covered by the pruned rule, and applied to exactly these examples.',
        'quantifier': 'All qualities a rule may have for each set of covered examples, numbers of conditions, weights and partitions within the bounds.',
        'over': ['inputs', 'histories'],
        'why': 'The outcome depends on the ranking of the qualities of all generalizations, including ties, of which a few training runs only exercise a tiny fraction.',
        'files': [C + 'rule_pruning/', C + 'rule_induction/'],
        'mechanism': [('IREP', C + 'rule_pruning/rule_pruning_irep.cpp'), ('induction of a rule', C + 'rule_induction/rule_induction_common.hpp')],
        'note': 'The quality of a rule is an arbitrary function of the examples it covers. The feature space is a specification of the one that is checked by C03.',
    },
    'C18': {
        'title': 'A model consists of the rules learned, and statistics reflect the model',
        'statement': 'The rules of a model are those that have been learned, with their conditions, scores and order, preceded by the default rule, or followed by it in case of a decision list, where unused rules are removed, or marked as unused, as configured. '
            'When learning a rule, replacing it during sequential post-optimization, or calibrating probabilities, the predictions of exactly those (other) rules that make up the model are taken into account. '
            'Replacements predict for the same outputs and use the same features as the original rule, unless configured otherwise, and rules that can not be replaced are retained.',
        'quantifier': 'All sequences of successful or failing attempts to learn a rule, decisions of stopping criteria, feature values and thresholds within the bounds.',
        'over': ['histories', 'configurations'],
        'why': 'Tests hardly trigger failing replacements or removed rules, and do not compare the internal state of the training process to the model.',
        'files': [C + 'rule_model_assemblage/', C + 'post_optimization/', B + 'model/', S + 'model/'],
        'mechanism': [('assemblage', C + 'rule_model_assemblage/rule_model_assemblage_sequential.cpp'), ('sequential post-optimization', C + 'post_optimization/post_optimization_sequential.cpp'), ('removal of unused rules', C + 'post_optimization/post_optimization_unused_rule_removal.cpp'), ('decision lists', S + 'model/decision_list_builder.cpp')],
        'note': 'The induction of individual rules, which is checked by C17 and C19, is replaced with an arbitrary outcome.',
    },
    'C19': {
        'title': 'Rule induction greedily adds the best conditions, or keeps a beam of them',
        'statement': 'Top-down greedy induction adds, in each iteration, the condition that results in the best quality, as long as it improves the rule and the limits on the number of conditions and covered examples permit, whereas beam search retains the best rules in each iteration and finally returns the best one. '
            'Only sampled features are used, heads are refined as often as allowed, the scores of a head correspond to the examples that are covered, are post-processed and applied to these examples exactly once, and the default rule is based on all examples.',
        'quantifier': 'All qualities a rule may have for each set of covered examples, orders of examples, weights, partitions and options within the bounds.',
        'over': ['inputs', 'configurations'],
        'why': 'The outcome depends on the ranking of all candidate rules, of which a few training runs only exercise a tiny fraction, and tests compare the learned rules to files that have been recorded earlier.',
        'files': [C + 'rule_induction/', C + 'rule_refinement/'],
        'mechanism': [('greedy', C + 'rule_induction/rule_induction_top_down_greedy.cpp'), ('beam search', C + 'rule_induction/rule_induction_top_down_beam_search.cpp'), ('comparison of refinements', C + 'rule_refinement/refinement_comparator_fixed.cpp'), ('search', C + 'rule_refinement/rule_refinement_statistics_based.cpp')],
        'note': 'The quality of a rule is an arbitrary function of the examples it covers (distinct qualities for beam search). The feature space is a specification of the one that is checked by C03.',
    },
}
NOT_APPLICABLE = {}
