SPACE_SRC = ['common/input/*', 'common/rule_refinement/*', 'common/indices/*', 'common/data/*', 'common/sampling/weight*', 'common/sampling/partition_bi', 'common/sampling/partition_single', 'common/model/*', 'common/rule_evaluation/*', 'common/iterator/*']
SAMPLING_SRC = ['common/sampling/*', 'common/input/feature_matrix_fortran_contiguous', 'common/indices/*', 'common/data/*', 'common/iterator/*', 'common/rule_evaluation/*', 'common/rule_refinement/prediction*', 'common/rule_refinement/score_processor', 'common/rule_refinement/coverage_mask', 'common/model/*']

SECO_SRC = ['seco/statistics/*', 'seco/data/*', 'seco/rule_evaluation/*', 'seco/heuristics/*', 'seco/lift_functions/*', 'seco/stopping/*', 'common/indices/*', 'common/data/*', 'common/sampling/weight*', 'common/sampling/partition_bi', 'common/sampling/partition_single', 'common/model/*', 'common/rule_evaluation/*', 'common/iterator/*', 'common/rule_refinement/prediction*', 'common/rule_refinement/score_processor', 'common/stopping/stopping_criterion_list', 'common/statistics/*']

PREDICT_SRC = ['common/model/*', 'common/prediction/*', 'common/input/feature_matrix_c_contiguous', 'common/input/feature_matrix_csr', 'common/input/label_vector*', 'common/data/*', 'common/indices/*', 'common/iterator/*', 'common/rule_refinement/prediction*']

BOOST_SRC = ['boosting/statistics/*', 'boosting/data/*', 'boosting/losses/*', 'boosting/prediction/probability_function*', 'common/indices/*', 'common/data/*', 'common/sampling/weight*', 'common/model/*', 'common/rule_evaluation/*', 'common/rule_refinement/prediction*', 'common/rule_refinement/score_processor', 'common/iterator/*', 'common/input/label_vector*', 'common/prediction/probability_calibration_no', 'common/prediction/label_vector_set']

PROPERTIES = {
    'C01': {
        'jobs': [
            {'harness': 'h_model.cpp', 'entry': 'h_body', 'src': ['common/model/*'], 'variants': [{'conds': 1}, {'conds': 2}], 'procs': 4, 'reach': ['covered', 'uncovered']},
            {'harness': 'h_model.cpp', 'entry': 'h_rule_list', 'src': ['common/model/*'], 'reach': ['end']},
        ],
        'bounds': '',
    },
    'C03': {
        'jobs': [
            {'harness': 'h_space.cpp', 'entry': 'h_refine', 'src': SPACE_SRC, 'procs': 2, 'reach': ['filtered', 'end'], 'variants': [
                {'n': 3, 'levels': 2}, {'n': 3, 'levels': 2, 'sparse': 1, 'copy': 1},
                {'n': 3, 'weights': 1}, {'n': 3, 'weights': 2, 'sparse': 1}, {'n': 3, 'missing': 1},
                {'n': 4, 't0': 1}, {'n': 4, 't0': 2}, {'n': 3, 't0': 1, 'sparse': 1, 'levels': 2}, {'n': 3, 't0': 2, 'sparse': 1, 'levels': 2},
                {'n': 3, 't0': 1, 'weights': 1, 'missing': 1}, {'n': 3, 't0': 2, 'weights': 2, 'missing': 1},
                {'n': 3, 'levels': 2, 't0': 1, 't1': 2, 'f': 2, 'values': 3},
                {'n': 3, 'levels': 2, 't0': 0, 't1': 2, 'f': 2, 'values': 2, 'mincov': 0},
                {'n': 3, 'levels': 2, 't0': 0, 't1': 2, 'f': 2, 'values': 2, 'weights': 1, 'mincov': 0},
                {'n': 3, 'levels': 3, 't0': 2, 't1': 1, 'f': 2, 'values': 3, 'mincov': 0}] +
                [dict(n=3, f=2, t0=2, t1=t, levels=3, missing=2, values=3, mincov=0, touch=1) for t in (2, 1, 0)] +
                [dict(n=3, f=2, t0=0, t1=t, levels=2, missing=2, values=3, mincov=0, touch=1) for t in (2, 1)],
             'thorough_variants': [
                {'n': 4, 'levels': 2}, {'n': 4, 'levels': 2, 'sparse': 1}, {'n': 3, 'levels': 2, 't0': 1, 't1': 2, 'f': 2, 'values': 3, 'missing': 1},
                {'n': 3, 'levels': 2, 't0': 0, 't1': 1, 'f': 2, 'sparse': 1, 'mincov': 0}, {'n': 3, 'levels': 2, 't0': 0, 't1': 0, 'f': 2, 'copy': 1, 'mincov': 0},
                {'n': 4, 'weights': 1}, {'n': 4, 'missing': 1}, {'n': 4, 't0': 1, 'levels': 2, 'weights': 2}, {'n': 4, 't0': 2, 'levels': 2, 'weights': 2, 'missing': 1},
                {'n': 5, 't0': 1, 'values': 5}, {'n': 5, 't0': 2, 'values': 5}, {'n': 5, 't0': 1, 'sparse': 1}, {'n': 4}] + [dict(n=4, f=2, t0=1, t1=t, levels=3, missing=2, values=3, mincov=0, touch=1) for t in (2, 1)] +
                [dict(n=3, f=2, t0=0, t1=0, levels=2, missing=2, mincov=0, touch=1)]},
        ],
        'bounds': '',
    },
    'C04': {
        'jobs': [
            {'harness': 'h_space.cpp', 'entry': 'h_refine', 'src': SPACE_SRC, 'procs': 2, 'reach': ['filtered', 'end'], 'variants': [
                {'n': 3, 't0': 4, 'levels': 2}, {'n': 3, 't0': 4, 'sparse': 1, 'levels': 2}, {'n': 3, 't0': 4, 'weights': 1}, {'n': 3, 't0': 4, 'weights': 2, 'sparse': 1},
                {'n': 3, 't0': 4, 'missing': 1}, {'n': 4, 't0': 4, 'bins': 3}, {'n': 4, 't0': 4, 'sparse': 1},
                {'n': 3, 't0': 3, 'zero': 1, 'levels': 2}, {'n': 4, 't0': 3, 'zero': 1}, {'n': 2, 't0': 3}, {'n': 4, 't0': 3, 'zero': 1, 'bins': 3}, {'n': 4, 't0': 3, 'zero': 1, 'bins': 4},
                {'n': 3, 't0': 4, 't1': 2, 'f': 2, 'values': 2, 'levels': 2, 'mincov': 0}] +
                [dict(n=3, f=2, t0=1, t1=4, levels=3, missing=2, values=3, mincov=0, touch=1)],
             'thorough_variants': [
                {'n': 4, 't0': 4, 'bins': 3, 'levels': 2}, {'n': 5, 't0': 4, 'bins': 2, 'mincov': 0}, {'n': 4, 't0': 4, 'sparse': 1, 'bins': 3, 'levels': 2},
                {'n': 3, 't0': 3, 'levels': 2}, {'n': 3, 't0': 3, 'sparse': 1}, {'n': 3, 't0': 3, 'zero': 1, 'weights': 1}, {'n': 3, 't0': 3, 'missing': 1}]},
        ],
        'bounds': '',
    },
    'C13': {
        'jobs': [
            {'harness': 'h_sampling.cpp', 'entry': 'h_instance', 'src': SAMPLING_SRC, 'procs': 1, 'reach': ['end', 'sampled0', 'sampled1', 'sampled2'], 'variants':
                [dict(kind=0), dict(kind=0, bi=1, sparse=1)] +
                [dict(kind=k, bi=b, n=3 + b, labels=0, minmax=1) for k in (1, 2) for b in (0, 1)] +
                [dict(kind=k, bi=b, sparse=s, n=3 + b, rounds=1) for k in (3, 4) for b in (0, 1) for s in (0, 1)] +
                [dict(kind=k, sparse=s, n=3, l=2, rounds=2 - s) for k in (3, 4) for s in (0, 1)] +
                [dict(kind=k, sparse=s, n=3, minmax=1, rounds=1) for k in (3, 4) for s in (0, 1)] +
                [dict(kind=2, n=34, size=5, labels=0, rounds=1, draws=3)]},
        ],
        'bounds': '',
    },
    'C14': {
        'jobs': [
            {'harness': 'h_sampling.cpp', 'entry': 'h_partition', 'src': SAMPLING_SRC, 'procs': 1, 'reach': ['end'], 'variants':
                [dict(kind=0), dict(kind=1, n=4, labels=0), dict(kind=1, n=4, labels=0, sparse=1)] +
                [dict(kind=k, sparse=s, n=3, l=2) for k in (2, 3) for s in (0, 1)] +
                [dict(kind=k, sparse=s, n=4, l=1) for k in (2, 3) for s in (0, 1)] +
                [dict(kind=k, sparse=s, n=n, holdout=h, labels=0, rounds=1, freeDraws=2) for k in (2, 3) for s in (0, 1) for n, h in ((22, 9), (23, 16), (23, 9), (29, 14))]},
        ],
        'bounds': '',
    },
    'C15': {
        'jobs': [
            {'harness': 'h_sampling.cpp', 'entry': 'h_feature', 'src': SAMPLING_SRC, 'procs': 1, 'reach': ['end'], 'variants':
                [dict(none=1, beam=1), dict(n=4), dict(n=4, minmax=1, rounds=1), dict(n=3, retained=1), dict(n=3, beam=1, retained=1), dict(n=34, size=5, rounds=1, draws=3), dict(n=10, log=1, rounds=1)] + [dict(n=i, log=1, retained=1) for i in range(1, 5)]},
            {'harness': 'h_sampling.cpp', 'entry': 'h_output', 'src': SAMPLING_SRC, 'procs': 1, 'reach': ['end', 'sampled0', 'sampled1', 'sampled2'], 'variants':
                [dict(kind=0), dict(kind=1, rounds=7), dict(kind=2), dict(kind=2, minmax=1), dict(kind=2, n=4)]},
            {'harness': 'h_rng.cpp', 'entry': 'h_rng', 'src': ['common/random/*'], 'reach': ['end']},
            {'harness': 'h_rng.cpp', 'entry': 'h_rng_bool', 'src': ['common/random/*'], 'reach': ['true', 'false']},
            {'harness': 'h_rng.cpp', 'entry': 'h_rng_config', 'src': ['common/random/*'], 'reach': ['end']},
        ],
        'bounds': '',
    },
    'C10': {
        'jobs': [
            {'harness': 'h_seco.cpp', 'entry': 'h_statistics', 'src': SECO_SRC, 'procs': 1, 'reach': ['end'], 'variants':
                [dict(n=2, l=2, sparse=s, partial=p, weights=w, minority=1, history=int(w == 0), excluded=int(w != 1)) for s in (0, 1) for p in (0, 1) for w in (0, 1, 2)] +
                [dict(n=2, l=1, sparse=s, rules=2, revert=1, history=0) for s in (0, 1)] + [dict(n=1, l=3, sparse=s, partial=1, minority=1, history=0, excluded=0) for s in (0, 1)] +
                [dict(n=3, l=2, sparse=s, rules=0, history=0, excluded=0) for s in (0, 1)] +
                [dict(n=1, l=3, sparse=s, partial=p, mode=m, weights=w, minority=1, switch=1) for s in (0, 1) for p in (0, 1) for m in (1, 2) for w in (0, 1, 2)]},
            {'harness': 'h_seco.cpp', 'entry': 'h_default', 'src': SECO_SRC, 'procs': 1, 'reach': ['end'], 'variants': [dict(sparse=0, n=3), dict(sparse=1, n=3)]},
        ],
        'bounds': '',
    },
    'C11': {
        'jobs': [
            {'harness': 'h_seco.cpp', 'entry': 'h_heuristic', 'src': SECO_SRC, 'procs': 1, 'reach': ['defined'], 'variants': [dict(kind=k) for k in range(7)]},
            {'harness': 'h_seco.cpp', 'entry': 'h_lift', 'src': SECO_SRC, 'procs': 1, 'reach': ['end'], 'variants': [dict(kind=k) for k in range(3)]},
            {'harness': 'h_seco.cpp', 'entry': 'h_evaluation', 'src': SECO_SRC, 'procs': 1, 'reach': ['end'], 'variants':
                [dict(kind=0, partial=p, rounds=2) for p in (0, 1)] + [dict(kind=1, partial=p, lift=k, fixed=int(k == 2), curvatures=1) for p in (0, 1) for k in (0, 1, 2)] + [dict(kind=1, l=2, lift=k, rounds=2, negative=1) for k in (0, 1, 2)]},
        ],
        'bounds': '',
    },
    'C12': {
        'jobs': [
            {'harness': 'h_predict_seco.cpp', 'entry': 'h_predict_seco', 'src': PREDICT_SRC + ['seco/prediction/*'], 'procs': 1, 'reach': ['end'], 'variants':
                [dict(n=2, l=2, r=2, heads=1, csr=0), dict(n=1, l=2, r=2, csr=1), dict(n=1, l=2, r=2, csr=0), dict(n=1, l=3, r=2, default=0), dict(n=1, l=2, r=3, heads=2, csr=1), dict(n=1, l=1, r=3, limit=1, early=0)]},
        ],
        'bounds': '',
    },
    'C08': {
        'jobs': [
            {'harness': 'h_predict.cpp', 'entry': 'h_predict', 'src': PREDICT_SRC + ['boosting/prediction/*'], 'procs': 1, 'reach': ['end'], 'variants':
                [dict(kind=0, csr=c, inc=i, n=2 - c, r=2) for c in (0, 1) for i in (0, 2)] + [dict(kind=0, n=1, l=1, r=3, limit=1, default=d) for d in (0, 1)] + [dict(kind=0, n=3, l=1, r=2, csr=1, heads=2)] +
                [dict(kind=1, n=2, r=1, sparse=s, inc=i, csr=c, half=1 - s) for s in (0, 1) for i in (0, 2) for c in (0, 1)] + [dict(kind=1, n=1, prob=1, logistic=1, r=1, sparse=s, cal=s) for s in (0, 1)] +
                [dict(kind=1, n=1, prob=1, cal=c, r=1, sparse=s, l=3, heads=1, default=0) for s in (0, 1) for c in (0, 1)] +
                [dict(kind=2, n=1, r=1, v=v, heads=1, sparse=s, prob=p, cal=p, inc=i) for v in (0, 2) for s in (0, 1) for p in (0, 1) for i in (0, 2)] + [dict(kind=2, n=1, r=1, v=3, heads=1, sparse=s) for s in (0, 1)] + [dict(kind=2, n=2, r=1, v=2, heads=2, sparse=s) for s in (0, 1)] +
                [dict(kind=3, n=1, r=1, default=0, v=v, heads=1, sparse=s, cal=c) for v in (0, 2, 3) for s in (0, 1) for c in (0, 1)] + [dict(kind=3, n=1, r=1, default=0, l=3, v=1, heads=1, sparse=s) for s in (0, 1)] + [dict(kind=3, n=2, r=1, default=0, v=2, heads=2, sparse=s, inc=i) for s in (0, 1) for i in (0, 2)] +
                [dict(kind=4, n=2, r=1, heads=1, logistic=1, cal=c) for c in (0, 1)] + [dict(kind=4, n=2, r=1, inc=2, cal=1, csr=c) for c in (0, 1)] +
                [dict(kind=5, n=1, r=1, v=v, heads=1, cal=c, default=0) for v in (0, 2, 3) for c in (0, 1)] + [dict(kind=5, n=2, r=1, v=2, heads=2, inc=2, default=0)]},
        ],
        'bounds': '',
    },
    'C06': {
        'jobs': [
            {'harness': 'h_boost.cpp', 'entry': 'h_loss', 'src': BOOST_SRC, 'procs': 1, 'reach': ['end'], 'variants':
                [dict(stats=0, loss=k, sparse=s, expandExp=1) for k in (0, 1, 2) for s in (0, 1)] + [dict(stats=1, loss=2, sparse=s, rules=1 + s) for s in (0, 1)] + [dict(stats=2, loss=k, sparse=s, expandExp=1) for k in (0, 1, 2) for s in (0, 1)] +
                [dict(stats=2, loss=0, l=3, expandExp=1)] + [dict(stats=0, loss=k, sparse=k - 1, rules=2) for k in (1, 2)] +
                [dict(stats=3, loss=k, sparse=s, switch=1, expandExp=1) for k in (0, 1, 2) for s in (0, 1)] +
                [dict(stats=k, loss=1, regression=1, unit=int(k != 0), sparse=s, switch=int(k == 3)) for k in (0, 2, 3) for s in (0, 1)] + [dict(stats=k, loss=1, regression=1, exact=1, l=1, sparse=s, switch=int(k == 3)) for k in (2, 3) for s in (0, 1)]},
        ],
        'bounds': '',
    },
    'C05': {
        'jobs': [
            {'harness': 'h_boost.cpp', 'entry': 'h_statistics', 'src': BOOST_SRC, 'procs': 1, 'reach': ['end'], 'variants':
                [dict(stats=k, loss=1 + int(k == 1), n=1, l=2, partial=p, sparse=s) for k in (0, 1) for p in (0, 1) for s in (0, 1)] +
                [dict(stats=k, loss=1 + int(k == 1), n=2, l=1, weights=w, history=int(w == 0), excluded=int(w != 0)) for k in (0, 1) for w in (0, 1, 2)] +
                [dict(stats=2, n=1, l=2, partial=p, sparse=s, rules=1 - p) for p in (0, 1) for s in (0, 1)] + [dict(stats=2, n=2, l=1, weights=w, rules=0, regression=int(w == 1), unit=2) for w in (0, 1, 2)] +
                [dict(stats=2, n=2, l=2, partial=1, weights=2, rules=0, history=0, excluded=0)] +
                [dict(stats=3, n=1, l=2, switch=1, rules=0, partial=p, sparse=p) for p in (0, 1)] +
                [dict(stats=3, loss=0, n=1, l=2, mode=1, rules=0, switch=1, expandExp=1, partial=1)] +
                [dict(stats=k, loss=1 + int(k == 1), n=1, l=2, rules=2, revert=1 - k, mode=k, history=0, excluded=0, sparse=1, regression=r) for k, r in ((0, 0), (0, 1), (1, 0))] +
                [dict(stats=0, n=1, l=3, partial=1, sparse=s, regression=1) for s in (0, 1)] +
                [dict(stats=2, n=1, l=2, partial=1, sparse=s, regression=1, unit=2, history=0, excluded=0) for s in (0, 1)] +
                [dict(stats=k, loss=1 + int(k == 1), n=1, l=2, mode=m, switch=int(k != 1 or w == 2 and m == 1), partial=p, weights=w, rules=int(k < 2)) for k in (0, 1, 2, 3) for m, p, w in ((1, 0, 2), (1, 1, 1), (2, 1, 2), (2, 0, 1))] +
                [dict(stats=k, loss=1 + int(k == 1), n=2, l=1, mode=m, weights=2, partial=p, rules=0, sparse=1) for k in (0, 1, 2) for m, p in ((1, 0), (2, 1))]},
        ],
        'bounds': '',
    },
    'C07': {
        'jobs': [
            {'harness': 'h_ruleeval.cpp', 'entry': 'h_head', 'src': BOOST_SRC + ['boosting/rule_evaluation/rule_evaluation*', 'boosting/binning/label_binning_*', 'boosting/util/*'], 'procs': 1, 'reach': ['end'], 'variants':
                [dict(stats=0, head=h, l=3) for h in (0, 1)] + [dict(stats=1, head=1, l=3, l1=1), dict(stats=0, head=0, l1=1, partial=1, rounds=2, l=2)] +
                [dict(stats=k, head=2, l=3, l2=1 - k) for k in (0, 1)] + [dict(stats=0, head=3, l=3, exp=1), dict(stats=1, head=3, l=2), dict(stats=1, head=2, partial=1), dict(stats=0, head=2, l=2, l1=1)] +
                [dict(stats=2, head=0, l=3, partial=p) for p in (0, 1)] + [dict(stats=2, head=0, l1=1), dict(stats=2, head=2, unitHessians=1), dict(stats=2, head=3), dict(stats=2, head=2, l=3, l2=0, unitHessians=1, ratio=2), dict(stats=2, head=3, l=3, l2=0, unitHessians=1, exp=1)] +
                [dict(stats=k, head=h, partial=1) for k in (1, 2) for h in (2, 3)] +
                [dict(stats=0, head=0, l=4, binned=1), dict(stats=0, head=0, l=3, binned=1, l1=1), dict(stats=2, head=0, l=3, binned=1, unitHessians=1), dict(stats=2, head=0, rounds=2, binned=1), dict(stats=0, head=0, rounds=2, binned=1, partial=1)] +
                [dict(stats=k, head=2, binned=1) for k in (0, 1)] + [dict(stats=0, head=2, l=3, unitHessians=1, ratio=2, binned=1)] + [dict(stats=k, head=3, binned=1) for k in (0, 1)] + [dict(stats=2, head=3, binned=1, l2=0), dict(stats=2, head=2, binned=1, l2=0, ratio=2)] +
                [dict(stats=0, head=1, l=2, rounds=2), dict(stats=0, head=2, rounds=2, ratio=2), dict(stats=1, head=3, rounds=2, exp=1)]},
        ],
        'bounds': '',
    },
    'C16': {
        'jobs': [
            {'harness': 'h_stopping.cpp', 'entry': 'h_prepruning', 'src': SPACE_SRC + ['common/stopping/*', 'common/sampling/partition_*'], 'procs': 1, 'reach': ['end'], 'variants':
                [dict(n=5), dict(n=5, infinite=1), dict(n=6, past=2, recent=2), dict(n=6, past=2, recent=1, e=2, holdout=1, minRules=2), dict(n=5, past=1, recent=2, minRules=2), dict(n=8, update=2, minRules=6), dict(n=6, stop=2, minRules=2)]},
            {'harness': 'h_stopping.cpp', 'entry': 'h_postpruning', 'src': SPACE_SRC + ['common/stopping/*', 'common/sampling/partition_*'], 'procs': 1, 'reach': ['end'], 'variants': [dict(n=6), dict(n=4, e=3, holdout=1)]},
            {'harness': 'h_stopping.cpp', 'entry': 'h_limits', 'src': SPACE_SRC + ['common/stopping/*', 'common/sampling/partition_*'], 'procs': 1, 'reach': ['end'], 'variants': [dict(n=3, criteria=2, clockBits=33, maxLimit=7), dict(n=2, criteria=7, clockBits=33, maxLimit=7), dict(n=5, criteria=5)]},
        ],
        'bounds': '',
    },
    'C19': {
        'jobs': [
            {'harness': 'h_induction.cpp', 'entry': 'h_induction', 'src': SPACE_SRC + ['common/rule_induction/*', 'common/rule_pruning/*', 'common/sampling/partition_*'], 'procs': 1, 'reach': ['end', 'rule', 'refined'], 'variants': [
                dict(n=4), dict(n=4, order=1, minCoverage=2), dict(n=4, order=1, dynamic=1, maxHeads=2), dict(n=5, f=1), dict(n=5, f=1, dynamic=1, maxHeads=0), dict(n=5, f=1, maxConditions=2, default=1),
                dict(n=5, f=1, partial=1, minCoverage=2), dict(n=6, f=1, zero=18, recalculate=0), dict(n=6, f=1, holdout=8, zero=2), dict(n=5, f=1, features=1, dynamic=1),
                dict(n=4, f=1, beam=1, distinct=1), dict(n=3, beam=1, distinct=1, beamWidth=3), dict(n=5, f=1, zero=2, beam=1, distinct=1, maxConditions=2, dynamic=1, maxHeads=1),
                dict(n=5, f=1, zero=2, beam=1, distinct=1, dynamic=1, maxHeads=2, partial=0, minCoverage=2), dict(n=5, f=1, zero=2, beam=1, distinct=1, dynamic=1, maxHeads=0)],
             'thorough_variants': [dict(n=5, f=1, order=1, features=1, minCoverage=2), dict(n=6, f=1), dict(n=4, order=2), dict(n=4, order=2, dynamic=1, maxHeads=2), dict(n=5, f=2, order=1, minCoverage=3),
                dict(n=5, f=1, beam=1, distinct=1, maxConditions=3), dict(n=4, f=1, beam=1, distinct=1, beamWidth=3), dict(n=5, f=1, beam=1, distinct=1, beamWidth=3, minCoverage=2)]},
        ],
        'bounds': '',
    },
    'C17': {
        'jobs': [
            {'harness': 'h_induction.cpp', 'entry': 'h_induction', 'src': SPACE_SRC + ['common/rule_induction/*', 'common/rule_pruning/*', 'common/sampling/partition_*'], 'procs': 1, 'reach': ['end', 'rule', 'refined'], 'variants': [
                dict(n=5, f=1, zero=2, irep=1), dict(n=6, f=1, zero=18, irep=1), dict(n=6, f=1, zero=2, holdout=16, irep=1), dict(n=5, f=1, zero=4, irep=1, recalculate=0, partial=1),
                dict(n=6, f=1, zero=18, irep=1, minCoverage=2), dict(n=6, f=2, order=1, zero=6, irep=1), dict(n=6, f=1, zero=17, beam=1, distinct=1, irep=1), dict(n=5, f=1, irep=1)],
             'thorough_variants': [dict(n=6, f=1, zero=2, irep=1), dict(n=7, f=1, zero=34, irep=1), dict(n=6, f=2, order=2, zero=2, irep=1)]},
        ],
        'bounds': '',
    },
    'C18': {
        'jobs': [
            {'harness': 'h_assembly.cpp', 'entry': 'h_assembly', 'src': SPACE_SRC + ['common/rule_model_assemblage/*', 'common/post_optimization/*', 'common/sampling/partition_single*', 'common/sampling/feature_sampling_predefined*', 'boosting/model/rule_list_builder*', 'seco/model/decision_list_builder*', 'common/model/rule_list*'], 'procs': 1, 'reach': ['end'], 'variants': [
                dict(rules=3), dict(default=0, rules=3), dict(decisionList=1), dict(removal=1, rules=3), dict(removal=1, default=0, decisionList=1, rules=3), dict(sequential=1, rules=2),
                dict(sequential=1, resample=0, decisionList=1), dict(sequential=1, resample=0, same=1, default=0), dict(sequential=1, refineHeads=1, iterations=2, kinds=1), dict(sequential=1, removal=1, rules=3, kinds=1),
                dict(sequential=1, removal=1, decisionList=1, iterations=2, refineHeads=1), dict(rules=4, removal=1), dict(sequential=1, removal=1, rules=3, iterations=2, kinds=1), dict(sequential=1, rules=3, n=3), dict(sequential=1, rules=4, kinds=1, resample=0)],
             'thorough_variants': [dict(rules=6, removal=1), dict(sequential=1, rules=4, n=3), dict(sequential=1, removal=1, rules=4, iterations=2)]},
        ],
        'bounds': '',
    },
}
