"""C01: cross-validation does not depend on how its workers are scheduled."""
import numpy as np

from .. import cv, paths
from ..core import brief, gap, same
from ..sched import Deadlock

META = {
    'level': 'exploration',
    'runs': {'quick': 300, 'thorough': 20000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds a path (lasso, group lasso, sparse group lasso, sparse group block with common or separate '
            'designs; seven losses with weights, offsets, elastic net terms) and cross-validates it with 2-4 folds on 2-4 '
            'simulated pool threads, preempted at random source lines of regreg (mean gap 5 to 600 lines). The means and '
            'deviations, and the coefficients of every fold, are compared with those of the same call on an equal path '
            'made without a pool; the coefficients of each fold with the optimum of its own training problem found by an '
            'independent solver; the scores with ones worked out from those coefficients. The path, loss, penalty, grid, '
            'initial data and arrays must be bit for bit as before, and a later fit must be that of a fresh path. '
            'Distinct: configuration and preemption points; non-trivial: at least one preemption inside regreg.',
    'real': 'all of regreg, including the Cython extensions (which hold the interpreter lock and are one step)',
    'stub': 'joblib.Parallel and threading: a pool of real threads of which the simulator lets exactly one run at a time; '
            'numpy\'s global generator is seeded by the plan',
    'assumptions': ['preemption points are source lines of regreg; code of numpy and scipy runs as one step',
                    'path fitters are given their first step size, or (one run in five) compared up to solver accuracy, as '
                    'the default first step size comes from a random start of the power method'],
    'timeout': 60,
}


def gen(rng, idx, tier):
    return cv.gen(rng, idx)


TOL = {1e-5: 4e-3, 1e-7: 1e-3, 1e-9: 5e-4}


def run(plan, env):
    spec, c = plan['spec'], plan['cv']
    who = '%s path, %s loss, %d folds' % (spec['k'], spec['loss'], c['cv'])
    env.mark('%s.%s.%s' % (spec['k'], spec['loss'], c['fitter']))
    ref = cv.quiet(lambda: paths.build(spec))
    lam0 = paths.null_multiplier(ref)
    if not np.isfinite(lam0) or lam0 < 1e-3:
        return
    want = cv.Call(ref, c, lam0)
    cv.quiet(lambda: want(n_jobs=1))
    h = cv.quiet(lambda: paths.build(spec))
    call = cv.Call(h, c, lam0)
    before = cv.state(h, call)
    try:
        sim, _ = cv.simulate(plan, env, call)
    except Deadlock as e:
        env.fail('deadlock', e, 'deadlock|%s' % spec['k'])
        return
    env.nontrivial = env.switches > 0
    if sim.overrun:
        env.mark('overrun')
        return
    exact = c['fitter'] != 'default'
    rtol = 1e-9 if exact else 5e-2
    env.probe('cross-validations compared')
    env.log('cv', list(call.value[0]), list(call.value[1]))
    d = cv.changed(before, cv.state(h, call))
    if d:
        env.fail('modified', '%s: cross-validating changed %s' % (who, ', '.join(d)), 'state|%s|%s' % (spec['k'], d[0]))
        return
    if sorted(call.folds, key=str) != sorted(want.folds, key=str) or len(call.folds) != c['cv']:
        env.fail('folds', '%s: in the pool the folds were %s, one after the other %s' % (
            who, sorted(call.folds, key=str), sorted(want.folds, key=str)), 'folds|%s' % spec['k'])
        return
    for k in sorted(want.folds):
        if not same(call.folds[k], want.folds[k], rtol if exact else 5e-2):
            env.fail('fold-coefficients', '%s: the coefficients of the fold trained on %s with %d workers: %s; alone: %s (%s)' % (
                who, list(k), c['workers'], brief(call.folds[k]), brief(want.folds[k]), gap(call.folds[k], want.folds[k])),
                'coefs|%s' % spec['k'])
            return
    for i, nm in enumerate(('mean', 'deviation')):
        if not same(call.value[i], want.value[i], rtol):
            env.fail('scores', '%s: %s scores with %d workers %s, one fold after the other %s' % (
                who, nm, c['workers'], brief(call.value[i]), brief(want.value[i])), 'scores|%s' % spec['k'])
            return
    # each fold solved its own problem
    n = h.P.cases()
    data = np.asarray(h.path.saturated_loss.data, float)
    f = cv.score_of(c['score']) or (lambda x, y: np.linalg.norm(x - y) ** 2 / y.shape[0])
    scores = []
    w = h.path.saturated_loss.case_weights
    positive = np.arange(n) if w is None else np.nonzero(np.asarray(w))[0]
    for k in sorted(want.folds):
        train = np.array(k)
        if len(positive) < n:
            env.probe('folds not known from weights')
            scores = None
            break
        P = paths.PathSpec(spec, rows=[int(v) for v in train], scale=n / float(len(train)))
        test = np.setdiff1d(np.arange(n), train)
        row = []
        b = None
        for lam, x in sorted(zip(call.asked, want.folds[k]), key=lambda v: -v[0]):
            x = np.asarray(x).T
            b, ok = P.minimise(lam, b)
            if not ok:
                continue
            env.probe('fold solutions compared with an independent solver')
            fx, fb = P.objective(x, lam), P.objective(b, lam)
            slack = TOL[c['inner_tol']] * max(1., abs(fb)) + .012 * P.alpha * lam * P.penalty(np.where(x == 0, b, 0.))
            if not np.isfinite(fx) or fx - fb > slack:
                env.fail('fold-not-optimal', '%s: the solution of the fold trained on %s at multiplier %.5g has objective '
                         '%.8g in that fold, the optimum is %.8g' % (who, list(k), lam, fx, fb), 'optimal|%s' % spec['k'])
                return
        for x in call.folds[k]:
            eta = h.P.predict(np.asarray(x).T)
            row.append(f(eta[test], data[test]))
        scores.append(row)
    if scores:
        env.probe('scores recomputed')
        for i, v in enumerate((np.mean(scores, 0), np.std(scores, 0))):
            if not same(call.value[i], v, 1e-8):
                env.fail('score-value', '%s: %s scores %s; from the coefficients of the folds %s' % (
                    who, ('mean', 'deviation')[i], brief(call.value[i]), brief(v)), 'score-value|%s' % spec['k'])
                return
    # what comes later is as if there had been no cross-validation
    g = cv.quiet(lambda: paths.build(spec))
    opt = {'inner_tol': 1e-7, 'initial_step': 1.}
    a = paths.fit(h, 'strong', call.grid, opt, paths.initial(h, 'copy'))[0]
    z = paths.fit(g, 'strong', call.asked, opt, paths.initial(g, 'copy'))[0]
    if not same(a, z, 1e-9):
        env.fail('later-fit', '%s: a path fitted after cross-validating it gives %s, a fresh path %s (%s)' % (
            who, brief(np.array(a)), brief(np.array(z)), gap(a, z)), 'later|%s' % spec['k'])
