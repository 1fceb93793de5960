"""C02: a failing cross-validation fold surfaces and leaves nothing behind."""
import numpy as np

from .. import cv, paths
from ..core import brief, same
from ..sched import Deadlock, Sim, SimParallel
from ..seams import CTL, EXC, Injected, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 300, 'thorough': 20000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run cross-validates a path of a random kind and loss on 1-4 simulated pool threads while one to three '
            'faults (an error of a component, an interrupt, a failed allocation, a floating point error, a value error) '
            'strike at random component evaluations of any fold - a loss, prox, map, subsample, gradient or prediction - '
            'or in the fitter or scorer. The caller must get that exception; the path, loss, penalty, grid, initial data '
            'and arrays must be bit for bit as before; and the same call repeated at once, while folds of the failed one '
            'may still be running, must give exactly what it gives when nothing has failed. Distinct: configuration, '
            'faults and preemption points; non-trivial: a fault fired.',
    'real': 'all of regreg, including the Cython extensions (which hold the interpreter lock and are one step)',
    'stub': 'joblib.Parallel and threading: a pool of real threads of which the simulator lets exactly one run at a time, '
            'which abandons the rest of the work when a task fails, as joblib does; class-level wrappers raise the '
            'injected exceptions',
    'assumptions': ['preemption points are source lines of regreg; code of numpy and scipy runs as one step',
                    'an exception in a pool task reaches the caller of the pool (joblib\'s part)'],
    'timeout': 60,
}

ACTS = ('error', 'error', 'interrupt', 'memory', 'float', 'value')


def gen(rng, idx, tier):
    plan = cv.gen(rng, idx)
    c = plan['cv']
    if c['fitter'] == 'default':
        c['fitter'] = 'strong'
    c['lagrange'] = c['lagrange'][:3]
    if rng.random() < .25:
        c['n_jobs'] = 1
    plan['faults'] = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        where = rng.choice(['any', 'any', 'any', 'any', 'fit', 'score', 'late'])
        plan['faults'].append({'where': where, 'u': round(rng.random(), 4), 'act': rng.choice(ACTS),
                               'when': rng.choice(['before', 'before', 'after'])})
    return plan


def run(plan, env):
    spec, c = plan['spec'], plan['cv']
    who = '%s path, %s loss, %d folds, %s workers' % (spec['k'], spec['loss'], c['cv'], c['workers'])
    env.mark('%s.%s.%s' % (spec['k'], spec['loss'], c['fitter']))
    ref = cv.quiet(lambda: paths.build(spec))
    lam0 = paths.null_multiplier(ref)
    if not np.isfinite(lam0) or lam0 < 1e-3:
        return
    want = cv.Call(ref, c, lam0)
    CTL.arm(env, [])
    cv.quiet(lambda: want(n_jobs=1))
    total = CTL.disarm()
    h = cv.quiet(lambda: paths.build(spec))
    faults, hooks = [], []
    for f in plan['faults']:
        u = f['u'] if f['where'] != 'late' else .9 + .1 * f['u']
        if f['where'] in ('any', 'late'):
            faults.append({'cat': 'any', 'k': 1 + min(total - 1, int(u * total)), 'act': f['act'], 'when': f['when']})
        else:
            n = c['cv'] if f['where'] == 'fit' else want.scored or c['cv'] * len(c['lagrange'])
            hooks.append([f['where'], 1 + int(u * n), f['act']])
    count = {'fit': 0, 'score': 0}
    raised = []

    def hook(where):
        count[where] += 1
        for x in hooks:
            if x[0] == where and x[1] == count[where] and CTL.armed:
                env.fault('%s:%s' % (x[2], where))
                raised.append(x[2])
                raise EXC[x[2]]('injected in the %s' % where)

    call = cv.Call(h, c, lam0, hook)
    before = cv.state(h, call)
    again = cv.Call(h, c, lam0)
    again.init = call.init
    told = {}

    def main():
        with armed(env, faults):
            try:
                call()
            except BaseException as e:                       # noqa: whatever the caller gets
                if type(e).__name__ == '_Kill':
                    raise
                told['exc'] = e
            told['fired'] = [f['act'] for f in CTL.fired] + list(raised)
        told['state'] = cv.changed(before, cv.state(h, call))
        again()                      # while what is left of the failed call still runs
    SimParallel.workers[0] = c['workers']
    sim = Sim(plan['schedule'], env, env.prefix)
    try:
        cv.quiet(lambda: sim.run(main))
    except Deadlock as e:
        env.fail('deadlock', e, 'deadlock|%s' % spec['k'])
        return
    if sim.overrun:
        env.mark('overrun')
        return
    fired, exc = told['fired'], told.get('exc')
    env.log('call', fired, type(exc).__name__ if exc is not None else None)
    if fired:
        env.probe('failed calls')
        if exc is None:
            env.fail('swallowed', '%s: %s struck inside a fold, and the call returned %s' % (
                who, ', '.join(fired), brief(call.value)), 'swallowed|%s|%s' % (spec['k'], fired[0]))
            return
        if not any(isinstance(exc, EXC[a]) for a in fired):
            env.fail('other-error', '%s: %s struck inside a fold, and the caller got %r' % (who, ', '.join(fired), exc),
                     'other|%s|%s' % (spec['k'], fired[0]))
            return
    elif exc is not None:
        raise exc
    elif not (same(call.value[0], want.value[0], 1e-9) and same(call.value[1], want.value[1], 1e-9)):
        env.fail('scores', '%s: without a fault the scores are %s, one fold after the other %s' % (
            who, brief(call.value[0]), brief(want.value[0])), 'scores|%s' % spec['k'])
        return
    for d, when in ((told['state'], 'when the caller got the error'), (cv.changed(before, cv.state(h, call)), 'in the end')):
        if d:
            env.fail('modified', '%s: after %s in a fold %s has changed %s' % (
                who, ', '.join(fired) or 'no fault', ', '.join(d), when), 'state|%s|%s' % (spec['k'], d[0]))
            return
    env.probe('repeated calls compared')
    for i, nm in enumerate(('mean', 'deviation')):
        if not same(again.value[i], want.value[i], 1e-9):
            env.fail('repeat-differs', '%s: after %s in a fold the same call gives %s scores %s; had nothing failed %s' % (
                who, ', '.join(fired) or 'no fault', nm, brief(again.value[i]), brief(want.value[i])), 'repeat|%s' % spec['k'])
            return
    for k in want.folds:
        if k not in again.folds or not same(again.folds[k], want.folds[k], 1e-9):
            env.fail('repeat-differs', '%s: after %s in a fold the same call gives coefficients %s for the fold trained on %s; '
                     'had nothing failed %s' % (who, ', '.join(fired) or 'no fault', brief(again.folds.get(k)), k,
                                                brief(want.folds[k])), 'repeat-coefs|%s' % spec['k'])
            return
