"""C12: stopping early, or one bad evaluation, never yields a silently worse answer."""
import numpy as np

from .. import progs, zoo
from ..core import StepLimit, brief
from ..seams import CTL, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 1500, 'thorough': 30000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds a random problem for the composite solver (simple, smooth, affine, separable, container, matrix '
            'and multiresponse problems over seventeen losses and every penalty) with a random starting point, sometimes '
            'infeasible or far out, and either (a) solves fresh copies of it with an increasing ladder of iteration limits, '
            '(b) solves one copy piecewise, cut short a random number of times and by random limits or exceptions, or (c) '
            'lets one to three evaluations inside a solve return NaN or an infinity (values, gradients, proxes, '
            'maps). Values are compared with the start, with one another, and with the optimum an undisturbed copy finds. '
            'Distinct: problem, limits and faults; non-trivial: two limits compared, a cut, or a fault fired.',
    'real': 'all of regreg, including the Cython extensions',
    'stub': 'none; class-level wrappers replace the injected values and raise the exceptions',
    'assumptions': ['more iterations may be worse by a relative 1e-7, as the solver accepts increases below 1e-10 a step'],
}

KINDS = ('simple', 'simple', 'smooth', 'affine_pen', 'separable', 'container1', 'matrix', 'mglm', 'simple', 'container_sel',
         'simple', 'gengrad')
EXACT = ('simple', 'smooth', 'affine_pen', 'separable', 'matrix', 'mglm', 'gengrad')


def gen(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    spec = progs.gen_problem(rng, kind)
    if spec['loss']['k'] == 'glm.probit' and rng.random() < .7:      # slow
        spec['loss']['k'] = rng.choice(['glm.logistic', 'glm.huber', 'quadratic_loss'])
    mode = rng.choice(['ladder', 'pieces', 'poison', 'poison'])
    plan = {'problem': spec, 'mode': mode, 'start': rng.choice(['zero', 'random', 'random', 'far', 'default']),
            'fit': {'tol': rng.choice([1e-12, 1e-13]), 'coef_stop': rng.random() < .2,
                    'start_step': rng.choice([1., 1., .1, 1e-3, 30.])}}
    if mode == 'ladder':
        plan['limits'] = sorted(rng.sample([1, 2, 3, 4, 5, 7, 10, 14, 20, 33, 60, 101, 150, 400], rng.randint(2, 6)))
    elif mode == 'pieces':
        plan['ops'] = [{'its': rng.choice([1, 2, 3, 6, 12, 40]), 'u': round(rng.random(), 3),
                        'act': rng.choice([None, None, None, 'error', 'interrupt'])} for _ in range(rng.randint(1, 6))]
    else:
        plan['faults'] = [{'u': round(rng.random() ** rng.choice([1, 2]), 4), 'cat': rng.choice(['any', 'any', 'smooth', 'prox', 'nonsmooth', 'affine']),
                           'act': rng.choice(['nan', 'nan', 'inf', 'ninf'])} for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        plan['its'] = rng.choice([None, None, None, 5, 50])
    return plan


def make(plan):
    P = progs.Problem(plan['problem'])
    c = P.obj.coefs if hasattr(P.obj, 'coefs') else None
    if c is not None and plan['start'] != 'default':
        z = zoo.rs(plan['problem']['seed'] + 3).standard_normal(np.shape(c))
        x0 = np.round({'zero': 0., 'random': .5, 'far': 4.}[plan['start']] * z, 4)
        P.obj.coefs = x0
    return P


def start_of(P):
    return np.array(P.obj.coefs, float)


def value(J, x):
    # starting points may be infeasible (and solutions are feasible up to rounding)
    if not np.isfinite(J.obj.nonsmooth_objective(x * (1 - 1e-5), check_feasibility=True)):
        return np.inf
    return J.objective(x)


def run(plan, env):
    spec, mode = plan['problem'], plan['mode']
    kind = spec['k']
    env.mark('%s.%s.%s' % (kind, spec['loss']['k'], mode))
    J = progs.Problem(spec)
    fit = dict(plan['fit'])
    if kind.startswith('container'):
        fit.pop('start_step')
        fit.update(max_its=300, tol=1e-11)
    else:
        fit['max_its'] = 4000
    who = '%s problem, %s loss, %s' % (kind, spec['loss']['k'], spec['pen']['k'])
    R = make(plan)
    x0 = start_of(R)
    if not np.all(np.isfinite(x0)):
        return
    try:
        with armed(env, [], 400000):
            xr = np.array(R.solve(**dict(fit, min_its=20)))
        total, counts = CTL.total, dict(CTL.counts)
    except (Exception, StepLimit) as e:
        env.mark('unsupported:' + type(e).__name__)
        return
    f0, fr = value(J, x0), value(J, xr)
    if not abs(fr) < 1e5:
        env.mark('hardly bounded')
        return
    if J.wild(x0) or J.wild(xr) or not np.isfinite(fr):
        env.mark('beyond the range of the loss')
        return
    tol = 1e-5 if kind in EXACT else 1e-3
    eps = (1e-7 if kind in EXACT else 1e-3) * max(1., abs(fr))
    try:
        with armed(env, [], 400000):
            settled = value(J, np.array(R.solve(**dict(fit, min_its=20))))
    except (Exception, StepLimit):
        settled = -np.inf
    if not fr - settled <= .2 * tol * max(1., abs(fr)):
        env.probe('reference still moving at the iteration limit')
        return
    if not fr <= f0 + eps:
        env.fail('worse-than-start', '%s: a solve returns a point with objective %.10g, its starting point has %.10g' % (
            who, fr, f0), 'start|%s' % kind)
        return
    if mode == 'ladder':
        last = f0
        for m in plan['limits']:
            if kind not in EXACT:
                continue
            P = make(plan)
            x = np.array(P.solve(**dict(fit, max_its=m, min_its=m)))
            f = value(J, x)
            env.probe('iteration limits compared')
            env.log('limit', m, f)
            env.nontrivial = True
            if not np.all(np.isfinite(x)) or not f <= last + eps:
                env.fail('worse-than-start' if last is f0 else 'more-iterations-worse',
                         '%s: after %d iterations the objective is %.10g, after fewer (or at the start) %.10g' % (
                             who, m, f, last), 'ladder|%s' % kind)
                return
            last = min(last, f)
        return
    if mode == 'pieces':
        P = make(plan)
        last = f0
        for op in plan['ops']:
            lim = dict(fit, max_its=op['its'], min_its=op['its'])
            try:
                if op['act']:
                    k = 1 + int(op['u'] * min(total, 12 * op['its']))
                    with armed(env, [{'cat': 'any', 'k': k, 'act': op['act']}], 400000):
                        P.solve(**lim)
                else:
                    P.solve(**lim)
            except BaseException as e:
                if not CTL.fired:
                    raise
                env.mark('cut:' + type(e).__name__)
            env.nontrivial = True
            x = start_of(P)
            f = value(J, x)
            env.probe('pieces compared')
            env.log('piece', f)
            if kind in EXACT and (not np.all(np.isfinite(x)) or not f <= last + eps):
                env.fail('piece-worse', '%s: a further %d iterations%s took the objective from %.10g to %.10g' % (
                    who, op['its'], ', cut short by an %s,' % op['act'] if op['act'] else '', last, f), 'piece|%s' % kind)
                return
            last = f
        x = np.array(P.solve(**dict(fit, min_its=20)))
        f = value(J, x)
        if not f - fr <= tol * max(1., abs(fr)):
            env.fail('continued-elsewhere', '%s: solved piecewise the objective ends at %.10g, in one go at %.10g' % (
                who, f, fr), 'continued|%s' % kind)
        return
    P = make(plan)
    faults = []
    for f in plan['faults']:
        n = total if f['cat'] == 'any' else max(1, total // 3)
        faults.append({'cat': f['cat'], 'k': 1 + int(f['u'] * n), 'act': f['act']})
    exc = x = None
    with armed(env, faults, 400000):
        try:
            x = np.array(P.solve(**dict(fit, min_its=20)))
        except StepLimit:
            env.probe('poisoned solves not finished within the bound')
            return
        except Exception as e:
            exc = e
        fired = list(CTL.fired)
    env.log('poison', [f['act'] + '@' + f['at'] for f in fired], type(exc).__name__ if exc is not None else None)
    what = ', '.join('%s of %s' % (f['act'], f['at']) for f in fired)
    if exc is None:
        env.probe('poisoned solves compared')
        f = value(J, x)
        absorbed = any(g['at'] in ('linear_map', 'affine_map') for g in fired)
        if not np.all(np.isfinite(x)) or not (f - fr <= tol * max(1., abs(fr)) or absorbed):
            # (a loss may absorb an infinite linear predictor, and its value is then finite)
            if J.wild(x):
                return
            if kind not in EXACT and np.all(np.isfinite(x)) and \
                    value(J, np.array(P.solve(**dict(fit, min_its=20)))) < f - .2 * tol * max(1., abs(fr)):
                env.probe('poisoned solve still moving at the iteration limit')
                return
            env.fail('silently-wrong', '%s: with %s during the solve it returns %s with objective %.10g, the optimum is %.10g' % (
                who, what or 'nothing wrong', brief(x), f, fr), 'poison|%s|%s' % (kind, '|'.join(sorted(set(f['at'] for f in fired)))))
            return
    else:
        env.probe('poisoned solves that raised')
    if kind in EXACT:
        try:
            P.obj.coefs = np.array(x0)
            x = np.array(P.solve(**dict(fit, min_its=20)))
        except Exception as e:
            env.fail('later-solve', '%s: after %s a clean solve raises %r' % (who, what, e), 'later|%s' % kind)
            return
        f = value(J, x)
        if not f - fr <= tol * max(1., abs(fr)):
            env.fail('later-solve', '%s: after %s a clean solve ends at %.10g, the optimum is %.10g' % (who, what, f, fr),
                     'later|%s' % kind)
