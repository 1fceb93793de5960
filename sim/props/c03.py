"""C03: an interrupted solve or evaluation leaves the problem as it was."""
import numpy as np

from .. import progs, zoo
from ..core import same, gap, brief
from ..seams import CTL, armed, Injected
from regreg.identity_quadratic import identity_quadratic as iq

META = {
    'level': 'exploration',
    'runs': {'quick': 1300, 'thorough': 16000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds a random problem (solver entry point x loss x penalty) and interrupts 1-4 of its '
            'operations (solve with and without an extra quadratic, prox, evaluation, component solve) by an exception at the k-th '
            'component evaluation inside, k uniform over the evaluations an uninterrupted twin makes. Non-trivial: at '
            'least one exception was raised inside library code; distinct: different sequence of operations, fault '
            'kinds, fault sites and outcomes.',
    'real': 'all of regreg: solvers, problems, losses, atoms, transforms, Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions',
    'assumptions': ['faults strike at component-evaluation boundaries (objectives, proxes, affine maps, Hessians), '
                    'not between arbitrary bytecodes',
                    'iterates (coefs) may move during an interrupted solve; configuration may not'],
}

OPS = ('solve', 'solve', 'solve_q', 'solve_q', 'prox', 'smooth', 'objective', 'part_solve', 'part_solve_q')


def gen(rng, idx, tier):
    kind = progs.KINDS[idx % len(progs.KINDS)]
    spec = progs.gen_problem(rng, kind)
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append({'op': rng.choice(OPS), 'part': rng.randrange(8),
                    'u': round(rng.random(), 4), 'act': rng.choice(['error', 'interrupt', 'memory', 'float']),
                    'when': rng.choice(['before', 'before', 'after'])})
    return {'problem': spec, 'ops': ops, 'final_q': int(rng.random() < .5)}


def _q(shape):
    return iq(0.8, np.full(shape, .2), np.full(shape, -.3), 0)


def _do(P, op):
    shape = P.shape()
    k = op['op']
    if k == 'solve':
        return P.solve()
    if k == 'solve_q':
        return P.solve(_q(shape)) if P.takes_q else P.solve()
    o = P.parts[op['part'] % len(P.parts)]
    oshape = progs.arg_shape(o)
    x = np.round(zoo.rs(11).standard_normal(oshape) * .3, 4)
    if k == 'prox':
        return o.proximal(iq(1.3, x, 0.1, 0))
    if k == 'smooth':
        return o.smooth_objective(x, 'both')
    if k == 'objective':
        return o.nonsmooth_objective(x)
    fit = dict(P.fit)
    if not _is_smooth(o):
        fit = {}
    if k == 'part_solve':
        if not _is_smooth(o):
            return o.solve(quadratic=iq(1.1, x, 0, 0))
        return o.solve(**fit)
    return o.solve(quadratic=_q(oshape) if _is_smooth(o) else iq(1.1, x, 0, 0), **fit)


def _is_smooth(o):
    import regreg.api as rr
    from regreg.problems.composite import smooth
    return isinstance(o, (smooth, rr.simple_problem, rr.container)) or hasattr(o, 'smooth_atom')


def run(plan, env):
    spec = plan['problem']
    P = progs.Problem(spec)
    kind = spec['k']
    env.mark(kind)
    arrays = progs.snap_arrays(P.arrays)
    before = P.watch()
    twin_parts = None
    for i, op in enumerate(plan['ops']):
        # how many evaluations does this operation make when nothing goes wrong?
        T = progs.Problem(spec)
        with armed(env, [], 3000000):
            try:
                _do(T, op)
            except Exception as e:
                env.mark('unsupported:%s:%s' % (op['op'], type(e).__name__))
                continue
            total = CTL.total
        if total == 0:
            continue
        k = 1 + int(op['u'] * total)
        exc = None
        with armed(env, [{'cat': 'any', 'k': k, 'act': op['act'], 'when': op['when']}], 3000000):
            try:
                _do(P, op)
            except BaseException as e:
                exc = e
            fired = list(CTL.fired)
        where = '%s:%s' % (kind, op['op'])
        at = fired[0]['at'] if fired else None
        env.log('op %s %s at=%s exc=%s' % (where, op['act'], at, type(exc).__name__))
        if fired and exc is None and op['act'] in ('error', 'interrupt'):
            env.fail('fault-swallowed', 'operation %s returned normally although %s was raised inside %s (evaluation '
                     '%d of %d)' % (op['op'], op['act'], at, k, total), where)
        if exc is not None and not fired and not isinstance(exc, Exception):
            raise exc
        after = P.watch()
        env.probe('state comparisons')
        bad = progs.diff_watch(before, after)
        if bad:
            names = sorted(set(b.split(' was ')[0].split('.')[-1] for b in bad))
            env.fail('state-changed', 'after %s was interrupted (%s at %s, evaluation %d of %d): %s' % (
                op['op'], op['act'], at, k, total, '; '.join(bad[:3])), '%s:%s' % (where, names[0]))
            return
        touched = progs.diff_arrays(arrays, P.arrays)
        if touched:
            env.fail('caller-array-changed', 'interrupted %s changed caller arrays %s' % (op['op'], touched), where)
            return
    # a clean retry must reach the optimum a never-interrupted twin reaches
    R = progs.Problem(spec)
    q = _q(R.shape()) if (plan['final_q'] and R.takes_q) else None
    try:
        xr = np.array(R.solve(q))
    except Exception as e:
        env.mark('reference-refuses:' + type(e).__name__)
        return
    if R.wild(xr):
        env.mark('beyond the range of the loss')
        return
    J = progs.Problem(spec)

    def value(x):
        v = J.objective(x)
        return v + (float(q.objective(x, 'func')) if q is not None else 0.)
    fr = value(xr)
    try:
        x = np.array(P.solve(q))
    except Exception as e:
        env.fail('retry-fails', 'after the interruptions a clean solve raises %s: %s' % (type(e).__name__, e), kind)
        return
    f = value(x)
    env.probe('retries compared')
    env.log('retry', '%.4g' % f)
    if not (abs(f - fr) <= P.tol * max(1., abs(fr))):
        env.fail('retry-differs', 'clean solve after interruptions: objective %.8g, never-interrupted twin %.8g' % (f, fr),
                 kind)
