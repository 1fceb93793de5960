"""C07: solving again reaches the same optimum whatever was solved before."""
import numpy as np
import regreg.api as rr

from .. import progs, zoo
from ..core import gap
from ..seams import CTL, armed
from . import c03
from regreg.identity_quadratic import identity_quadratic as iq

META = {
    'level': 'exploration',
    'runs': {'quick': 1100, 'thorough': 12000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds a random problem (solver entry point x loss x penalty) and puts it through 2-7 operations: '
            'solves with other quadratics, other multipliers, other starting coefficients, loose or tight tolerances, '
            'iteration limits, step sizes, restarts, plain gradient steps, solves of its parts, proximal maps, and solves '
            'cut by an injected exception. Then two final configurations (quadratic, multiplier) are solved and compared '
            'with a newly built problem; the solution must be a fixed point of the proximal gradient step. Distinct: '
            'sequence of operations, options and fault sites; non-trivial: the final solve started from a state another '
            'solve left.',
    'real': 'all of regreg: solvers, problems, losses, atoms, transforms, Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions',
    'assumptions': ['objective values are compared to the tolerance of each solver (1e-5 relative for the composite '
                    'solver, looser for the approximate methods), on problems with a unique optimum'],
}

FITS = ({}, {}, {'tol': 1e-2}, {'tol': 1e-6}, {'max_its': 1}, {'max_its': 3}, {'max_its': 17}, {'start_step': 1e-2},
        {'start_step': 50.}, {'restart': 7}, {'coef_stop': True, 'tol': 1e-9}, {'FISTA': False},
        {'return_optimum': True}, {'min_its': 40}, {'monotonicity_restart': False, 'max_its': 60},
        {'return_objective_hist': False})
OPS = ('solve', 'solve', 'solve_q', 'solve_q', 'mult', 'mult', 'coefs', 'coefs', 'fault', 'fault', 'part', 'prox', 'eval')


def gen(rng, idx, tier):
    kind = progs.KINDS[idx % len(progs.KINDS)]
    spec = progs.gen_problem(rng, kind)
    ops = []
    for _ in range(rng.randint(2, 7)):
        ops.append({'op': rng.choice(OPS), 'fit': rng.randrange(len(FITS)), 'seed': rng.randrange(1, 10 ** 6),
                    'sub': rng.choice(c03.OPS), 'part': rng.randrange(8), 'u': round(rng.random(), 4),
                    'act': rng.choice(['error', 'interrupt', 'memory', 'float']),
                    'when': rng.choice(['before', 'after'])})
    finals = [{'q': int(rng.random() < .5), 'm': rng.choice([None, .3, 1.7]), 'seed': rng.randrange(1, 10 ** 6)}
              for _ in range(2)]
    return {'problem': spec, 'ops': ops, 'finals': finals}


def _q(shape, seed):
    r = zoo.rs(seed)
    v = int(r.integers(4)) if hasattr(r, 'integers') else int(r.randint(4))
    c = np.round(r.standard_normal(shape), 2)
    l = np.round(r.standard_normal(shape) * .5, 2)
    return [iq(.8, c, l, 0), iq(2.5, c, 0, .3), iq(0, 0, l, 0), iq(.2, 0, 0, 0)][v]


def _multiply(P, m):
    """Set the multiplier (or bound) of the penalty to m times the original one.
    (A dual problem is built from conjugates, not from the penalty.)"""
    if P.kind == 'dual':
        return False
    pen = getattr(P, 'pen', None) or (P.pens[0] if getattr(P, 'pens', None) else None)
    if pen is None:
        return False
    atom = getattr(pen, 'atom', pen)
    for name in ('lagrange', 'bound'):
        v = getattr(atom, name, None)
        if v is not None and np.isscalar(v):
            if not hasattr(P, '_mult0'):
                P._mult0 = (name, v)
            if P._mult0[0] == name:
                setattr(atom, name, P._mult0[1] * m)
                return True
    return False


def _op(P, op, env):
    fit = FITS[op['fit']]
    shape = P.shape()
    k = op['op']
    if P.kind in ('nesta', 'tfocs', 'admm', 'quasi_newton', 'conjugate', 'smooth_conjugate') and k in ('coefs',):
        k = 'eval'
    if k == 'solve':
        return P.solve(**fit)
    if k == 'solve_q':
        return P.solve(_q(shape, op['seed']) if P.takes_q else None, **fit)
    if k == 'mult':
        if _multiply(P, [.2, .6, 2., 5.][op['seed'] % 4]):
            try:
                return P.solve(**fit)
            finally:
                _multiply(P, 1.)
        return None
    if k == 'coefs':
        c = getattr(P.obj, 'coefs', None)
        if c is not None and np.shape(c):
            v = np.round(zoo.rs(op['seed']).standard_normal(np.shape(c)), 3)
            if P.kind != 'nonsmooth' and getattr(getattr(P, 'pen', None), 'bound', None) is None:
                P.obj.coefs[:] = v
        return None
    if k == 'part':
        return c03._do(P, dict(op, op='part_solve' if op['seed'] % 2 else 'part_solve_q'))
    if k == 'prox':
        return c03._do(P, dict(op, op='prox'))
    return c03._do(P, dict(op, op='objective' if op['seed'] % 2 else 'smooth'))


def fixed_point_gap(P, x, q):
    """The norm of the proximal gradient mapping at x, or None."""
    if P.kind not in ('simple', 'separable', 'container1', 'container2', 'container_sel', 'matrix', 'mglm', 'affine_pen',
                      'gengrad'):
        return None
    o = P.obj
    g = o.smooth_objective(x, 'grad')
    r = zoo.rs(5)
    L = 1.
    for _ in range(3):
        d = r.standard_normal(np.shape(x))
        d *= 1e-3 / np.linalg.norm(d)
        L = max(L, np.linalg.norm(o.smooth_objective(x + d, 'grad') - g) / 1e-3)
    L = 3 * L
    prox = iq(L, x, g, 0)
    y = o.proximal(prox if q is None else prox + q)
    return L * np.linalg.norm(y - x), max(1., np.linalg.norm(g))


def run(plan, env):
    spec = plan['problem']
    P = progs.Problem(spec)
    kind = spec['k']
    env.mark(kind)
    for op in plan['ops']:
        where = '%s:%s:%d' % (kind, op['op'], op['fit'])
        if op['op'] == 'fault':
            T = progs.Problem(spec)
            o2 = dict(op, op=op['sub'])
            with armed(env, [], 3000000):
                try:
                    c03._do(T, o2)
                except Exception as e:
                    env.mark('unsupported')
                    continue
                total = CTL.total
            if not total:
                continue
            with armed(env, [{'cat': 'any', 'k': 1 + int(op['u'] * total), 'act': op['act'], 'when': op['when']}], 3000000):
                try:
                    c03._do(P, o2)
                except BaseException as e:
                    if not isinstance(e, (Exception, KeyboardInterrupt)):
                        raise
                    env.log('interrupted %s' % where, type(e).__name__)
            continue
        try:
            _op(P, op, env)
            env.log('op ' + where)
            env.nontrivial = True
        except Exception as e:
            env.log('refused ' + where, type(e).__name__)
    for fin in plan['finals']:
        R = progs.Problem(spec)
        m = fin['m']
        if m is not None:
            if not _multiply(R, m):
                m = None
            else:
                _multiply(P, m)
        else:
            _multiply(P, 1.)
        q = _q(R.shape(), fin['seed']) if fin['q'] and R.takes_q else None
        try:
            xr = np.array(R.solve(q))
        except Exception as e:
            env.mark('reference-refuses:' + type(e).__name__)
            continue
        if R.wild(xr):
            env.mark('beyond the range of the loss')
            continue
        J = progs.Problem(spec)
        if m is not None:
            _multiply(J, m)

        def value(x):
            v = J.objective(x)
            return v + (float(q.objective(x, 'func')) if q is not None else 0.)
        fr = value(xr)
        try:
            x = np.array(P.solve(q))
        except Exception as e:
            env.fail('solve-fails', 'after %d operations a solve raises %s: %s; a new problem solves' % (
                len(plan['ops']), type(e).__name__, e), kind)
            return
        f = value(x)
        env.probe('optima compared')
        env.log('final', '%.4g' % f)
        if isinstance(P.obj, rr.container) and not abs(f - fr) <= P.tol * max(1., abs(fr)):
            # the dual solver may have run out of iterations on either side
            for o in (P, R):
                y = np.array(o.solve(q, max_its=4000))
                if o is P:
                    x, f = y, value(y)
                else:
                    fr = value(y)
            env.mark('both solved further')
        if not (abs(f - fr) <= P.tol * max(1., abs(fr))):
            env.fail('optimum-differs', 'objective after %d operations %.8g, of a new problem %.8g (quadratic %s, '
                     'multiplier x %s)' % (len(plan['ops']), f, fr, bool(q), m), kind)
            return
        try:
            D = progs.Problem(spec)
            if m is not None:
                _multiply(D, m)
            xd = D.direct(q)
        except Exception as e:
            xd = None
            env.mark('no other route:' + type(e).__name__)
        if xd is not None and not R.wild(xd):
            fd = value(xd)
            env.probe('compared with another solver')
            if not f <= fd + P.tol * max(1., abs(fd)):
                env.fail('not-the-optimum', 'objective %.8g, by the composite solver %.8g (quadratic %s, multiplier x %s)'
                         % (f, fd, bool(q), m), kind)
                return
        try:
            G = fixed_point_gap(J, x, q)
        except Exception as e:
            G = None
            env.mark('no fixed point test:' + type(e).__name__)
        if G is not None and P.tol <= 1e-4:
            env.probe('fixed points checked')
            if not G[0] <= 3e-2 * G[1]:
                env.fail('not-a-fixed-point', 'the proximal gradient step moves the solution by %.3g (gradient %.3g)' % G,
                         kind)
                return
