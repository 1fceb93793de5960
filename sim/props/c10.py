"""C10: a regularisation path solves the problem at every multiplier asked for."""
import numpy as np

from .. import paths
from ..core import StepLimit, brief
from ..seams import CTL, Injected, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 700, 'thorough': 30000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds a path (lasso, group lasso, sparse group lasso, sparse group block with common or separate '
            'designs; ten losses, weights, groups, unpenalised groups, elastic net terms, case weights, dense, Fortran or '
            'sparse designs) and puts a history of 2-5 fits to it or to subsampled paths made from it: strong rules, warm '
            'starts or BASIL with random options, grids (log spaced, coarse, repeated, unordered, above the null '
            'multiplier), initial data (the null solution itself, a copy, zero, the end of the previous fit), some fits '
            'interrupted at a random component evaluation. Every solution is compared with the optimum of the full problem '
            'found by an independent accelerated proximal gradient method; the null multiplier with its own definition. '
            'Distinct: path kind, loss, options and history; non-trivial: at least two fits compared or a fault.',
    'real': 'all of regreg, including the Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions and bound the number of evaluations',
    'assumptions': ['the smooth part of the reference objective is the saturated loss of the library evaluated in a fresh '
                    'object (its correctness is not this property); penalty, elastic net, prox and solver are independent',
                    'a point for which the library warns that it did not converge is not compared'],
    'timeout': 60,
}


def gen(rng, idx, tier):
    kinds = ('lasso', 'group_lasso', 'sparse_group_lasso', 'common', 'lasso', 'group_lasso', 'sparse_group_lasso', 'block')
    spec = paths.gen(rng, kinds[idx % len(kinds)])
    n = spec['n']
    ops = []
    for _ in range(rng.choice([2, 2, 3, 3, 4, 5])):
        f = rng.choice(paths.FITTERS)
        op = {'fitter': f, 'lagrange': paths.gen_grid(rng, .3 if spec['loss'] == 'cloglog' else 0.), 'opt': paths.gen_options(rng, f),
              'init': rng.choice(['path', 'path', 'copy', 'zero', 'prev'])}
        if rng.random() < .2:
            op['fault'] = {'u': round(rng.random(), 3), 'act': rng.choice(['error', 'interrupt', 'memory'])}
        elif rng.random() < .25 and spec['k'] != 'block' and spec['loss'] != 'cloglog':
            m = rng.randint(n // 2, n - 1)
            op['sub'] = sorted(rng.sample(range(n), m))
        ops.append(op)
    return {'spec': spec, 'ops': ops}


TOLS = {1e-5: 2e-3, 1e-7: 5e-4, 1e-9: 2e-4, 1e-12: 2e-4}
LIMIT = 400000


def null_check(env, h, who):
    l0, b0 = h.P.null()
    if l0 is None or not np.isfinite(l0) or l0 < 1e-3:
        return None
    l1 = paths.null_multiplier(h)
    env.probe('null multipliers compared')
    # unpenalised coefficients are found by a solver that stops on small changes of a partly flat objective
    tol = 2e-2 if not h.P.pen.all() else 1e-3
    if not abs(l0 - l1) <= tol * l0:
        env.fail('null-multiplier', '%s: the smallest multiplier for which every penalised coefficient is zero is %.6g, the '
                 'path computes %.6g' % (who, l0, l1), 'null|%s' % h.spec['k'])
    return l0


def run(plan, env):
    spec = plan['spec']
    env.mark('%s.%s' % (spec['k'], spec['loss']))
    h = paths.build(spec)
    l0 = null_check(env, h, '%s path' % spec['k'])
    if l0 is None or env.violations:
        return
    last = None
    compared = 0
    for i, op in enumerate(plan['ops']):
        who = '%s path, %s loss, fit %d (%s)' % (spec['k'], spec['loss'], i, op['fitter'])
        t, lam0 = h, l0
        if op.get('sub'):
            t = paths.subsample(h, op['sub'])
            who += ' of the path on %d of the cases' % len(op['sub'])
            env.mark('sub')
            lam0 = null_check(env, t, who)
            if env.violations:
                return
            if lam0 is None:
                continue
        grid = np.array(op['lagrange']) * lam0
        init = paths.initial(t, op['init'], last, grid[0])
        f = op.get('fault')
        opt = dict(op['opt'])
        if f:
            g = paths.build(spec)
            try:
                with armed(env, [], LIMIT):
                    paths.fit(g, op['fitter'], grid.copy(), opt, paths.initial(g, op['init'], last, grid[0]))
            except StepLimit:
                pass
            total = CTL.total
            try:
                with armed(env, [{'cat': 'any', 'k': 1 + int(f['u'] * total), 'act': f['act']}], LIMIT):
                    paths.fit(t, op['fitter'], grid, opt, init)
                env.log('fault did not surface', op['fitter'])
            except (Injected, KeyboardInterrupt, MemoryError):
                env.log('interrupted', op['fitter'])
            continue
        asked = grid.copy()
        try:
            with armed(env, [], LIMIT):
                sols, stuck, raw = paths.fit(t, op['fitter'], grid, opt, init)
        except StepLimit:
            if opt['inner_tol'] < 1e-8:
                env.probe('solve too accurate to finish within the bound')
                return
            env.fail('no-progress', '%s does not finish within %d evaluations' % (who, LIMIT),
                     'progress|%s|%s' % (spec['k'], op['fitter']))
            return
        env.mark('%s %s' % (op['fitter'], op['init']))
        ret = raw.get('lagrange', asked) if isinstance(raw, dict) else asked
        if len(sols) != len(asked) or not np.array_equal(np.asarray(ret), asked):
            env.fail('grid', '%s: asked for the %d multipliers %s, it returns %d solutions for %s' % (
                who, len(asked), brief(asked), len(sols), brief(np.asarray(ret))), 'grid|%s|%s' % (spec['k'], op['fitter']))
            return
        tol = TOLS[opt['inner_tol']]
        b = None
        order = np.argsort(-asked, kind='stable')
        for j in order:
            lam = asked[j]
            b, ok = t.P.minimise(lam, b)
            if not ok:
                env.probe('reference did not converge')
                continue
            env.probe('points compared')
            compared += 1
            x = np.asarray(sols[j], float)
            fx = t.P.objective(x, lam) if x.shape == b.shape else np.inf
            fb = t.P.objective(b, lam)
            slack = tol * max(1., abs(fb))
            if op['fitter'] != 'warm' and x.shape == b.shape:
                # screening leaves out what violates its condition by less than one per cent
                slack += .012 * t.P.alpha * lam * t.P.penalty(np.where(x == 0, b, 0.))
            if not np.isfinite(fx) or fx - fb > slack:
                if stuck:
                    env.probe('warned not converged')
                    continue
                env.fail('not-optimal', '%s: at multiplier %.6g (%.3g of the null multiplier, point %d of %d) the objective '
                         'of the solution is %.8g, the optimum %.8g; solution %s, optimal %s' % (
                             who, lam, lam / lam0, j, len(asked), fx, fb, brief(x), brief(b)),
                         'gap|%s|%s' % (spec['k'], op['fitter']))
                return
        env.log('fit', [float(v) for v in asked], [t.P.objective(np.asarray(s, float), lam) for s, lam in zip(sols, asked)])
        if not op.get('sub'):
            last = raw[-1] if op['fitter'] == 'basil' else raw['beta'][-1]
        if compared and i:
            env.nontrivial = True
