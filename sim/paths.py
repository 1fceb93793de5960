"""Regularisation paths as JSON specs, and an independent account of the
problem each point of a path has to solve: the penalty, the elastic net term and
the solver below are written in numpy from the spec, and share nothing with
regreg.paths, regreg.atoms or the composite solver."""
import warnings

import numpy as np
import scipy.sparse as sp

import regreg.api as rr                                       # noqa
from regreg.paths import (lasso, group_lasso, sparse_group_lasso, sparse_group_block, mixed_lasso,
                          strong_rules, warm_start)
from regreg.paths.basil import basil
from regreg.paths import default_lagrange_sequence

from . import zoo
from .core import same

KINDS = ('lasso', 'group_lasso', 'sparse_group_lasso', 'lasso', 'group_lasso', 'common', 'block', 'mixed')
LOSSES = ('gaussian', 'logistic', 'poisson', 'huber', 'gaussian', 'probit', 'cox', 'huber_svm', 'gaussian', 'cloglog')
FITTERS = ('strong', 'warm', 'basil')


def gen(rng, kind=None, loss=None):
    kind = kind or rng.choice(KINDS)
    s = {'k': kind, 'loss': loss or rng.choice(LOSSES), 'n': rng.choice([18, 24, 30]), 'p': rng.choice([5, 6, 8]),
         'q': rng.choice([2, 3]), 'seed': rng.randrange(10 ** 6),
         'alpha': rng.choice([1., 1., 1., .5, .8]), 'enet': rng.choice([0, 0, 1]),
         'wts': rng.choice([0, 0, 1]), 'unpen': rng.choice([0, 0, 0, 1, 2]), 'l1_alpha': rng.choice([.95, .5, .3, 1., 0.]),
         'Xkind': rng.choice(['dense', 'dense', 'dense', 'sparse', 'fortran']),
         'w': rng.choice([0, 0, 0, 1]), 'soff': int(rng.random() < .15), 'coef': rng.choice([1., 1., 1., 2.]),
         'glab': rng.choice([0, 1, 2]), 'arr': int(rng.random() < .3)}
    if kind == 'common':
        s['loss'] = rng.choice(['multinomial', 'multiresponse_gaussian'])
        s['unpen'] = 0
    if kind == 'block':
        s['loss'] = rng.choice(['gaussian', 'gaussian', 'logistic', 'huber', 'poisson', 'cox', 'probit', 'cloglog', 'huber_svm'])
        s['unpen'] = 0
    if kind in ('common', 'block'):
        s['p'] = rng.choice([4, 5])
        s['l1_alpha'] = rng.choice([None, None, .6, .2])
        s['Xkind'] = rng.choice(['dense', 'fortran'])
    if kind == 'mixed':
        s['loss'] = rng.choice(['gaussian', 'gaussian', 'logistic'])
        s['alpha'] = 1.
        s['ns'] = rng.choice([0, 0, 1, 2])          # scale and center / neither / center only
        s['icept'] = int(rng.random() < .75)
        s['w'] = s['soff'] = 0
        s['coef'] = 1.
        s['Xkind'] = rng.choice(['dense', 'dense', 'sparse'])
        s['drop'] = int(rng.random() < .2)
    if s['loss'] == 'cox':
        s['w'] = s['soff'] = 0
    if s['loss'] == 'cloglog':        # its value is clipped far out, where separable data lead
        s['unpen'] = 0
    if s['kind' if 'kind' in s else 'k'] in ('common', 'block'):
        s['w'] = s['soff'] = 0
        s['coef'] = 1.
    return s


def gen_grid(rng, lo=0.):
    """Fractions of the null multiplier, in the order they are asked for."""
    n = rng.randint(3, 7)
    style = rng.choice(['default', 'default', 'random', 'random', 'low', 'repeat', 'above', 'unordered'])
    if style == 'default':
        prop = rng.choice([.05, .2, .5])
        g = [float(v) for v in np.exp(np.linspace(np.log(prop), 0, n))[::-1]]
    else:
        g = sorted((round(rng.uniform(.05, 1.), 3) for _ in range(n)), reverse=True)
        if style == 'low':
            g = sorted((round(rng.uniform(.03, .4), 3) for _ in range(n)), reverse=True)
        if style == 'repeat':
            g = sorted(g + [g[len(g) // 2]], reverse=True)
        if style == 'above':
            g = [1.6, 1.05] + g
        if style == 'unordered':
            rng.shuffle(g)
    return [max(v, lo) for v in g]


def gen_options(rng, fitter):
    o = {'inner_tol': rng.choice([1e-5, 1e-5, 1e-7, 1e-9, 1e-12]), 'initial_step': rng.choice([None, None, None, 1., 1e-3])}
    if o['inner_tol'] > 1e-8 and o['initial_step'] == 1e-3:
        o['initial_step'] = 1.        # steps so small that the solver rightly takes them for convergence
    if fitter == 'strong':
        o['check_active'] = rng.random() < .25
        if rng.random() < .2:
            o['max_tries'] = rng.choice([10, 40])
        o['verbose'] = rng.random() < .1
    if fitter == 'basil':
        o['step_nvar'] = rng.choice([1, 2, 5, 50])
        o['step_lagrange'] = rng.choice([1, 2, 3, 5, 20])
        o['check_active'] = rng.random() < .2
        if rng.random() < .3:
            o['solve_args'] = rng.choice([{}, {'min_its': 3}, {'max_its': 5000}])
        o['verbose'] = rng.random() < .1
    if fitter == 'warm':
        if rng.random() < .4:
            o['solve_args'] = rng.choice([{}, {'min_its': 3}, {'max_its': 5000}, {'tol': 1e-3}])
        o['verbose'] = rng.random() < .1
    return o


# ------------------------------------------------------------------ the data

def groups_of(spec):
    p = spec['p']
    r = zoo.rs(spec['seed'] + 71)
    g = np.sort(r.randint(0, max(2, p // 2), size=p))
    if spec['glab'] == 1:
        r.shuffle(g)
    if spec['glab'] == 2:
        return np.array(['%s' % 'bcadef'[v] for v in g])
    return g


def _psd_rows(spec, q):
    return [dict(spec, seed=spec['seed'] + 100 * j, n=spec['n'] + j) for j in range(q)]


class PathSpec(object):
    """The data of a spec, the objective at a multiplier, and its minimiser."""

    def __init__(self, spec, rows=None, scale=1.):
        self.spec = spec
        self.scale = scale                 # of the loss, as cross-validation rescales it
        self.k = spec['k']
        s = self.s = dict(spec, int=0, quad=None, rows=rows, yv=0)
        p, q = s['p'], s['q']
        r = zoo.rs(s['seed'] + 61)
        self.arrays = {}
        if self.k == 'block':
            subs, at = [], 0
            for b in _psd_rows(s, q):
                mine = None if rows is None else [v - at for v in rows if at <= v < at + b['n']]
                at += b['n']
                subs.append(dict(b, rows=mine))
            self.Xfull = [zoo.design(b) for b in subs]
            self.Xs = [zoo.rows_of(b, x) for b, x in zip(subs, self.Xfull)]
            self.parts = [zoo.sat_loss(b, s['loss']) for b in subs]
            self.shape = (p, q)
        else:
            self.X0 = zoo.design(s)
            if self.k == 'mixed' and s.get('drop'):
                self.X0[:, -1] = 0.
            self.shape = (p, q) if self.k == 'common' else (p,)
        # penalty
        u = np.round(.5 + r.uniform(size=p), 2)
        if self.k in ('lasso', 'sparse_group_lasso'):
            self.lw = u if s['wts'] else np.ones(p)
        if self.k == 'lasso' and s['unpen']:
            self.lw[zoo.rs(s['seed'] + 63).permutation(p)[:s['unpen']]] = 0
        if self.k in ('group_lasso', 'sparse_group_lasso'):
            self.groups = groups_of(s)
            labels, inv = np.unique(self.groups, return_inverse=True)
            self.labels, self.inv = labels, inv
            self.gw = np.sqrt(np.bincount(inv)).astype(float)
            self.gwd = {}
            if s['wts']:
                self.gwd = dict((g, float(v)) for g, v in zip(labels, u))
                self.gw = np.array([self.gwd[g] for g in labels])
            if s['unpen'] and len(labels) > 1:
                j = int(zoo.rs(s['seed'] + 63).randint(len(labels)))
                self.gwd[labels[j]] = 0.
                self.gw[j] = 0
                if self.k == 'sparse_group_lasso':
                    self.lw[inv == j] = 0
        if self.k in ('common', 'block'):
            self.l1, self.l2 = [(1., np.sqrt(q)), (.5, 1.), (1., .3), (2., 2.)][s['seed'] % 4]
        # effective weights on every coordinate and group
        a = s['l1_alpha']
        if self.k == 'lasso':
            self.e1, self.e2, self.blocks = self.lw, np.zeros(0), []
        elif self.k == 'group_lasso':
            self.e1, self.e2 = np.zeros(p), self.gw
        elif self.k == 'sparse_group_lasso':
            self.e1, self.e2 = self.lw * a, self.gw * (1 - a)
        elif self.k in ('common', 'block'):
            b1, b2 = (1., 1.) if a is None else (a, 1 - a)
            self.e1, self.e2 = self.l1 * b1 * np.ones((p, q)), self.l2 * b2 * np.ones(p)
        if self.k in ('group_lasso', 'sparse_group_lasso'):
            self.blocks = [np.nonzero(inv == j)[0] for j in range(len(labels))]
        elif self.k in ('common', 'block'):
            self.blocks = [np.arange(j * q, (j + 1) * q) for j in range(p)]
        self.pos = np.zeros(self.shape, bool)              # positive part of the coordinate
        self.nonneg = np.zeros(self.shape, bool)           # constrained
        if self.k == 'mixed':
            self._mixed()
        self.pen = np.array(self.e1 > 0)
        for b, w in zip(self.blocks, self.e2):
            if w > 0:
                self.pen.flat[b] = True
        # elastic net
        self.alpha = s['alpha']
        c = np.ones(self.shape)
        if s['enet'] and self.alpha < 1:
            c = np.round(zoo.rs(s['seed'] + 67).uniform(size=self.shape), 2)
            c.flat[0] = 0
        if s['unpen'] and zoo.rs(s['seed'] + 69).uniform() < .7 and self.k != 'mixed':
            c[~self.pen] = 0
        self.c = c
        self._loss()

    # -- mixed lasso: normalised design and a structure of penalties
    def _mixed(self):
        s = self.s
        p = s['p']
        base = [mixed_lasso.L1_PENALTY, 0, 0, mixed_lasso.POSITIVE_PART, mixed_lasso.UNPENALIZED, mixed_lasso.NONNEGATIVE,
                1, 1, mixed_lasso.L1_PENALTY]
        kind = s['seed'] % 5
        if kind == 0:
            st = [mixed_lasso.L1_PENALTY] * p
        elif kind == 1:
            st = [0] * (p - 2) + [1] * 2
        elif kind == 2:
            st = [mixed_lasso.POSITIVE_PART] * (p - 1) + [mixed_lasso.L1_PENALTY]
        else:
            st = base[:p]
        self.structure = list(st)
        X = self.X0
        full = list(st)
        if s['icept']:
            X = np.hstack([np.ones((X.shape[0], 1)), X])
            full = [mixed_lasso.UNPENALIZED] + full
        mean = X.mean(0)
        sd = X.std(0)
        if s['icept']:
            mean[0], sd[0] = 0, 1
        scale, center = [(1, 1), (0, 0), (0, 1)][s['ns']]
        if s['icept'] or True:
            Z = X.copy()
            if center:
                Z = Z - mean
            if scale:
                sd = np.where(sd == 0, 1, sd)
                Z = Z / sd
        self.Z, self.full = Z, np.array(full)
        m = len(full)
        self.shape = (m,)
        self.e1 = np.where((self.full == mixed_lasso.L1_PENALTY) | (self.full == mixed_lasso.POSITIVE_PART), 1., 0.)
        self.pos = self.full == mixed_lasso.POSITIVE_PART
        self.nonneg = self.full == mixed_lasso.NONNEGATIVE
        labels = [g for g in np.unique(self.full) if g >= 0]
        self.blocks = [np.nonzero(self.full == g)[0] for g in labels]
        self.e2 = np.array([np.sqrt(len(b)) for b in self.blocks])

    def _loss(self):
        s, k = self.s, self.k
        if k == 'block':
            L = [l for l, _ in self.parts]

            def smooth(B):
                f, G = 0., np.zeros(self.shape)
                for j, (X, l) in enumerate(zip(self.Xs, L)):
                    if not X.shape[0]:
                        continue
                    v, g = l.smooth_objective(X.dot(B[:, j]), 'both')
                    f += v
                    G[:, j] = X.T.dot(g)
                return f * self.scale, G * self.scale
            self.smooth = smooth
            return
        if k == 'common':
            X = zoo.rows_of(s, self.X0)
            Y = zoo.rows_of(s, self.multi())
            if s['loss'] == 'multinomial':
                from regreg.smooth import mglm as M
                l = M.multinomial_loglike(Y.shape, Y)

                def smooth(B):
                    v, g = l.smooth_objective(X.dot(B), 'both')
                    return v * self.scale, X.T.dot(g) * self.scale
            else:
                def smooth(B):
                    R = X.dot(B) - Y
                    return .5 * np.sum(R ** 2) * self.scale, X.T.dot(R) * self.scale
            self.smooth = smooth
            return
        X = self.Z if k == 'mixed' else self.X0
        X = zoo.rows_of(s, X)
        l, arrays = zoo.sat_loss(s, s['loss'])

        def smooth(b):
            v, g = l.smooth_objective(X.dot(b), 'both')
            return v * self.scale, X.T.dot(g) * self.scale
        self.smooth = smooth

    def cases(self):
        return sum(x.shape[0] for x in self.Xfull) if self.k == 'block' else self.s['n']

    def predict(self, B):
        """Linear predictor of every case (of the whole data)."""
        if self.k == 'block':
            return np.hstack([x.dot(B[:, j]) for j, x in enumerate(self.Xfull)])
        return self.X0.dot(B)

    def multi(self):
        s = self.s
        if s['loss'] == 'multinomial':
            return zoo.multi_response(s)
        r = zoo.rs(s['seed'] + 73)
        return np.round(self.X0.dot(r.standard_normal((s['p'], s['q']))) * .5 + r.standard_normal((s['n'], s['q'])), 4)

    # -- the objective and its pieces
    def ridge(self, lam):
        return (1 - self.alpha) * self.c * np.where(self.pen, lam, 1.)

    def penalty(self, b):
        a = np.abs(b)
        if self.pos.any():
            a = np.where(self.pos, np.maximum(b, 0), a)
        v = float(np.sum(self.e1 * a))
        for blk, w in zip(self.blocks, self.e2):
            v += w * np.linalg.norm(b.flat[blk])
        return v

    def objective(self, b, lam):
        b = np.asarray(b, float)
        v = self.smooth(b)[0] + .5 * float(np.sum(self.ridge(lam) * b ** 2)) + self.alpha * lam * self.penalty(b)
        if self.nonneg.any() and np.any(b[self.nonneg] < -1e-9):
            return np.inf
        return v

    def prox(self, z, step, lam):
        t = step * lam * self.alpha
        if self.pos.any():
            x = np.where(self.pos, np.where(z > t * self.e1, z - t * self.e1, np.minimum(z, 0)),
                         np.sign(z) * np.maximum(np.abs(z) - t * self.e1, 0))
        else:
            x = np.sign(z) * np.maximum(np.abs(z) - t * self.e1, 0)
        if self.nonneg.any():
            x[self.nonneg] = np.maximum(z[self.nonneg], 0)
        for blk, w in zip(self.blocks, self.e2):
            v = x.flat[blk]
            nv = np.linalg.norm(v)
            x.flat[blk] = v * (max(0., 1 - t * w / nv) if nv > 0 else 0.)
        return x

    def minimise(self, lam, b0=None, free=None, its=20000, tol=1e-9):
        """Accelerated proximal gradient with backtracking and restarts."""
        R = self.ridge(lam)

        def sm(b):
            f, g = self.smooth(b)
            return f + .5 * float(np.sum(R * b ** 2)), g + R * b
        b = np.zeros(self.shape) if b0 is None else np.array(b0, float)
        y, t, L = b.copy(), 1., 1.
        mask = None if free is None else ~free
        for it in range(its):
            f, g = sm(y)
            while True:
                x = self.prox(y - g / L, 1. / L, lam)
                if mask is not None:
                    x[mask] = 0
                d = x - y
                fx = sm(x)[0]
                if fx <= f + float(np.sum(g * d)) + .5 * L * float(np.sum(d * d)) + 1e-13 * max(1., abs(f)) or L > 1e14:
                    break
                L *= 2
            if L * np.abs(d).max() <= tol * max(1., np.abs(g).max()) and it > 2:
                return x, True
            tn = .5 * (1 + np.sqrt(1 + 4 * t * t))
            if float(np.sum((y - x) * (x - b))) > 0:
                tn, t = 1., 1.
                y = x.copy()
            else:
                y = x + (t - 1) / tn * (x - b)
            b, t = x, tn
            if it % 10 == 9:
                L *= .8
        return b, False

    def null(self):
        """(smallest multiplier with no penalised coefficient, null solution)."""
        if self.pen.all() and not self.nonneg.any():
            b = np.zeros(self.shape)
        else:
            b, ok = self.minimise(0., free=~self.pen, tol=1e-10)
            if not ok:
                return None, b
        g = self.smooth(b)[1]
        return self.dual(g) / self.alpha, b

    def dual(self, g):
        """Smallest t with g in t * (subdifferential at zero of the penalised part)."""
        best = 0.
        inblock = np.zeros(self.shape, bool)
        for blk, w in zip(self.blocks, self.e2):
            inblock.flat[blk] = True
            v, e = np.abs(g.flat[blk]), self.e1.flat[blk]
            if w == 0 and not e.any():
                continue

            def inside(t):
                return np.linalg.norm(np.maximum(v - t * e, 0)) <= t * w * (1 + 1e-13) + 1e-15
            hi = 1.
            while not inside(hi) and hi < 1e12:
                hi *= 2
            lo = 0.
            for _ in range(200):
                mid = .5 * (lo + hi)
                if inside(mid):
                    hi = mid
                else:
                    lo = mid
            best = max(best, hi)
        rest = ~inblock & (self.e1 > 0)
        if rest.any():
            v = np.where(self.pos, np.maximum(-g, 0), np.abs(g))
            best = max(best, float(np.max(v[rest] / self.e1[rest])))
        return best


# ------------------------------------------------------------------ the paths

class Holder(object):
    pass


def build(spec):
    """A new path with every caller-owned array recorded."""
    P = PathSpec(spec)
    s, k = P.s, spec['k']
    h = Holder()
    h.spec, h.P, h.arrays = spec, P, {}
    kw = {}
    if s['alpha'] < 1 or s['enet']:
        kw['elastic_net_param'] = h.arrays['elastic_net_param'] = P.c.copy()
        if s['alpha'] < 1:
            kw['alpha'] = s['alpha']
    if k == 'mixed':
        kw = {}
    X = None
    if k != 'block':
        X = P.X0.copy()
        if spec['Xkind'] == 'sparse':
            X = sp.csc_matrix(X)
        elif spec['Xkind'] == 'fortran':
            X = np.asfortranarray(X)
        h.arrays['X'] = X
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if k in ('lasso', 'group_lasso', 'sparse_group_lasso'):
            loss, a = zoo.sat_loss(s, s['loss'])
            h.arrays.update(a)
            h.loss = loss
            if k == 'lasso':
                h.arrays['weights'] = w = P.lw.copy()
                cls, args = lasso.lasso_path, (loss, X, w)
            elif k == 'group_lasso':
                h.arrays['groups'] = g = P.groups.copy()
                h.arrays['weights'] = kw['weights'] = dict(P.gwd)
                cls, args = group_lasso.group_lasso_path, (loss, X, g)
            else:
                h.arrays['groups'] = g = P.groups.copy()
                h.arrays['weights'] = kw['weights'] = dict(P.gwd)
                h.arrays['lasso_weights'] = lw = P.lw.copy()
                kw['l1_alpha'] = s['l1_alpha']
                cls, args = sparse_group_lasso.sparse_group_lasso_path, (loss, X, g, lw)
            plain = not (s['w'] or s['soff'] or s['coef'] != 1.)
            if plain and s['seed'] % 2:
                # the public factories
                d = zoo.response(s, s['loss'])
                h.arrays.update(d)
                mod = {'lasso': lasso, 'group_lasso': group_lasso, 'sparse_group_lasso': sparse_group_lasso}[k]
                data = (d['T'], d['C']) if s['loss'] == 'cox' else (d['Y'],)
                extra = {'huber': (.7,), 'huber_svm': (.4,)}.get(s['loss'], ())
                h.path = getattr(mod, s['loss'])(X, *(data + extra + args[2:]), **kw)
                h.loss = h.path.saturated_loss
            else:
                h.path = cls(*args, **kw)
        elif k in ('common', 'block'):
            l1, l2 = P.l1, P.l2
            if s['arr']:
                l1, l2 = np.array(l1), np.array(l2)
                h.arrays.update(l1=l1, l2=l2)
            if s['l1_alpha'] is not None:
                kw['l1_alpha'] = s['l1_alpha']
            if k == 'common':
                h.arrays['Y'] = Y = P.multi()
                f = getattr(sparse_group_block, s['loss'])
                h.path = f(X, Y, l1, l2, **kw)
            else:
                h.arrays['Xs'] = Xs = [np.array(x) for x in P.Xs]
                f = getattr(sparse_group_block, 'stacked_' + s['loss'])
                ds = [a for _, a in P.parts]
                h.arrays['ds'] = ds
                if s['loss'] == 'cox':
                    args = ([d['T'] for d in ds], [d['C'] for d in ds])
                elif s['loss'] in ('huber', 'huber_svm'):
                    args = ([d['Y'] for d in ds], .7 if s['loss'] == 'huber' else .4)
                else:
                    args = ([d['Y'] for d in ds],)
                h.path = f(Xs, *(args + (l1, l2)), **kw)
            h.loss = h.path.saturated_loss
        elif k == 'mixed':
            d = zoo.response(s, s['loss'])
            h.arrays.update(d)
            h.arrays['structure'] = st = np.array(P.structure, float)
            sc, ce = [(True, True), (False, False), (False, True)][s['ns']]
            h.path = getattr(mixed_lasso.mixed_lasso_path, s['loss'])(
                X, d['Y'], penalty_structure=st, intercept=bool(s['icept']), scale=sc, center=ce,
                nstep=7, lagrange_proportion=.1)
            h.loss = None
    return h


def initial(h, how, last=None, lam=1.):
    """The (solution, gradient) pair a fit starts from."""
    p = h.path
    if how == 'prev' and last is not None:
        sol = np.array(last, float).T.copy()
        if sol.shape != p.solution.shape:
            sol = p.solution.copy()
        lin = p.X.dot(sol)
        return sol, p.full_gradient(p.saturated_loss, lin) + p.enet_grad(sol, p._penalized_vars, lam)
    if how == 'zero':
        sol = np.zeros_like(p.solution)
        lin = p.X.dot(sol)
        return sol, p.full_gradient(p.saturated_loss, lin) + p.enet_grad(sol, p._penalized_vars, lam)
    if how == 'copy':
        return p.solution.copy(), p.grad_solution.copy()
    return p.solution, p.grad_solution


def fit(h, fitter, grid, options, init=None):
    """Run a path; (solutions as a list in the shape of the path, warned points, raw)."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if h.spec['k'] == 'mixed':
            h.path.lagrange_sequence = grid
            raw = h.path.main(inner_tol=options.get('inner_tol', 1e-5), verbose=options.get('verbose', False))
            B = np.asarray(raw['beta'].todense()).T
            sc = np.asarray(raw['scalings'])
            sols = [b * np.where(sc == 0, 1, sc) for b in B]
        else:
            f = {'strong': strong_rules, 'warm': warm_start, 'basil': basil}[fitter]
            raw = f(h.path, grid, init, **options)
            B = raw if fitter == 'basil' else raw['beta']
            sols = [np.asarray(b).T for b in B]
    stuck = [str(w.message) for w in rec if 'convergence' in str(w.message)]
    return sols, stuck, raw


def null_multiplier(h):
    p = h.path
    if h.spec['k'] == 'mixed':
        return float(p.lagrange_max)
    return float(default_lagrange_sequence(p.penalty, p.grad_solution, nstep=3, alpha=p.alpha)[0])


def subsample(h, rows):
    """The path on some cases, and the account of what it has to solve."""
    g = Holder()
    g.spec, g.arrays = h.spec, {}
    g.P = PathSpec(h.spec, rows=[int(v) for v in rows])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g.path = h.path.subsample(np.array(rows))
    g.loss = g.path.saturated_loss
    return g
