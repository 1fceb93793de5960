"""Problems and solvers the simulated programs run: spec -> fresh problem with a
unique optimum, an uninterrupted reference answer, and its observable state."""
import warnings

import numpy as np

import regreg.api as rr
from regreg.identity_quadratic import identity_quadratic as iq
from regreg.problems.newton import quasi_newton
from regreg.problems.admm import admm_problem
from regreg.atoms import affine_atom

from . import zoo
from .core import same, gap, brief

warnings.simplefilter('ignore')

KINDS = ('simple', 'container1', 'container2', 'container_sel', 'separable', 'smooth', 'nonsmooth', 'affine_pen',
         'dual', 'conjugate', 'quasi_newton', 'admm', 'matrix', 'mglm', 'nesta', 'tfocs', 'gengrad',
         'smooth_conjugate')

LOSSES = ('glm.gaussian', 'glm.logistic', 'glm.poisson', 'glm.probit', 'glm.cloglog', 'glm.huber',
          'glm.huber_svm', 'glm.cox', 'glm.stacked', 'quadratic_loss', 'quadratic_diag', 'squared_error',
          'signal_approximator', 'huberized_svm', 'affine_smooth', 'smooth_sum', 'cholesky_loss')
QUAD_LOSSES = ('glm.gaussian', 'quadratic_loss', 'quadratic_diag', 'squared_error', 'signal_approximator')


def gen_problem(rng, kind=None, loss=None, pen=None):
    kind = kind or rng.choice(KINDS)
    if kind in ('dual', 'tfocs'):
        loss = 'signal_approximator'
    if kind in ('quasi_newton', 'admm', 'conjugate'):
        loss = loss or rng.choice(('glm.gaussian', 'glm.logistic', 'quadratic_loss', 'glm.huber'))
    loss = loss or rng.choice(LOSSES)
    p = rng.choice([4, 5, 6])
    ls = zoo.gen_loss(rng, loss, p=p)
    ls['quad'] = [rng.choice([0.5, 1., 2.]), 0, int(rng.random() < .5), 0, rng.randrange(10 ** 6)]
    ls['Xkind'] = rng.choice(['dense', 'dense', 'sparse', 'fortran'])
    if kind in ('quasi_newton', 'admm', 'conjugate', 'mglm'):
        ls['Xkind'] = 'dense'
    ls['off'] = 0
    pen = pen or rng.choice(zoo.VECTOR_PENALTIES)
    if kind in ('container1', 'container2', 'container_sel', 'separable', 'nesta', 'admm'):
        pen = rng.choice(('l1norm', 'l2norm', 'supnorm', 'group_lasso', 'weighted_l1norm', 'positive_part'))
    ps = zoo.gen_atom(rng, pen, p=p, form=rng.choice(['lagrange', 'lagrange', 'bound'])
                      if pen not in ('slope', 'sparse_group_lasso') else 'lagrange')
    ps['quad'] = None
    ps['off'] = 0
    ps['seed'] = ps['seed'] | 1       # no zero weights: optimum unique, conjugates defined
    if kind == 'nonsmooth':
        ps['off'] = int(rng.random() < .5)
        ps['quad'] = zoo.gen_quadratic(rng, .3)
    return {'k': kind, 'loss': ls, 'pen': ps, 'seed': rng.randrange(10 ** 6),
            'fit': {'tol': 1e-13, 'min_its': 10, 'max_its': 4000}}


class Problem(object):
    """A uniform face over every solver entry point.

    solve(q=None, **fit) -> coefficients; objective(x); watch() -> named callables
    giving the observable configuration of the problem and its parts."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec['k']
        self.arrays = {}
        self.fit = dict(spec['fit'])
        self.takes_q = True
        getattr(self, '_' + self.kind)(spec)
        self.sol = None

    def _loss(self):
        l, a = zoo.build_loss(self.spec['loss'])
        self.arrays.update(('loss.' + k, v) for k, v in a.items())
        if isinstance(l, rr.affine_smooth) and l.quadratic.iszero:
            l.quadratic = iq(0.7, 0, 0.1, 0)        # saturated losses need not have an optimum
        return l

    def _pen(self, **over):
        at, a = zoo.build_atom(dict(self.spec['pen'], **over))
        self.arrays.update(('pen.' + k, v) for k, v in a.items())
        return at

    def _D(self, p, m=None):
        D = np.round(zoo.rs(self.spec['seed'] + 5).standard_normal((m or p, p)), 3)
        self.arrays['D%d' % len(self.arrays)] = D
        return D

    # -- kinds
    def _simple(self, s):
        self.loss, self.pen = self._loss(), self._pen()
        self.obj = rr.simple_problem(self.loss, self.pen)
        self.parts = [self.obj, self.loss, self.pen]

    def _smooth(self, s):
        self.loss = self._loss()
        self.obj = self.loss
        self.parts = [self.loss]

    def _nonsmooth(self, s):
        self.pen = self.obj = self._pen()
        self.parts = [self.pen]
        self.need_q = iq(1.3, np.linspace(-1, 1, self.pen.shape[0]), 0.1, 0)

    def _affine_pen(self, s):
        """simple problem with the penalty in dual (container) form is elsewhere;
        here the smooth part is an affine composition."""
        inner, a = zoo.sat_loss(dict(s['loss'], quad=None, soff=0), 'gaussian')
        self.arrays.update(('loss.' + k, v) for k, v in a.items())
        X = zoo.design(s['loss'])
        self.arrays['X'] = X
        self.loss = rr.affine_smooth(inner, rr.affine_transform(X, np.linspace(-.2, .2, X.shape[0])))
        self.loss.quadratic = iq(0.7, 0, 0.1, 0)
        self.pen = self._pen()
        self.obj = rr.simple_problem(self.loss, self.pen)
        self.parts = [self.obj, self.loss, self.pen, inner]

    def _container(self, atoms):
        self.loss = self._loss()
        self.pens = atoms
        self.obj = rr.container(self.loss, *atoms)
        self.parts = [self.obj, self.loss] + atoms
        self.fit.update(tol=1e-11, max_its=300)

    def _container1(self, s):
        self._container([self._pen()])

    def _container2(self, s):
        p = s['loss']['p']
        a = rr.l1norm.linear(np.diff(np.identity(p), axis=0), lagrange=0.4)
        b = self._pen()
        s['loss'].update(k='signal_approximator')
        self._container([a, b])

    def _container_sel(self, s):
        p = s['loss']['p']
        a = rr.l1norm.linear(rr.selector(slice(0, 2), (p,)), lagrange=0.5)
        self._container([a])

    def _separable(self, s):
        p = s['loss']['p']
        self.loss = self._loss()
        k = p // 2
        a = self._pen(p=k)
        b = rr.l2norm((p - k - 1,), lagrange=0.4)
        self.obj = rr.separable_problem(self.loss, (p,), [a, b], [slice(0, k), slice(k, p - 1)])
        self.pen = self.obj.proximal_atom
        self.parts = [self.obj, self.loss, a, b]

    def _dual(self, s):
        p = s['loss']['p']
        self.loss = self._loss()
        D = np.diff(np.identity(p), axis=0)
        self.pen = rr.l1norm.linear(D, lagrange=0.5)
        self.obj = rr.dual_problem.fromprimal(self.loss, self.pen)
        self.takes_q = False
        self.parts = [self.loss, self.pen.atom]
        loss, pen = self.loss, self.pen
        self.objective = lambda x: total(loss, x) + pen.nonsmooth_objective(x)

    def _conjugate(self, s):
        self.loss = self._loss()
        self.obj = rr.conjugate(self.loss, iq(0.6, 0, 0.1, 0), tol=1e-13, min_its=10)
        self.takes_q = False
        u = np.linspace(-.6, .6, self.loss.shape[0])
        self.solve = lambda q=None, **fit: self.obj.smooth_objective(u, 'grad')
        self.objective = lambda x: float(self.obj.smooth_objective(u, 'func'))
        self.parts = [self.loss, self.obj.atom]
        self.parts_q = [self.obj.conjugate_quadratic]

    def _smooth_conjugate(self, s):
        self.pen = self._pen()
        self.obj = self.pen.smoothed(iq(0.8, 0, 0, 0))
        self.takes_q = False
        u = np.linspace(-.6, .6, self.pen.shape[0])
        self.solve = lambda q=None, **fit: self.obj.smooth_objective(u, 'grad')
        self.objective = lambda x: float(self.obj.smooth_objective(u, 'func'))
        self.parts = [self.pen, self.obj.atom]

    def _quasi_newton(self, s):
        self.loss, self.pen = self._loss(), self._pen()
        p = self.loss.shape[0]
        self.obj = quasi_newton(self.loss, self.pen, np.identity(p) * 2.)
        self.takes_q = False
        loss, pen = self.loss, self.pen
        self.objective = lambda x: total(loss, x) + pen.nonsmooth_objective(x)

        def solve(q=None, **fit):
            # the entry point takes a fixed number of steps: call it until it settles
            old = np.inf
            for _ in range(fit.get('rounds', 6)):
                x = self.obj.solve(niter=fit.get('niter', 40), maxiter=10, maxfun=20, tol=1e-12, min_its=10, max_its=500)
                new = self.objective(x)
                if not new < old - 1e-7 * max(1., abs(old)):
                    break
                old = new
            return x
        self.solve = solve
        self.parts = [self.loss, self.pen]
        self.tol = 1e-3

    def _admm(self, s):
        self.loss, self.pen = self._loss(), self._pen()
        p = self.loss.shape[0]
        # square, not symmetric
        D = self.D = np.identity(p) + .4 * np.eye(p, k=1) if s['seed'] % 2 else np.identity(p)
        self.arrays['D'] = D
        self.obj = admm_problem(self.loss, self.pen, D, 1., fit_args={'tol': 1e-12, 'min_its': 10, 'max_its': 500})
        self.takes_q = False
        loss, pen = self.loss, self.pen

        def solve(q=None, **fit):
            for _ in range(fit.get('rounds', 6)):
                self.obj.solve(niter=fit.get('niter', 40))
                if np.max(np.abs(self.obj.atom_coefs - D.dot(self.obj.loss_coefs))) < 1e-6:
                    break
            return np.linalg.solve(D, self.obj.atom_coefs)
        self.solve = solve
        self.objective = lambda x: total(loss, x) + pen.nonsmooth_objective(D.dot(x))
        self.parts = [self.loss, self.pen]
        self.tol = 2e-3

    def _matrix(self, s):
        p, q = s['loss']['p'], 3
        Y = np.round(zoo.rs(s['seed']).standard_normal((p, q)), 3)
        self.arrays['Y'] = Y
        self.loss = rr.signal_approximator(Y)
        name = zoo.BLOCKS[s['seed'] % len(zoo.BLOCKS)]
        form = 'bound' if name.endswith('dual') else 'lagrange'
        self.pen, a = zoo.build_atom(dict(s['pen'], k=name, p=p, form=form))
        self.obj = rr.simple_problem(self.loss, self.pen)
        self.parts = [self.obj, self.loss, self.pen]

    def _mglm(self, s):
        k = ('mglm.multinomial', 'mglm.stacked')[s['seed'] % 2]
        ls = dict(s['loss'], k=k)
        self.loss, a = zoo.build_loss(ls)
        self.arrays.update(a)
        name = ('l1norm', 'l1_l2', 'sparse_group_block', 'l1_l1')[s['seed'] // 2 % 4]
        self.pen, a = zoo.build_atom(dict(s['pen'], k=name, p=ls['p'], form='lagrange'))
        if name == 'l1norm':
            self.pen = rr.l1norm(self.loss.shape, lagrange=.3)
        self.obj = rr.simple_problem(self.loss, self.pen)
        self.parts = [self.obj, self.loss, self.pen]

    def _nesta(self, s):
        p = s['loss']['p']
        self.loss = self._loss()
        self.pen = self._pen()
        D = np.diff(np.identity(p), axis=0)
        self.cpen = rr.l1norm.linear(D, lagrange=0.3)
        self.takes_q = False
        self.obj = self
        loss, pen, cpen = self.loss, self.pen, self.cpen
        eps = list(0.5 ** np.arange(14))

        def solve(q=None, **fit):
            return rr.nesta(loss, pen, cpen, epsilon=list(eps), tol=1e-9, coef_tol=1e-12, max_iters=100)[0]
        self.solve = solve
        self.objective = lambda x: total(loss, x) + pen.nonsmooth_objective(x) + cpen.nonsmooth_objective(x)
        self.parts = [self.loss, self.pen, self.cpen.atom]
        self.tol = 2e-3

    def _tfocs(self, s):
        p = s['loss']['p']
        X = self._D(p, p - 2)
        Y = X.dot(np.linspace(-1, 1, p))
        self.arrays['Y'] = Y
        self.pen = rr.l1norm(p, lagrange=1)
        self.takes_q = False
        cons = rr.zero_constraint.affine(X, -Y)
        tr, zero = cons.dual
        pen = self.pen
        self.obj = self

        def solve(q=None, **fit):
            for _ in range(2):
                x = rr.tfocs(pen, tr, zero, epsilon=[0.3] * 40, tol=1e-10, coef_tol=1e-7)[0]
            return x
        self.solve = solve
        self.objective = lambda x: pen.nonsmooth_objective(x) + 3. * np.linalg.norm(X.dot(x) - Y)
        self.parts = [self.pen, zero]
        self.tol = np.inf      # too inexact a method for its answers to be compared

    def _gengrad(self, s):
        """regreg.problems.simple.gengrad is driven through a FISTA-free loop:
        proximal-gradient with a fixed constant on a simple problem."""
        self.loss, self.pen = self._loss(), self._pen()
        self.obj = rr.simple_problem(self.loss, self.pen)
        self.parts = [self.obj, self.loss, self.pen]
        self.fit['FISTA'] = False

    def direct(self, q=None):
        """The optimum by another route (the composite solver on one loss and one
        penalty), or None where there is no such form.  Uses up this object."""
        k = self.kind
        if k == 'smooth':
            S = rr.simple_problem.smooth(self.loss)
        elif k == 'admm':
            S = rr.container(self.loss, affine_atom(self.pen, rr.linear_transform(self.D)))
        elif k == 'nesta':
            S = rr.container(self.loss, self.pen, self.cpen)
        elif k == 'dual':
            S = rr.container(self.loss, self.pen)
        elif k in ('quasi_newton', 'gengrad', 'container1'):
            S = rr.simple_problem(self.loss, self.pen if hasattr(self, 'pen') else self.pens[0])
        elif k == 'container_sel':
            w = np.zeros(self.loss.shape)
            w[:2] = 1.
            S = rr.simple_problem(self.loss, rr.weighted_l1norm(w, lagrange=self.pens[0].atom.lagrange))
        else:
            return None
        S.solve(q, tol=1e-12, min_its=20, max_its=300 if isinstance(S, rr.container) else 4000)
        return S.coefs

    # -- uniform face
    def solve(self, q=None, **fit):
        kw = dict(self.fit)
        kw.update(fit)
        if self.kind == 'nonsmooth':
            q = self.need_q + q if q is not None else self.need_q
        if q is not None and self.takes_q:
            kw['quadratic'] = q
        if self.kind == 'dual':
            kw.pop('quadratic', None)
        return self.obj.solve(**kw)

    def objective(self, x):
        if self.kind == 'nonsmooth':
            return total(self.obj, x) + float(self.need_q.objective(x, 'func'))
        return total(self.obj, x)

    tol = 1e-5

    def wild(self, x):
        """Beyond a linear predictor of 5 the value of the complementary log-log loss
        is clipped and is not what its gradient is the gradient of."""
        l = self.spec['loss']
        if not l['k'].endswith('cloglog') or self.kind == 'nonsmooth':
            return False
        eta = zoo.design(l).dot(np.asarray(x).reshape(-1)[:l['p']]) if np.size(x) >= l['p'] else np.zeros(1)
        off = zoo.loss_offset(l, l['n'], 'soff') if l.get('soff') else 0
        return bool(np.max(np.fabs(eta + off)) > 4.5)

    def shape(self):
        for o in (self.obj,) + tuple(self.parts):
            s = getattr(o, 'coefs', None)
            if s is not None and o is not self:
                return np.shape(s)
        return self.parts[0].shape

    def watch(self, seed=7):
        """Named observations of the configuration of the problem and its parts
        (coefficients, which a solve is entitled to move, are not among them)."""
        out = {}
        for i, o in enumerate(self.parts):
            tag = '%d.%s' % (i, type(o).__name__)
            shape = arg_shape(o)
            x = np.round(zoo.rs(seed).standard_normal(shape) * .3, 4)
            for what, f in (('nonsmooth_objective', lambda: float(o.nonsmooth_objective(x))),
                            ('smooth_objective', lambda: o.smooth_objective(x, 'both')),
                            ('lagrange', lambda: o.lagrange), ('bound', lambda: o.bound),
                            ('offset', lambda: o.offset), ('coef', lambda: o.coef)):
                if what in ('lagrange', 'bound', 'offset', 'coef') and not hasattr(o, what):
                    continue
                try:
                    v = f()
                    if what == 'smooth_objective':
                        v = (float(v[0]), np.array(v[1]))
                    elif isinstance(v, np.ndarray):
                        v = v.copy()
                    out[tag + '.' + what] = v
                except Exception as e:
                    out[tag + '.' + what] = 'raises ' + type(e).__name__
            if hasattr(o, 'quadratic') and o.quadratic is not None:
                out[tag + '.quadratic'] = qsig(o.quadratic, shape)
        for i, qd in enumerate(getattr(self, 'parts_q', [])):
            out['q%d' % i] = qsig(qd, self.parts[0].shape)
        return out


def total(o, x):
    """Smooth and nonsmooth parts (the objective method of a glm leaves out its quadratic)."""
    return float(o.smooth_objective(x, 'func') + o.nonsmooth_objective(x))


def arg_shape(o):
    """The shape of the argument a component takes."""
    for a in ('shape', 'input_shape'):
        s = getattr(o, a, None)
        if s is not None:
            return s
    return np.shape(o.coefs)


def qsig(q, shape):
    """What a quadratic is as a function: its values at three points."""
    r = zoo.rs(3)
    return [float(q.objective(r.standard_normal(shape), 'func')) for _ in range(3)] + [float(q.coef or 0)]


def snap_arrays(arrays):
    return {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in arrays.items()}


def diff_arrays(before, arrays):
    return [k for k in sorted(arrays) if not same(before[k], arrays[k], 0, 0)]


def diff_watch(a, b, rtol=1e-9):
    return ['%s was %s, is %s' % (k, brief(a.get(k)), brief(b.get(k))) for k in sorted(a)
            if not same(a.get(k), b.get(k), rtol, 1e-10)]
