"""Components and the requests a program can make of them.

A component is a JSON spec {'fam', ...}; build(spec) always makes the same
object.  ask(comp, name, args) performs one request and returns
(value, arrays returned); the arguments of the request come from `Args`, which
remembers what it handed over so that a change to it is seen."""
from copy import copy

import numpy as np
import scipy.sparse as sp

import regreg.api as rr
import regreg.affine as A
from regreg.identity_quadratic import identity_quadratic as iq

from . import zoo
from .core import same


# ------------------------------------------------------------------ arguments

class Args(object):
    """seed, eps: which values; kind: how they are laid out; bufs: if given, a
    dict of arrays that are reused (rewritten in place by their owner, the
    caller) from one request to the next."""

    def __init__(self, seed, eps=0, kind='plain', bufs=None):
        self.seed, self.eps, self.kind, self.bufs = seed, eps, kind, bufs
        self.given = []

    def values(self, shape, tag, scale):
        h = sum(ord(c) * (i + 1) for i, c in enumerate(tag))
        v = np.round(zoo.rs(self.seed * 1009 + h).standard_normal(shape) * scale, 4)
        if self.kind == 'zero':
            v = v * 0
        if self.kind == 'half':
            v.flat[::2] = 0
        if self.kind == 'int':
            v = np.round(3 * v)
        if self.kind == 'huge':
            v = v * 150
        if self.kind == 'big':
            v = v * 5
        if self.eps:
            v = v + 1e-6 * self.eps * (1 + np.arange(v.size).reshape(v.shape) % 3)
        return v

    def arr(self, shape, tag='x', scale=.6):
        v = self.values(shape, tag, scale)
        if self.bufs is not None:
            key = (tag, v.shape)
            if key in self.bufs:
                self.bufs[key][...] = v
            else:
                self.bufs[key] = self._lay(v)
            a = self.bufs[key]
        else:
            a = self._lay(v)
        self.given.append((tag, a, a.copy()))
        return a

    def _lay(self, v):
        if self.kind == 'view':
            big = np.zeros(tuple(2 * s for s in v.shape))
            a = big[tuple(slice(None, None, 2) for _ in v.shape)]
            a[...] = v
            return a
        if self.kind == 'fortran':
            return np.asfortranarray(v)
        return v

    def keep(self, tag, a):
        self.given.append((tag, a, copy(a) if not hasattr(a, 'copy') else a.copy()))
        return a

    def quad(self, shape, coef=1.3, center=True, linear=True, const=0.2):
        c = self.arr(shape, 'qc') if center else 0
        l = self.arr(shape, 'ql', .3) if linear else 0
        q = iq(coef, c, l, const)
        self.given.append(('q', _QuadState(q), _QuadState(q).freeze()))
        return q

    def changed(self):
        out = []
        for tag, now, was in self.given:
            if isinstance(now, _QuadState):
                if not same(now.freeze(), was, 0, 0):
                    out.append('quadratic argument')
            elif not same(now, was, 0, 0):
                out.append(tag)
        return out


class _QuadState(object):
    def __init__(self, q):
        self.q = q

    def freeze(self):
        q = self.q
        return [copy(v) if not isinstance(v, np.ndarray) else v.copy()
                for v in (q.coef, q.center, q.linear_term, q.constant_term)]


# ----------------------------------------------------------------- components

AFFINE_ATOMS = ('l1norm', 'l2norm', 'supnorm', 'positive_part', 'nonnegative', 'weighted_l1norm', 'group_lasso',
                'constrained_max', 'slope', 'zero_constraint')


class Comp(object):
    def __init__(self, spec, obj, arrays, holder=None):
        self.spec, self.obj, self.arrays, self.holder = spec, obj, arrays, holder
        self.fam = spec['fam']


def gen(rng, fam, name=None):
    if fam == 'loss':
        s = zoo.gen_loss(rng, name or rng.choice(zoo.VECTOR_LOSSES))
    elif fam == 'sat':
        s = zoo.gen_loss(rng, name or rng.choice(zoo.SATURATED))
    elif fam == 'mloss':
        s = zoo.gen_loss(rng, name or rng.choice(zoo.MATRIX_LOSSES))
    elif fam == 'atom':
        s = zoo.gen_atom(rng, name or rng.choice(zoo.ALL_ATOMS))
    elif fam == 'affatom':
        s = zoo.gen_atom(rng, name or rng.choice(AFFINE_ATOMS))
        s['how'] = rng.choice(['linear', 'affine', 'affine', 'selector', 'sparse'])
        s['quad'] = None
        s['off'] = 0
    elif fam == 'transform':
        s = zoo.gen_transform(rng, name or rng.choice(zoo.TRANSFORMS))
    elif fam == 'quad':
        s = {'k': 'identity_quadratic', 'p': rng.choice([3, 4]), 'q': zoo.gen_quadratic(rng, 0), 'seed': rng.randrange(10 ** 6)}
    elif fam == 'problem':
        from . import progs
        s = progs.gen_problem(rng, name or rng.choice(PROBLEMS))
    s['fam'] = fam
    return s


PROBLEMS = ('simple', 'container1', 'container2', 'container_sel', 'separable', 'dual', 'matrix', 'mglm', 'conjugate',
            'smooth_conjugate', 'affine_pen', 'smooth', 'quasi_newton', 'admm')


def all_names():
    """Every (family, name), in a fixed order: runs walk through it."""
    out = []
    for fam, names in (('loss', zoo.VECTOR_LOSSES), ('sat', zoo.SATURATED), ('mloss', zoo.MATRIX_LOSSES),
                       ('atom', zoo.ALL_ATOMS), ('affatom', AFFINE_ATOMS), ('transform', zoo.TRANSFORMS),
                       ('quad', ('identity_quadratic',)), ('problem', PROBLEMS)):
        out.extend((fam, n) for n in names)
    return out


NAMES = all_names()


def pick(idx, fams=None):
    """Stratified choice: losses twice as often as other components."""
    order = [x for x in NAMES if fams is None or x[0] in fams]
    order = order + [x for x in order if x[0] in ('loss', 'sat', 'mloss')]
    # a fixed stride coprime to the length spreads families over small budgets
    n = len(order)
    step = 37
    while n % step == 0:
        step += 2
    return order[(idx * step) % n]


def build(spec):
    fam = spec['fam']
    np.random.seed(4321)
    if fam in ('loss', 'sat', 'mloss'):
        o, a = zoo.build_loss(spec)
    elif fam == 'atom':
        o, a = zoo.build_atom(spec)
    elif fam == 'affatom':
        o, a = build_affatom(spec)
    elif fam == 'transform':
        o, a = zoo.build_transform(spec)
    elif fam == 'quad':
        o = zoo.quadratic(spec['q'], (spec['p'],))
        a = {'center': o.center, 'linear': o.linear_term}
        a = {k: v for k, v in a.items() if isinstance(v, np.ndarray)}
    elif fam == 'problem':
        from . import progs
        P = progs.Problem(spec)
        return Comp(spec, P.obj, P.arrays, P)
    return Comp(spec, o, a)


def build_affatom(spec):
    k, p = spec['k'], spec['p']
    r = zoo.rs(spec['seed'] + 3)
    m = p
    X = np.round(r.standard_normal((m, p)), 3)
    b = np.round(r.standard_normal(m), 3)
    base, arrays = zoo.build_atom(spec)
    how = spec['how']
    arrays = dict(arrays)
    from regreg.atoms import affine_atom
    from regreg.atoms.cones import affine_cone
    from regreg.atoms.cones import cone
    cls = affine_cone if isinstance(base, cone) else affine_atom
    if how == 'linear':
        arrays['X'] = X
        return cls(base, rr.linear_transform(X)), arrays
    if how == 'affine':
        arrays.update(X=X, b=b)
        return cls(base, rr.affine_transform(X, b)), arrays
    if how == 'sparse':
        S = sp.csr_matrix(X * (np.abs(X) > .6))
        arrays['X'] = S
        return cls(base, rr.linear_transform(S)), arrays
    W = np.round(r.standard_normal((p, 2)), 3)
    arrays['W'] = W
    return cls(base, rr.selector(slice(1, 3), (p,), rr.affine_transform(W, None))), arrays


# ------------------------------------------------------------------- requests

COMMON_LOSS = ('func', 'grad', 'both', 'both', 'nonsmooth', 'objective', 'smooth_prox', 'latex', 'repr', 'copy_both')
Q_GLM = COMMON_LOSS + ('glm_hessian', 'glm_gradient', 'glm_linpred', 'glm_objective', 'glm_data', 'subsample_both',
                       'subsample_both', 'mask_both', 'lipschitz', 'sat_mean', 'inner_both')
Q_SAT = COMMON_LOSS + ('sat_both_w', 'sat_both_w', 'sat_hessian', 'sat_hessian_w', 'sat_hessian_mult', 'sat_hessian_mult_w',
                       'sat_mean_own', 'glm_data', 'sat_subsample', 'sat_subsample', 'sat_mask')
Q_PLAIN = COMMON_LOSS + ('conj_both', 'affine_obj')
Q_SEMI = ('nonsmooth', 'nonsmooth_check', 'objective', 'seminorm', 'seminorm_l', 'constraint', 'prox', 'prox', 'prox_nolin',
          'lagrange_prox', 'bound_prox', 'conj_nonsmooth', 'conj_prox', 'dual_prox', 'smoothed_both', 'smooth', 'prox_opt',
          'latex', 'latex_var', 'repr', 'copy_prox', 'copy_nonsmooth', 'terms', 'eq_copy', 'smoothed_prox')
Q_CONE = ('nonsmooth', 'nonsmooth_check', 'objective', 'constraint', 'prox', 'prox', 'prox_nolin', 'cone_prox', 'cone_prox',
          'conj_nonsmooth', 'conj_prox', 'dual_prox', 'smoothed_both', 'smooth', 'prox_opt', 'latex', 'repr', 'copy_prox',
          'copy_nonsmooth', 'eq_copy')
Q_MIXED = ('nonsmooth', 'nonsmooth_check', 'seminorm', 'prox', 'prox', 'prox_nolin', 'conj_prox', 'conj_nonsmooth', 'dual_prox',
           'copy_prox', 'copy_nonsmooth', 'repr', 'objective', 'smoothed_both')
Q_AFF = ('nonsmooth', 'nonsmooth_check', 'dual_prox', 'dual_nonsmooth', 'dual_map', 'smoothed_both', 'latex', 'latex_var',
         'repr', 'atom_prox')
Q_TRANS = ('linear_map', 'linear_map', 'affine_map', 'affine_map', 'adjoint_map', 'adjoint_map', 'linear_map2', 'affine_map2',
           'adjoint_map2', 'compose', 'adjointed', 'astransform', 'power_L', 'todense', 'in_smooth')
Q_QUAD = ('q_obj', 'q_grad', 'q_both', 'q_conj', 'q_add', 'q_collapsed', 'q_getitem', 'q_recenter', 'latex', 'repr', 'q_copy',
          'q_zeroify', 'q_iszero', 'q_eq')
Q_PROB = ('func', 'grad', 'both', 'nonsmooth', 'objective', 'prox', 'prox_opt', 'latex', 'parts_both', 'parts_prox', 'holder_objective')


def queries(spec):
    fam, k = spec['fam'], spec['k']
    if fam == 'loss':
        return Q_GLM if k.startswith('glm.') else Q_PLAIN
    if fam == 'sat':
        return Q_SAT
    if fam == 'mloss':
        return Q_GLM if k.startswith('mglm.') else Q_SAT
    if fam == 'atom':
        return Q_CONE if k in zoo.CONES else (Q_MIXED if k in zoo.MIXED else Q_SEMI)
    return {'affatom': Q_AFF, 'transform': Q_TRANS, 'quad': Q_QUAD, 'problem': Q_PROB}[fam]


def _arrays_in(v, out):
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            out.append(v)
        else:
            for w in v.ravel():
                _arrays_in(w, out)
    elif sp.issparse(v):
        out.append(v)
    elif isinstance(v, (tuple, list)):
        for w in v:
            _arrays_in(w, out)
    elif isinstance(v, dict):
        for w in v.values():
            _arrays_in(w, out)
    elif isinstance(v, iq):
        for w in (v.center, v.linear_term):
            _arrays_in(w, out)
    return out


def freeze(v):
    """A deep value copy of what a request returned."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [freeze(w) for w in v.ravel()]
        return np.array(v)
    if sp.issparse(v):
        return v.toarray()
    if isinstance(v, (tuple, list)):
        return [freeze(w) for w in v]
    if isinstance(v, dict):
        return {str(k): freeze(w) for k, w in v.items()}
    if isinstance(v, iq):
        return freeze([v.coef, v.center, v.linear_term, v.constant_term])
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    return v


def _idx(a, n):
    r = zoo.rs(a.seed + 5)
    k = n // 2 + int(r.randint(0, 3))
    idx = np.sort(r.choice(n, min(k, n), replace=False))
    return a.keep('idx', idx)


def _mask(a, n):
    m = zoo.rs(a.seed + 6).uniform(size=n) < .7
    m[:3] = True
    return a.keep('mask', m)


def _weights(a, n):
    return a.keep('cw', np.round(.2 + zoo.rs(a.seed + 7).uniform(size=n), 3))


def _n_cases(o):
    d = o.get_data() if hasattr(o, 'get_data') else o.data
    if isinstance(d, (list, tuple)):
        d = d[0]
    return np.asarray(d).shape[0]


def _glm_cases(o):
    return o.saturated_loss.shape[0]


def do(comp, name, a):
    """Perform the request; returns whatever the library returns."""
    o = comp.obj
    k = comp.spec['k']
    fam = comp.fam
    if fam in ('loss', 'sat', 'mloss', 'problem') and name not in ('latex', 'repr'):
        shape = arg_shape(o)
    elif fam in ('atom',):
        shape = o.shape
    else:
        shape = None
    # ---- losses
    if name in ('func', 'grad', 'both'):
        return o.smooth_objective(a.arr(shape), name)
    if name == 'nonsmooth':
        return o.nonsmooth_objective(a.arr(shape or o.input_shape))
    if name == 'nonsmooth_check':
        return o.nonsmooth_objective(a.arr(shape or o.input_shape), check_feasibility=True)
    if name == 'objective':
        return o.objective(a.arr(shape))
    if name == 'smooth_prox':
        return o.proximal(a.quad(shape))
    if name == 'latex':
        return o.latexify()
    if name == 'latex_var':
        return o.latexify(var=r'\gamma', idx='3')
    if name == 'repr':
        r = repr(o)
        return r if ' at 0x' not in r else 'address'
    if name == 'copy_both':
        return copy(o).smooth_objective(a.arr(shape), 'both')
    if name == 'glm_hessian':
        return o.hessian(a.arr(shape))
    if name == 'glm_gradient':
        return o.gradient(a.arr(shape))
    if name == 'glm_linpred':
        return o.linear_predictor(a.arr(shape))
    if name == 'glm_objective':
        return o.objective(a.arr(shape))
    if name == 'glm_data':
        return freeze(o.data)
    if name == 'subsample_both':
        return o.subsample(_idx(a, _glm_cases(o))).smooth_objective(a.arr(shape), 'both')
    if name == 'mask_both':
        return o.subsample(_mask(a, _glm_cases(o))).smooth_objective(a.arr(shape), 'both')
    if name == 'lipschitz':
        return None
    if name == 'sat_mean':
        return o.saturated_loss.mean_function(o.linear_predictor(a.arr(shape)))
    if name == 'inner_both':
        return o.saturated_loss.smooth_objective(a.arr(o.saturated_loss.shape), 'both')
    if name == 'sat_both_w':
        return o.smooth_objective(a.arr(shape), 'both', case_weights=_weights(a, o.shape[0]))
    if name == 'sat_hessian':
        return o.hessian(a.arr(shape))
    if name == 'sat_hessian_w':
        return o.hessian(a.arr(shape), case_weights=_weights(a, o.shape[0]))
    if name == 'sat_hessian_mult':
        return o.hessian_mult(a.arr(shape), a.arr(shape, 'right'))
    if name == 'sat_hessian_mult_w':
        return o.hessian_mult(a.arr(shape), a.arr(shape, 'right'), case_weights=_weights(a, o.shape[0]))
    if name == 'sat_mean_own':
        return o.mean_function(a.arr(shape))
    if name == 'sat_subsample':
        s = o.subsample(_idx(a, o.shape[0]))
        return s.smooth_objective(a.arr(s.shape), 'both')
    if name == 'sat_mask':
        s = o.subsample(_mask(a, o.shape[0]))
        return s.smooth_objective(a.arr(s.shape), 'both')
    if name == 'conj_both':
        if k in ('quadratic_loss', 'quadratic_diag', 'signal_approximator', 'squared_error', 'cholesky_loss'):
            return o.conjugate.smooth_objective(a.arr(shape), 'both')
        return None
    if name == 'affine_obj':
        X = a.arr((shape[0], 3), 'X')
        return rr.affine_smooth(o, rr.affine_transform(X, a.arr(shape, 'b'))).smooth_objective(a.arr((3,)), 'both')
    # ---- atoms
    if name == 'seminorm':
        return o.seminorm(a.arr(shape))
    if name == 'seminorm_l':
        return o.seminorm(a.arr(shape), lagrange=0.7)
    if name == 'constraint':
        return o.constraint(a.arr(shape, scale=.1))
    if name == 'prox':
        return o.proximal(a.quad(shape))
    if name == 'prox_nolin':
        return o.proximal(a.quad(shape, 0.8, True, False, 0))
    if name == 'lagrange_prox':
        return o.lagrange_prox(a.arr(shape), lipschitz=1.5, lagrange=0.6)
    if name == 'bound_prox':
        return o.bound_prox(a.arr(shape), bound=0.6)
    if name == 'cone_prox':
        return o.cone_prox(a.arr(shape))
    if name == 'conj_nonsmooth':
        return o.conjugate.nonsmooth_objective(a.arr(shape, scale=.2))
    if name == 'conj_prox':
        return o.conjugate.proximal(a.quad(shape, 1.1))
    if name == 'dual_prox':
        t, d = o.dual
        return d.proximal(a.quad(d.shape, 1.1))
    if name == 'dual_nonsmooth':
        t, d = o.dual
        return d.nonsmooth_objective(a.arr(d.shape, scale=.2))
    if name == 'dual_map':
        t, d = o.dual
        return [t.linear_map(a.arr(t.input_shape)), t.adjoint_map(a.arr(t.output_shape, 'u'))]
    if name == 'smoothed_both':
        sh = shape or o.output_shape
        return o.smoothed(a.quad(sh, 0.4, True, True, 0)).smooth_objective(a.arr(shape or o.input_shape), 'both')
    if name == 'smoothed_prox':
        return o.smoothed(a.quad(shape, 0.4, False, False, 0)).smooth_objective(a.arr(shape), 'grad')
    if name == 'smooth':
        return o.smooth_objective(a.arr(shape), 'both')
    if name == 'prox_opt':
        return o.proximal_optimum(a.quad(shape))
    if name == 'copy_prox':
        return copy(o).proximal(a.quad(shape))
    if name == 'copy_nonsmooth':
        return copy(o).nonsmooth_objective(a.arr(shape))
    if name == 'terms':
        return o.terms(a.arr(shape))
    if name == 'eq_copy':
        return o == copy(o)
    if name == 'atom_prox':
        return o.atom.proximal(a.quad(o.atom.shape))
    # ---- transforms
    if name in ('linear_map', 'affine_map'):
        return getattr(o, name)(a.arr(o.input_shape))
    if name == 'adjoint_map':
        return o.adjoint_map(a.arr(o.output_shape, 'u'))
    if name in ('linear_map2', 'affine_map2'):
        return getattr(o, name[:-1])(a.arr(tuple(o.input_shape) + (2,), 'x2'))
    if name == 'adjoint_map2':
        return o.adjoint_map(a.arr(tuple(o.output_shape) + (2,), 'u2'))
    if name == 'compose':
        Z = a.arr((3,) + tuple(o.output_shape), 'Z')
        return A.composition(A.linear_transform(Z), o).linear_map(a.arr(o.input_shape)) if Z.ndim == 2 else None
    if name == 'adjointed':
        return A.adjoint(o).linear_map(a.arr(o.output_shape, 'u'))
    if name == 'astransform':
        from regreg.affine import astransform
        return astransform(o).affine_map(a.arr(o.input_shape))
    if name == 'power_L':
        from regreg.affine import power_L
        return None
    if name == 'todense':
        from regreg.affine import todense
        return todense(o) if len(o.input_shape) == 1 else None
    if name == 'in_smooth':
        if len(o.output_shape) != 1:
            return None
        l = rr.signal_approximator(a.arr(o.output_shape, 's'))
        return rr.affine_smooth(l, o).smooth_objective(a.arr(o.input_shape), 'both')
    # ---- quadratics
    p = (comp.spec.get('p'),)
    if name == 'q_obj':
        return o.objective(a.arr(p), 'func')
    if name == 'q_grad':
        return o.objective(a.arr(p), 'grad')
    if name == 'q_both':
        return o.objective(a.arr(p), 'both')
    if name == 'q_conj':
        return o.conjugate.objective(a.arr(p), 'both') if not callable(o.conjugate) else o.conjugate().objective(a.arr(p), 'both')
    if name == 'q_add':
        return (o + a.quad(p)).objective(a.arr(p), 'both')
    if name == 'q_collapsed':
        return o.collapsed()
    if name == 'q_getitem':
        return o[slice(0, 2)].objective(a.arr((2,)), 'both')
    if name == 'q_recenter':
        off, q = o.recenter(a.arr(p, 'off'))
        return [off, q]
    if name == 'q_copy':
        return copy(o).objective(a.arr(p), 'both')
    if name == 'q_zeroify':
        return o.zeroify()
    if name == 'q_iszero':
        return bool(o.iszero) if not callable(o.iszero) else bool(o.iszero())
    if name == 'q_eq':
        return bool(o == copy(o))
    # ---- problems
    P = comp.holder
    if name == 'parts_both':
        part = P.parts[a.seed % len(P.parts)]
        return part.smooth_objective(a.arr(arg_shape(part)), 'both')
    if name == 'parts_prox':
        part = P.parts[a.seed % len(P.parts)]
        return part.proximal(a.quad(arg_shape(part)))
    if name == 'holder_objective':
        return P.objective(a.arr(P.shape()))
    if name == 'solve':
        return P.solve(**_short(P))
    if name == 'solve_q':
        return P.solve(a.quad(P.shape(), 0.8, True, True, 0), **_short(P)) if P.takes_q else P.solve(**_short(P))
    if name == 'part_solve':
        part = P.parts[a.seed % len(P.parts)]
        return part.solve(quadratic=a.quad(arg_shape(part), 1.1, True, True, 0))
    raise KeyError(name)


def _short(P):
    if P.kind in ('quasi_newton', 'admm'):
        return {'rounds': 1, 'niter': 5}
    return {} if P.kind in ('conjugate', 'smooth_conjugate') else {'max_its': 40, 'tol': 1e-6}


def arg_shape(o):
    for nm in ('shape', 'input_shape'):
        s = getattr(o, nm, None)
        if s is not None:
            return s
    return np.shape(o.coefs)


class Ans(object):
    __slots__ = ('exc', 'value', 'raw', 'args')


def ask(comp, name, args, catch=Exception):
    """One request, its outcome as a value."""
    r = Ans()
    r.args = args
    r.exc, r.value, r.raw = None, None, []
    np.random.seed(1234)
    try:
        v = do(comp, name, args)
        r.raw = _arrays_in(v, [])
        r.value = freeze(v)
    except catch as e:
        r.exc = e
    return r


def rtol_of(spec):
    """Conjugates of losses are themselves the result of an iteration."""
    return 1e-4 if spec['k'] in ('conjugate', 'container1', 'container2') else 1e-8


def agree(a, b, rtol=1e-8):
    """Do two outcomes agree?  Failures agree when they are of the same kind."""
    if (a.exc is None) != (b.exc is None):
        return False
    if a.exc is not None:
        return type(a.exc) is type(b.exc)
    return same(a.value, b.value, rtol, 1e-10)


def tell(a):
    from .core import brief
    return 'raises %s: %s' % (type(a.exc).__name__, str(a.exc)[:120]) if a.exc is not None else brief(a.value)
