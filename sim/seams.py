"""Seams into the code under test: every component evaluation (an objective, a
prox, an affine map, a Hessian, a subsample...) of every regreg class passes
through a wrapper in which the simulator may inject a fault, count steps, or
observe arguments.  The wrappers are installed on the classes from outside, so
/repo carries no hook for them."""
import functools
import inspect
import sys

import numpy as np

from .core import StepLimit

METHODS = ('smooth_objective', 'nonsmooth_objective', 'proximal', 'linear_map',
           'affine_map', 'adjoint_map', 'hessian', 'hessian_mult', 'lagrange_prox',
           'bound_prox', 'cone_prox', 'seminorm', 'constraint', 'subsample',
           'proximal_step', 'linpred', 'full_gradient')

CATS = {'smooth_objective': 'smooth', 'nonsmooth_objective': 'nonsmooth',
        'proximal': 'prox', 'linear_map': 'affine', 'affine_map': 'affine',
        'adjoint_map': 'affine', 'hessian': 'hessian', 'hessian_mult': 'hessian',
        'lagrange_prox': 'prox', 'bound_prox': 'prox', 'cone_prox': 'prox',
        'seminorm': 'nonsmooth', 'constraint': 'nonsmooth', 'subsample': 'subsample',
        'proximal_step': 'prox', 'linpred': 'linpred', 'full_gradient': 'grad'}


EVALUATIONS = ('nonsmooth_objective', 'proximal', 'proximal_step')


class Injected(RuntimeError):
    """The simulator's own component failure."""


EXC = {'error': Injected, 'interrupt': KeyboardInterrupt, 'memory': MemoryError,
       'float': FloatingPointError, 'value': ValueError}


class Ctl(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.armed = False
        self.faults = []
        self.counts = {}
        self.total = 0
        self.env = None
        self.fired = []
        self.limit = 1 << 60
        self.watch = None         # callable(obj, name, args) before each call

    def arm(self, env, faults, limit=None):
        """faults: list of {'cat':, 'k':, 'act':, 'when':}; k counts calls of
        that category from now on (1-based)."""
        self.env = env
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.total = 0
        self.fired = []
        self.armed = True
        if limit is not None:
            self.limit = limit

    def disarm(self):
        self.armed = False
        self.faults = []
        self.limit = 1 << 60
        n = self.total
        return n

    def hit(self, cat):
        self.total += 1
        if self.total > self.limit:
            self.armed = False
            raise StepLimit('more than %d component evaluations' % self.limit)
        if not self.faults:
            return None
        c = self.counts[cat] = self.counts.get(cat, 0) + 1
        ca = self.counts['any'] = self.counts.get('any', 0) + 1
        for i, f in enumerate(self.faults):
            if (f['cat'] == cat and f['k'] == c) or (f['cat'] == 'any' and f['k'] == ca):
                del self.faults[i]
                return f
            if f['cat'] == cat and f.get('sticky') and c >= f['k']:
                return f
        return None


CTL = Ctl()


def _poison(val, how):
    bad = {'nan': np.nan, 'inf': np.inf, 'ninf': -np.inf, 'huge': 1e300}[how]
    if isinstance(val, tuple):
        return tuple(_poison(v, how) for v in val)
    if isinstance(val, np.ndarray):
        out = np.array(val, float)
        if out.size:
            out.flat[0] = bad
        return out
    if np.isscalar(val):
        return bad
    return val


def _wrap(fn, name):
    cat = CATS[name]

    @functools.wraps(fn)
    def seam(*args, **kw):
        if not CTL.armed:
            return fn(*args, **kw)
        f = CTL.hit(cat)
        if f is None:
            return fn(*args, **kw)
        env, act = CTL.env, f['act']
        if act in EXC:
            if f.get('when') == 'after':
                fn(*args, **kw)
            env.fault('%s:%s' % (act, cat))
            CTL.fired.append(dict(f, at=name))
            raise EXC[act]('injected at call %d of %s' % (f['k'], cat))
        val = fn(*args, **kw)
        if cat in ('prox', 'nonsmooth') and name not in EVALUATIONS and not isinstance(val, np.ndarray):
            return val            # a base class looking up its multiplier, not an evaluation
        env.fault('%s:%s' % (act, cat))
        CTL.fired.append(dict(f, at=name))
        return _poison(val, act)
    seam._seam = True
    return seam


def install():
    n = 0
    for mn, mod in sorted(sys.modules.items()):
        if not (mn == 'regreg' or mn.startswith('regreg.')) or mod is None:
            continue
        for cn, cls in sorted(vars(mod).items()):
            if not inspect.isclass(cls) or not (cls.__module__ or '').startswith('regreg'):
                continue
            for m in METHODS:
                fn = cls.__dict__.get(m)
                if inspect.isfunction(fn) and not getattr(fn, '_seam', False):
                    try:
                        setattr(cls, m, _wrap(fn, m))
                        n += 1
                    except (AttributeError, TypeError):
                        pass
    return n


class armed(object):
    """with armed(env, faults): ...   -> disarms on the way out."""

    def __init__(self, env, faults=(), limit=None):
        self.a = (env, faults, limit)

    def __enter__(self):
        CTL.arm(*self.a)
        return CTL

    def __exit__(self, *e):
        CTL.disarm()
        return False
