"""Cross-validation of a path under the simulator, and its state before and after."""
import warnings

import numpy as np
import scipy.sparse as sp

from regreg.paths.cross_validate import cross_validate
from regreg.paths import strong_rules, warm_start
from regreg.affine import power_L

from . import paths
from .comps import freeze
from .sched import Sim, SimParallel

KINDS = ('lasso', 'group_lasso', 'sparse_group_lasso', 'common', 'lasso', 'group_lasso', 'block', 'lasso')
SCORES = ('mse', 'mse', 'mae', 'sum')


def score_of(name):
    if name == 'mae':
        return lambda x, y: float(np.mean(np.abs(x - y)))
    if name == 'sum':
        return lambda x, y: float(np.sum(x * y) + 3 * x.shape[0])
    return None


def gen(rng, idx):
    spec = paths.gen(rng, KINDS[idx % len(KINDS)])
    while spec['loss'] in ('cox', 'cloglog', 'multinomial'):
        # the response of a Cox model is not one number a case
        spec = paths.gen(rng, KINDS[idx % len(KINDS)])
    spec['n'] = rng.choice([16, 20, 24])
    if spec['k'] == 'block':
        spec['n'] = rng.choice([9, 12])
    # separable folds have no unpenalised solution
    spec['unpen'] = min(spec['unpen'], 1) if spec['loss'] in ('gaussian', 'huber') else 0
    # a step size of our own leaves nothing of a fit to the global generator
    lo = .2 if spec['loss'] in ('logistic', 'probit', 'huber_svm') else .05
    grid = [max(v, lo) for v in paths.gen_grid(rng)[:4]]
    cv = {'cv': rng.choice([2, 2, 3, 3, 4]), 'n_jobs': rng.choice([-1, -1, 2, 3]), 'workers': rng.choice([2, 2, 3, 4]),
          'score': rng.choice(SCORES), 'fitter': rng.choice(['strong', 'strong', 'strong', 'warm', 'default']),
          'lagrange': grid, 'init': rng.choice([None, None, 'path', 'copy', 'zero']),
          'inner_tol': rng.choice([1e-5, 1e-7, 1e-9]), 'verbose': False, 'check_active': rng.random() < .2,
          'max_tries': rng.choice([20, 20, 10]), 'min_its': rng.choice([None, 3]), 'seed': rng.randrange(10 ** 6)}
    return {'spec': spec, 'cv': cv,
            'schedule': {'policy': 'gap', 'seed': rng.randrange(10 ** 9), 'mean': rng.choice([5, 20, 60, 200, 600]),
                         'unit': 'line', 'max_steps': 6000000}}


class Call(object):
    """One cross-validation: what it gave, and every fold's coefficients."""

    def __init__(self, h, cv, lam0, hook=None):
        self.h, self.cv, self.hook = h, cv, hook
        self.folds = {}
        self.value = self.exc = None
        self.scored = 0
        self.grid = np.array(cv['lagrange']) * lam0
        self.asked = self.grid.copy()
        self.init = None if cv['init'] is None else paths.initial(h, cv['init'], None, self.grid[0])

    def fit(self, path, grid, init, **kw):
        if self.hook:
            self.hook('fit')
        cv = self.cv
        if cv['fitter'] == 'warm':
            args = {} if cv['min_its'] is None else {'min_its': cv['min_its']}
            r = warm_start(path, grid, init, initial_step=1., solve_args=args, **kw)
        elif cv['fitter'] == 'strong':
            r = strong_rules(path, grid, init, initial_step=1., check_active=cv['check_active'],
                             max_tries=cv['max_tries'], **kw)
        else:
            r = strong_rules(path, grid, init, **kw)
        w = path.saturated_loss.case_weights
        key = None if w is None else tuple(np.nonzero(np.asarray(w))[0].tolist())
        self.folds[key] = np.array(r['beta'])
        return r

    def score(self, f):
        def go(x, y):
            if self.hook:
                self.hook('score')
            self.scored += 1
            return f(x, y)
        return go

    def __call__(self, n_jobs=None):
        cv = self.cv
        kw = {}
        f = score_of(cv['score'])
        if f is not None:
            kw['score'] = self.score(f)
        elif self.hook:
            kw['score'] = self.score(lambda x, y: np.linalg.norm(x - y) ** 2 / y.shape[0])
        if self.init is not None:
            kw['initial_data'] = self.init
        np.random.seed(cv['seed'])
        self.value = cross_validate(self.h.path, self.grid, path_fitter=self.fit, cv=cv['cv'],
                                    n_jobs=cv['n_jobs'] if n_jobs is None else n_jobs, verbose=cv['verbose'],
                                    inner_tol=cv['inner_tol'], **kw)
        return self.value


def state(h, call=None):
    """Everything the caller can see of the path and of what was handed in."""
    p = h.path
    out = {'solution': p.solution, 'grad_solution': p.grad_solution, 'alpha': p.alpha,
           'elastic_net_param': p.elastic_net_param, 'coef': p.saturated_loss.coef,
           'case_weights': p.saturated_loss.case_weights, 'data': p.saturated_loss.data}
    for a in ('lagrange', 'weights', 'lasso_weights', 'l1_weight', 'l2_weight'):
        if hasattr(p.penalty, a):
            v = getattr(p.penalty, a)
            out['penalty.' + a] = v
    for a in ('l1_penalty', 'l2_penalty', 'groups'):
        if hasattr(p, a):
            out[a] = getattr(p, a)
    for k, v in h.arrays.items():
        out['argument ' + k] = v
    if call is not None:
        out['grid'] = call.grid
        if call.init is not None:
            out['initial solution'], out['initial gradient'] = call.init
    return dict((k, _pic(v)) for k, v in out.items())


def _pic(v):
    if sp.issparse(v):
        return ('sparse', v.toarray().tobytes())
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes() if v.dtype.kind != 'O' else repr(v))
    if isinstance(v, dict):
        return tuple(sorted((str(k), _pic(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(_pic(x) for x in v)
    return repr(v)


def changed(a, b):
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def simulate(plan, env, main):
    SimParallel.workers[0] = plan['cv']['workers']
    sim = Sim(plan['schedule'], env, env.prefix)
    return sim, quiet(lambda: sim.run(main))
