"""Everything the simulated programs can be built from, as JSON specs.

A spec always rebuilds the same object: data come from a private RandomState,
never from numpy's global one.  build_* return (object, arrays) where arrays
are the caller-owned inputs handed to the library (watched for mutation)."""
import numpy as np
import scipy.sparse as sp

import regreg.api as rr
from regreg.identity_quadratic import identity_quadratic as iq


def rs(seed):
    return np.random.RandomState(int(seed) % (2 ** 32))


# ------------------------------------------------------------------ quadratics

def quadratic(spec, shape):
    """spec: None | [coef, center?, linear?, const, seed]"""
    if spec is None:
        return None
    coef, has_c, has_l, const, seed = spec
    r = rs(seed)
    c = np.round(r.standard_normal(shape), 3) if has_c else 0
    l = np.round(r.standard_normal(shape) * 0.5, 3) if has_l else 0
    return iq(coef, c, l, const)


def gen_quadratic(rng, p_none=0.5, strong=False):
    if not strong and rng.random() < p_none:
        return None
    return [rng.choice([0.5, 1.0, 2.0]) if (strong or rng.random() < .7) else 0.0,
            int(rng.random() < .5), int(rng.random() < .6), rng.choice([0, 0.5]),
            rng.randrange(10 ** 6)]


# ---------------------------------------------------------------------- losses

GLMS = ('gaussian', 'logistic', 'poisson', 'probit', 'cloglog', 'huber', 'huber_svm', 'cox')
STACKS = ('stacked_gaussian', 'stacked_logistic', 'stacked_poisson', 'stacked_huber')
VECTOR_LOSSES = tuple('glm.' + g for g in GLMS) + (
    'glm.stacked', 'quadratic_loss', 'quadratic_diag', 'squared_error',
    'signal_approximator', 'huberized_svm', 'affine_smooth', 'smooth_sum',
    'smoothed_atom', 'cholesky_loss')
SATURATED = tuple('sat.' + g for g in GLMS) + ('sat.stacked',)
MATRIX_LOSSES = ('mglm.multinomial', 'mglm.stacked', 'sat.multinomial',
                 'sat.multinomial_baseline', 'sat.stacked_common')


def gen_loss(rng, name, p=None, n=None):
    p = p or rng.choice([3, 4, 5])
    return {'k': name, 'p': p, 'n': n or rng.choice([12, 16, 21]), 'q': 3,
            'seed': rng.randrange(10 ** 6),
            'coef': rng.choice([1., 1., 0.5, 2.]),
            'w': rng.choice([0, 0, 0, 1, 1, 9]),          # case weights
            'quad': gen_quadratic(rng, .6),
            'off': int(rng.random() < .3),        # offset in parameter space
            'soff': int(rng.random() < .3),       # offset in saturated space
            'int': int(rng.random() < .25),       # integer-typed response
            'Xkind': rng.choice(['dense', 'dense', 'dense', 'sparse', 'transform', 'fortran']),
            'ocoef': rng.choice([1., 1., 1., 1., 3.]),    # scale of the glm, besides that of its saturated loss
            'iw': int(rng.random() < .15) * 4}            # weights of the saturated loss of a glm


def design(spec):
    r = rs(spec['seed'] + 5003 * spec.get('xv', 0))
    X = np.round(r.standard_normal((spec['n'], spec['p'])), 4)
    return X


def response(spec, which, r=None):
    r = r or rs(spec['seed'] + 17 + 1009 * spec.get('yv', 0))
    n = spec['n']
    X = design(spec)
    lin = X.dot(np.linspace(0.7, -0.4, spec['p']))
    if which in ('gaussian', 'huber'):
        return {'Y': np.round(lin + r.standard_normal(n), 4)}
    if which in ('logistic', 'probit', 'cloglog', 'huber_svm'):
        y = (r.uniform(size=n) < 1. / (1 + np.exp(-lin))).astype(float)
        y[:2] = [0, 1]
        if spec.get('int') and which in ('logistic', 'probit'):
            y = y.astype(int)
        return {'Y': y}
    if which == 'poisson':
        y = r.poisson(np.exp(np.clip(lin, -2, 1.2))).astype(float)
        y[:2] = [0, 2]
        return {'Y': y}
    if which == 'cox':
        t = np.round(r.exponential(size=n), 3)
        t[1] = t[0]                                     # a tie
        c = (r.uniform(size=n) < .7).astype(float)
        c[:3] = 1
        return {'T': t, 'C': c}
    raise KeyError(which)


def rows_of(spec, v):
    """The cases in spec['rows'] only."""
    return v if spec.get('rows') is None else v[np.array(spec['rows'])]


def weights_for(spec, n=None):
    w = np.round(0.25 + rs(spec['seed'] + 29 + 1013 * (spec['w'] - 1)).uniform(size=n or spec['n']) * 2, 3)
    if spec['w'] == 9:
        w = np.ceil(w).astype(int)       # whole numbers, of integer type
    return w


def loss_offset(spec, shape, which='off'):
    k, scale = {'off': (31, .3), 'soff': (37, .2)}[which]
    return np.round(rs(spec['seed'] + k + 1019 * (spec[which] - 1)).standard_normal(shape) * scale, 3)


def atom_offset(spec, shape):
    return np.round(rs(spec['seed'] + 101 + 1021 * (spec['off'] - 1)).standard_normal(shape) * .3, 3)


def _X(spec, X):
    k = spec.get('Xkind', 'dense')
    if k == 'sparse':
        return sp.csc_matrix(X)
    if k == 'fortran':
        return np.asfortranarray(X)
    if k == 'transform':
        return rr.linear_transform(X) if hasattr(rr, 'linear_transform') else X
    return X


def glm_kwargs(spec, p):
    kw = {'coef': spec.get('coef', 1.)}
    arrays = {}
    if spec.get('w'):
        kw['case_weights'] = arrays['case_weights'] = rows_of(spec, weights_for(spec))
    if spec.get('off'):
        kw['offset'] = arrays['offset'] = loss_offset(spec, p)
    if spec.get('soff'):
        kw['saturated_offset'] = arrays['saturated_offset'] = rows_of(spec, loss_offset(spec, spec['n'], 'soff'))
    q = quadratic(spec.get('quad'), (p,))
    if q is not None:
        kw['quadratic'] = q
    return kw, arrays


def build_glm(spec, which=None):
    which = which or spec['k'].split('.')[1]
    X0 = rows_of(spec, design(spec))
    X = _X(spec, X0)
    kw, arrays = glm_kwargs(spec, spec['p'])
    arrays['X'] = X if not isinstance(X, rr.linear_transform) else X0
    if which == 'stacked':
        return build_stacked(spec, X)
    d = {k: rows_of(spec, v) for k, v in response(spec, which).items()}
    arrays.update(d)
    f = getattr(rr.glm, which)
    if which == 'huber':
        return f(X, d['Y'], 0.7, **kw), arrays
    if which == 'huber_svm':
        return f(X, d['Y'], 0.4, **kw), arrays
    if which == 'cox':
        return f(X, d['T'], d['C'], **kw), arrays
    if which in ('logistic', 'probit', 'cloglog') and spec.get('seed', 0) % 3 == 0:
        t = 1 + rs(spec['seed'] + 41).randint(0, 3, size=spec['n']).astype(d['Y'].dtype)
        t = rows_of(spec, t)
        arrays['trials'] = t
        kw['trials'] = t
    return f(X, d['Y'], **kw), arrays


def sat_loss(spec, which):
    n = spec['n']
    kw = {'coef': spec.get('coef', 1.)}
    arrays = {}
    if spec.get('w'):
        kw['case_weights'] = arrays['case_weights'] = rows_of(spec, weights_for(spec))
    if spec.get('soff'):
        kw['offset'] = arrays['offset'] = rows_of(spec, loss_offset(spec, n, 'soff'))
    q = quadratic(spec.get('quad'), (n,))
    if q is not None:
        kw['quadratic'] = q
    from regreg.smooth import glm as G
    if which == 'stacked':
        half = n // 2
        inner = dict(spec, w=0, soff=0, quad=None, coef=[1., .5, 2.][spec['seed'] % 3])
        a, aa = sat_loss(dict(inner, n=half), 'gaussian')
        b, bb = sat_loss(dict(inner, n=n - half, seed=spec['seed'] + 1), 'gaussian')
        if spec['seed'] % 2:
            b, bb = sat_loss(dict(inner, n=n - half, int=0, seed=spec['seed'] + 1), 'poisson')
        arrays.update(('a_' + k, v) for k, v in aa.items())
        arrays.update(('b_' + k, v) for k, v in bb.items())
        return G.stacked_loglike([a, b], **kw), arrays
    d = {k: rows_of(spec, v) for k, v in response(spec, which).items()}
    arrays.update(d)
    n = len(d['T' if which == 'cox' else 'Y'])
    if which == 'cox':
        return G.cox_loglike((n,), d['T'], d['C'], **kw), arrays
    cls = {'gaussian': G.gaussian_loglike, 'poisson': G.poisson_loglike,
           'logistic': G.logistic_loglike, 'probit': G.probit_loglike,
           'cloglog': G.cloglog_loglike, 'huber': G.huber_loss, 'huber_svm': G.huber_svm}[which]
    args = {'huber': (0.7,), 'huber_svm': (0.4,)}.get(which, ())
    return cls((n,), d['Y'], *args, **kw), arrays


def build_stacked(spec, X):
    kw, arrays = glm_kwargs(dict(spec, soff=0), spec['p'])
    loss, a2 = sat_loss(dict(spec, w=0, soff=0, quad=None), 'stacked')
    kw.pop('coef')
    arrays.update(a2)
    return rr.glm(X, loss.data, loss, **kw), arrays


def multi_response(spec):
    r = rs(spec['seed'] + 19 + 1009 * spec.get('yv', 0))
    n, q = spec['n'], spec['q']
    lab = r.randint(0, q, size=n)
    lab[:q] = np.arange(q)
    Y = np.zeros((n, q))
    Y[np.arange(n), lab] = 1
    return Y


def build_loss(spec):
    out, arrays = _build_loss(spec)
    if spec['k'].startswith(('glm.', 'mglm.')):
        if spec.get('iw') and spec['k'] not in ('glm.stacked', 'mglm.stacked', 'mglm.multinomial'):
            # weights of the saturated loss, besides those of the glm
            out.saturated_loss.case_weights = rows_of(spec, weights_for(dict(spec, w=spec['iw'])))
        if spec.get('ocoef', 1.) != 1.:
            out.coef = spec['ocoef']
    return out, arrays


def _build_loss(spec):
    k = spec['k']
    n, p = spec['n'], spec['p']
    if k.startswith('glm.'):
        return build_glm(spec)
    if k in SATURATED:
        return sat_loss(spec, k.split('.')[1])
    if k in MATRIX_LOSSES:
        return build_matrix_loss(spec)
    kw = {}
    arrays = {}
    if spec.get('off') and k in ('quadratic_loss', 'quadratic_diag'):
        kw['offset'] = arrays['offset'] = loss_offset(spec, p)
    q = quadratic(spec.get('quad'), (p,))
    if q is not None:
        kw['quadratic'] = q
    X = design(spec)
    Q = X.T.dot(X) / n + np.identity(p) * .1
    if k == 'quadratic_loss':
        arrays['Q'] = Q
        return rr.quadratic_loss((p,), Q=Q, coef=spec['coef'], **kw), arrays
    if k == 'cholesky_loss':
        ch = rr.cholesky(Q)
        arrays['Q'] = Q
        return rr.quadratic_loss((p,), Q=ch, coef=spec['coef'], **kw), arrays
    if k == 'quadratic_diag':
        D = np.diag(Q).copy()
        arrays['D'] = D
        return rr.quadratic_loss((p,), Q=D, Qdiag=True, coef=spec['coef'], **kw), arrays
    if k == 'squared_error':
        d = response(spec, 'gaussian')
        arrays.update(d, X=X)
        out = rr.squared_error(X, d['Y'], coef=spec['coef'])
        if q is not None:
            out.quadratic = q
        return out, arrays
    if k == 'signal_approximator':
        s = np.round(rs(spec['seed'] + 3).standard_normal(p), 3)
        arrays['signal'] = s
        out = rr.signal_approximator(s, coef=spec['coef'])
        if q is not None:
            out.quadratic = q
        return out, arrays
    if k == 'huberized_svm':
        from regreg.smooth.losses import huberized_svm
        d = response(spec, 'huber_svm')
        arrays.update(d, X=X)
        return huberized_svm(X, d['Y'], 0.5, coef=spec['coef'], **kw), arrays
    if k == 'affine_smooth':
        inner, a = sat_loss(dict(spec, quad=None), ['gaussian', 'logistic', 'poisson'][spec['seed'] % 3])
        b = np.round(rs(spec['seed'] + 43).standard_normal(n) * .1, 3)
        arrays.update(a, X=X, b=b)
        tr = rr.affine_transform(X, b if spec['seed'] % 2 else None)
        return rr.affine_smooth(inner, tr), arrays
    if k == 'smooth_sum':
        a, aa = build_glm(dict(spec, off=0, quad=None, Xkind='dense'), 'gaussian')
        b, bb = build_glm(dict(spec, off=0, quad=None, Xkind='dense', int=0), 'logistic')
        arrays.update(('a_' + x, v) for x, v in aa.items())
        arrays.update(('b_' + x, v) for x, v in bb.items())
        out = rr.smooth_sum([a, b], weights=[1., 0.5])
        if q is not None:
            out.quadratic = q
        return out, arrays
    if k == 'smoothed_atom':
        pen = rr.l1norm.linear(X, lagrange=0.7)
        arrays['X'] = X
        out = pen.smoothed(iq(0.3, 0, 0, 0))
        if q is not None:
            out.quadratic = q
        return out, arrays
    raise KeyError(k)


def build_matrix_loss(spec):
    from regreg.smooth import mglm as M
    k = spec['k']
    n, p, q = spec['n'], spec['p'], spec['q']
    X = rows_of(spec, design(spec))
    Y = rows_of(spec, multi_response(spec))
    kw = {}
    arrays = {'Y': Y}
    if spec.get('w') and k.startswith('mglm.'):
        kw['case_weights'] = arrays['case_weights'] = rows_of(spec, weights_for(spec))
    if k == 'mglm.multinomial':
        arrays['X'] = X
        if spec.get('off'):
            kw['offset'] = arrays['offset'] = loss_offset(spec, (p, q))
        qd = quadratic(spec.get('quad'), (p, q))
        if qd is not None:
            kw['quadratic'] = qd
        return rr.mglm.multinomial(X, Y, coef=spec['coef'], **kw), arrays
    if k in ('mglm.stacked', 'sat.stacked_common'):
        losses = []
        for j in range(q):
            l, a = sat_loss(dict(spec, w=0, soff=0, quad=None, int=0, coef=[1., .5, 2.][(spec['seed'] + j) % 3], seed=spec['seed'] + j),
                            ['gaussian', 'logistic', 'gaussian'][j % 3] if spec['seed'] % 2 else 'gaussian')
            losses.append(l)
            arrays.update(('%d_%s' % (j, x), v) for x, v in a.items())
        arrays.pop('Y')
        if k == 'mglm.stacked':
            arrays['X'] = X
            st = M.stacked_common_loglike(losses, coef=spec['coef'])
            qd = quadratic(spec.get('quad'), (p, q))
            if qd is not None:
                kw['quadratic'] = qd
            return rr.mglm(X, st, **kw), arrays
        if spec.get('w'):
            kw['case_weights'] = arrays['case_weights'] = rows_of(spec, weights_for(spec))
        return M.stacked_common_loglike(losses, coef=spec['coef'], **kw), arrays
    if k == 'sat.multinomial':
        return M.multinomial_loglike((len(Y), q), Y, coef=spec['coef'], **kw), arrays
    if k == 'sat.multinomial_baseline':
        return M.multinomial_baseline_loglike((len(Y), q - 1), Y, coef=spec['coef'], **kw), arrays
    raise KeyError(k)


def point(obj, seed, scale=.4):
    return np.round(rs(seed).standard_normal(obj.shape) * scale, 4)


# ----------------------------------------------------------------------- atoms

SEMINORMS = ('l1norm', 'l2norm', 'supnorm', 'positive_part', 'constrained_max',
             'constrained_positive_part', 'max_positive_part')
WEIGHTED = ('weighted_l1norm', 'weighted_supnorm', 'slope', 'group_lasso',
            'group_lasso_dual', 'sparse_group_lasso', 'sparse_group_lasso_dual')
BLOCKS = ('l1_l2', 'linf_l2', 'l1_l1', 'linf_linf', 'sparse_group_block',
          'sparse_group_block_dual', 'nuclear_norm', 'operator_norm')
CONES = ('nonnegative', 'nonpositive', 'zero', 'zero_constraint', 'l1_epigraph',
         'l1_epigraph_polar', 'l2_epigraph', 'l2_epigraph_polar', 'linf_epigraph',
         'linf_epigraph_polar', 'projection', 'projection_complement',
         'group_lasso_epigraph', 'group_lasso_epigraph_polar',
         'group_lasso_dual_epigraph', 'group_lasso_dual_epigraph_polar',
         'nuclear_norm_epigraph', 'nuclear_norm_epigraph_polar',
         'operator_norm_epigraph', 'operator_norm_epigraph_polar',
         'simplex_constraint', 'maximum')
MIXED = ('mixed_lasso', 'mixed_lasso_dual')
LAGRANGE_ATOMS = SEMINORMS + WEIGHTED + BLOCKS
ALL_ATOMS = LAGRANGE_ATOMS + CONES + MIXED
# penalties with everything solvers need in Lagrange form on a vector
VECTOR_PENALTIES = ('l1norm', 'l2norm', 'supnorm', 'positive_part', 'constrained_positive_part',
                    'weighted_l1norm', 'weighted_supnorm', 'slope', 'group_lasso', 'group_lasso_dual',
                    'sparse_group_lasso')


def gen_atom(rng, name, p=None, form=None):
    p = p or rng.choice([4, 5, 6])
    s = {'k': name, 'p': p, 'seed': rng.randrange(10 ** 6),
         'form': form or rng.choice(['lagrange', 'lagrange', 'bound']),
         'val': rng.choice([0.3, 0.5, 1.0]),
         'off': int(rng.random() < .3), 'quad': gen_quadratic(rng, .6)}
    if name in ('sparse_group_lasso_dual', 'sparse_group_block_dual'):
        s['form'] = form or 'bound'
    if name in ('slope', 'sparse_group_block', 'sparse_group_lasso'):
        s['form'] = form or 'lagrange'
    return s


def group_weights(spec):
    wd = {0: 1.3} if spec['seed'] % 2 else {}
    wd.update((int(g), w) for g, w in spec.get('gw', {}).items())
    if spec.get('gw'):
        # set_weight works on the full dictionary, which lists every group in order
        sizes = np.bincount(groups_of(spec['p']))
        wd = dict((g, wd.get(g, np.sqrt(n))) for g, n in enumerate(sizes))
    return wd


def groups_of(p):
    g = np.arange(p) // 2
    return g


def mixed_structure(p):
    from regreg.atoms.mixed_lasso import (L1_PENALTY, UNPENALIZED, POSITIVE_PART, NONNEGATIVE)
    s = [UNPENALIZED, L1_PENALTY, 0, 0, POSITIVE_PART, NONNEGATIVE, 1, 1, L1_PENALTY]
    return s[:max(4, min(p, 9))] if p <= 9 else s


def build_atom(spec):
    k, p, seed = spec['k'], spec['p'], spec['seed']
    r = rs(seed)
    arrays = {}
    lb = {spec['form']: spec['val']}
    shape = (p,)
    if k in BLOCKS or 'nuclear' in k or 'operator' in k:
        shape = (p, 3)
    if k in ('mixed_lasso', 'mixed_lasso_dual'):
        shape = (len(mixed_structure(p)),)
    if k in ('nuclear_norm_epigraph', 'nuclear_norm_epigraph_polar', 'operator_norm_epigraph',
             'operator_norm_epigraph_polar'):
        shape = (p * 3 + 1,)
    elif 'epigraph' in k:
        shape = (p + 1,)
    kw = {}
    if spec.get('off'):
        kw['offset'] = arrays['offset'] = atom_offset(spec, shape)
    q = quadratic(spec.get('quad'), shape)
    if q is not None:
        kw['quadratic'] = q
    if k in SEMINORMS:
        return getattr(rr, k)(shape, **dict(kw, **lb)), arrays
    if k in ('weighted_l1norm', 'weighted_supnorm'):
        w = np.round(0.5 + r.uniform(size=p), 3)
        if seed % 4 == 0 and k == 'weighted_l1norm':
            w[0] = 0
            if spec['form'] != 'lagrange':
                w[0] = .25       # weights of 0 are for the Lagrange form
        arrays['weights'] = w
        return getattr(rr, k)(w, **dict(kw, **lb)), arrays
    if k == 'slope':
        w = np.round(np.linspace(1.5, .5, p), 3)
        arrays['weights'] = w
        return rr.slope(w, **dict(kw, **lb)), arrays
    if k in ('group_lasso', 'group_lasso_dual'):
        g = groups_of(p)
        arrays['groups'] = g
        wd = group_weights(spec)
        arrays['weights'] = wd
        return getattr(rr, k)(g, weights=wd, **dict(kw, **lb)), arrays
    if k in ('sparse_group_lasso', 'sparse_group_lasso_dual'):
        g = groups_of(p)
        w = np.round(0.3 + r.uniform(size=p) * .5, 3)
        wd = group_weights(spec)
        arrays.update(groups=g, lasso_weights=w, weights=wd)
        return getattr(rr, k)(g, w, weights=wd, **dict(kw, **lb)), arrays
    if k in ('sparse_group_block', 'sparse_group_block_dual'):
        return getattr(rr, k)(shape, 0.6, 0.8, **dict(kw, **lb)), arrays
    if k in BLOCKS:
        return getattr(rr, k)(shape, **dict(kw, **lb)), arrays
    if k in ('projection', 'projection_complement'):
        B = np.linalg.svd(r.standard_normal((2, p)), full_matrices=False)[2]
        arrays['basis'] = B
        return getattr(rr, k)(shape, B, **kw), arrays
    if k in ('simplex_constraint', 'maximum'):
        from regreg.atoms import simplex
        return getattr(simplex, k)(shape, **kw), arrays
    if k.startswith('group_lasso'):
        g = groups_of(p)
        arrays['groups'] = g
        return getattr(rr, k)(g, **kw), arrays
    if k.startswith('nuclear') or k.startswith('operator'):
        return getattr(rr, k)((p, 3), **kw), arrays
    if k in CONES:
        return getattr(rr, k)(shape, **kw), arrays
    if k in MIXED:
        st = np.array(mixed_structure(p))
        wd = {0: 1.4} if seed % 2 else {}
        arrays.update(structure=st, weights=wd)
        return getattr(rr, k)(st, spec['val'], weights=wd, **kw), arrays
    raise KeyError(k)


# ------------------------------------------------------------------ transforms

TRANSFORMS = ('linear', 'affine', 'affine_only', 'sparse', 'selector', 'scaler', 'identity',
              'normalize', 'normalize_intercept', 'adjoint', 'composition', 'affine_sum', 'scalar_multiply',
              'vstack', 'hstack', 'product', 'residual', 'posneg', 'add_intercept',
              'trend_filter', 'trend_filter_inverse', 'difference', 'multiscale', 'image2d', 'block_columns',
              'block_rows', 'factored', 'tensorize', 'reshape', 'centering', 'cholesky')


def gen_transform(rng, name, p=None):
    return {'k': name, 'p': p or rng.choice([4, 5, 6]), 'm': rng.choice([5, 7]),
            'seed': rng.randrange(10 ** 6)}


def build_transform(spec):
    import regreg.affine as A
    from regreg.affine import fused_lasso, multiscale, image2d, block_maps
    k, p, m = spec['k'], spec['p'], spec['m']
    r = rs(spec['seed'])
    X = np.round(r.standard_normal((m, p)), 4)
    b = np.round(r.standard_normal(m), 3)
    arrays = {'X': X, 'b': b}
    if k == 'linear':
        return A.linear_transform(X), arrays
    if k == 'affine':
        return A.affine_transform(X, b), arrays
    if k == 'affine_only':
        return A.affine_transform(None, b), arrays
    if k == 'sparse':
        S = sp.csr_matrix(X * (np.abs(X) > .5))
        arrays['X'] = S
        return A.linear_transform(S), arrays
    if k == 'selector':
        idx = np.arange(0, p, 2)
        arrays['idx'] = idx
        if spec['seed'] % 2:
            w = np.round(r.standard_normal((3, idx.shape[0])), 3)
            arrays['X'] = w
            return A.selector(idx, (p,), A.affine_transform(w, None)), arrays
        return A.selector(idx, (p,)), arrays
    if k == 'scaler':
        d = np.round(r.standard_normal(p), 3)
        arrays['d'] = d
        return A.scaler(d), arrays
    if k == 'identity':
        return A.identity((p,)), arrays
    if k == 'normalize':
        kw = [dict(), dict(scale=False), dict(center=False), dict(value=2.)][spec['seed'] % 4]
        return A.normalize(X, **kw), arrays
    if k == 'normalize_intercept':
        Xi = np.column_stack([np.ones(m), X])
        arrays['X'] = Xi
        return A.normalize(X, intercept=True), arrays
    if k == 'adjoint':
        return A.adjoint(A.linear_transform(X)), arrays
    if k == 'composition':
        Z = np.round(r.standard_normal((3, m)), 3)
        arrays['Z'] = Z
        return A.composition(A.affine_transform(Z, b[:3]), A.affine_transform(X, b)), arrays
    if k == 'affine_sum':
        Z = np.round(r.standard_normal((m, p)), 3)
        arrays['Z'] = Z
        return A.affine_sum([A.linear_transform(X), A.linear_transform(Z)], weights=[1., -.5]), arrays
    if k == 'scalar_multiply':
        return A.scalar_multiply(A.linear_transform(X), -1.5), arrays
    if k == 'vstack':
        return A.vstack([A.linear_transform(X), A.identity((p,))]), arrays
    if k == 'hstack':
        Z = np.round(r.standard_normal((m, 3)), 3)
        arrays['Z'] = Z
        return A.hstack([A.linear_transform(X), A.linear_transform(Z)]), arrays
    if k == 'product':
        Z = np.round(r.standard_normal((4, 3)), 3)
        arrays['Z'] = Z
        return A.product([A.linear_transform(X), A.linear_transform(Z)]), arrays
    if k == 'residual':
        S = np.round(r.standard_normal((p, p)), 3)
        arrays['X'] = S
        return A.residual(A.linear_transform(S)), arrays
    if k == 'posneg':
        return A.posneg(X), arrays
    if k == 'add_intercept':
        return A.add_intercept(X), arrays
    if k == 'trend_filter':
        return fused_lasso.trend_filter.grid(p + 4), arrays
    if k == 'trend_filter_inverse':
        return fused_lasso.trend_filter_inverse.grid(p + 4), arrays
    if k == 'difference':
        return fused_lasso.difference_transform(np.arange(p + 4.), order=2, transform=True), arrays
    if k == 'multiscale':
        return multiscale.multiscale(p + 6, minsize=2), arrays
    if k == 'image2d':
        return image2d.image2d_differences((p, 4)) if hasattr(image2d, 'image2d_differences') else None, arrays
    if k == 'block_columns':
        Z = np.round(r.standard_normal((m, p)), 3)
        arrays['Z'] = Z
        return block_maps.block_columns([X, Z]), arrays
    if k == 'block_rows':
        Z = np.round(r.standard_normal((m, p)), 3)
        arrays['Z'] = Z
        return block_maps.block_rows([X, Z]), arrays
    if k == 'factored':
        return rr.factored_matrix(A.linear_transform(X)), arrays
    if k == 'tensorize':
        return A.tensorize(A.affine_transform(X, b), 2), arrays
    if k == 'reshape':
        return A.reshape((p, 2), (2 * p,)), arrays
    if k == 'centering':
        return A.centering((m,)) if hasattr(A, 'centering') else None, arrays
    if k == 'cholesky':
        Q = X.T.dot(X) + np.identity(p)
        arrays['Q'] = Q
        return rr.cholesky(Q), arrays
    raise KeyError(k)
