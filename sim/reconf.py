"""Reconfigurations: change an object through its public attributes, and know
the spec of the object a user would build instead."""
import copy
import json

import numpy as np

from . import zoo
from .core import Skip

GROUPED = ('group_lasso', 'group_lasso_dual', 'sparse_group_lasso', 'sparse_group_lasso_dual')
# losses whose quadratic holds a constant computed from data and coef
DEVIANCE = ('logistic', 'poisson', 'probit', 'cloglog', 'multinomial', 'multinomial_baseline')


def kinds(spec):
    fam, k = spec['fam'], spec['k']
    if fam == 'atom':
        out = ['off', 'off', 'quad', 'quad', 'refuse']
        if k in zoo.LAGRANGE_ATOMS or k in zoo.MIXED:
            out += ['val', 'val']
        if k in GROUPED:
            out += ['gw', 'gw']
        if k in zoo.MIXED:
            out = ['quad', 'off', 'val']
        return out
    if fam == 'affatom':
        return ['quad'] + (['val', 'val', 'refuse'] if k in zoo.LAGRANGE_ATOMS else [])
    if fam == 'loss' and k.startswith('glm.'):
        out = ['quad', 'off', 'data', 'data', 'w', 'coef', 'ocoef', 'refuse']
        return out + (['soff'] if k != 'glm.stacked' else []) if k != 'glm.stacked' else [x for x in out if x != 'coef']
    if fam == 'sat':
        return ['quad', 'soff', 'data', 'data', 'w', 'coef', 'refuse']
    if fam == 'mloss':
        return {'mglm.multinomial': ['quad', 'off', 'w', 'data', 'data', 'coef', 'ocoef'],
                'mglm.stacked': ['quad', 'w', 'data', 'data', 'coef', 'ocoef'],
                'sat.stacked_common': ['w', 'data', 'data', 'coef'],
                'sat.multinomial': ['coef', 'data', 'data'],
                'sat.multinomial_baseline': ['coef', 'data', 'data']}[k]
    if fam == 'loss':
        return {'quadratic_loss': ['coef', 'quad', 'off'], 'quadratic_diag': ['coef', 'quad', 'off'],
                'cholesky_loss': ['coef', 'quad'], 'squared_error': ['coef', 'quad'],
                'signal_approximator': ['coef', 'quad'], 'huberized_svm': ['coef', 'quad'],
                'affine_smooth': ['coef'], 'smooth_sum': ['quad'], 'smoothed_atom': ['quad']}[k]
    if fam == 'quad':
        return ['qset']
    return []


def gen(rng, spec):
    r = {'r': rng.choice(kinds(spec))}
    k = r['r']
    if k == 'val':
        r['v'] = rng.choice([0.2, 0.4, 0.7, 1.5])
    elif k in ('off', 'soff'):
        r['v'] = rng.choice([0, 0, 'z', 2, 3])
    elif k == 'w':
        r['v'] = rng.choice([0, 2, 3, 9])
    elif k in ('coef', 'ocoef'):
        r['v'] = rng.choice([1., .5, 3.])
    elif k == 'quad':
        r['v'] = zoo.gen_quadratic(rng, .4)
        r['how'] = rng.choice(['set', 'attr'])
    elif k == 'gw':
        r['g'] = rng.choice([0, 1])
        r['v'] = rng.choice([0.6, 1.9])
    elif k == 'data':
        r['xv'] = rng.randrange(3)
        r['yv'] = rng.randrange(3)
    elif k == 'qset':
        r['v'] = zoo.gen_quadratic(rng, 0)
    elif k == 'refuse':
        r['n'] = rng.randrange(4)
    return r


def after(spec, r):
    """The spec of an object built in the new configuration."""
    s = json.loads(json.dumps(spec))
    k = r['r']
    if k in ('off', 'soff', 'w'):
        s[k] = 0 if r['v'] == 'z' else r['v']
    elif k in ('coef', 'ocoef'):
        s[k] = r['v']
    elif k == 'val':
        s['val'] = r['v']
    elif k == 'quad':
        s['quad'] = r['v']
    elif k == 'qset':
        s['q'] = r['v']
    elif k == 'gw':
        s.setdefault('gw', {})[str(r['g'])] = r['v']
    elif k == 'data':
        s['yv'] = r['yv']
        if s['fam'] == 'loss' or s['k'].startswith('mglm.'):
            s['xv'] = r['xv']
    return s


def _copy(v):
    if isinstance(v, (tuple, list)):
        return type(v)(_copy(x) for x in v)
    return copy.copy(v)


def apply(comp, r, build):
    """Perform r on comp.obj; `build` makes a component from a spec."""
    spec, o, k = comp.spec, comp.obj, r['r']
    fam = spec['fam']
    new = after(spec, r)
    if k == 'refuse':
        return refuse(comp, r)
    if k == 'qset':
        q = build(new).obj
        o.coef, o.center, o.linear_term, o.constant_term = q.coef, q.center, q.linear_term, q.constant_term
    elif k == 'quad':
        t = o.atom if fam == 'affatom' else o
        q = zoo.quadratic(r['v'], t.shape)
        if q is None:
            q = zoo.iq(0, 0, 0, 0)
        if r['how'] == 'set':
            t.set_quadratic(q)
        else:
            t.quadratic = q
    elif fam == 'atom' or fam == 'affatom':
        t = o.atom if fam == 'affatom' else o
        if k == 'val':
            setattr(t, 'lagrange' if spec['k'] == 'mixed_lasso' else 'bound' if spec['k'] == 'mixed_lasso_dual'
                    else spec['form'], r['v'])
        elif k == 'gw':
            t.set_weight(r['g'], r['v'])
        elif k == 'off':
            t.offset = _off(r['v'], lambda: zoo.atom_offset(new, t.shape), t.shape)
    elif k == 'off':
        o.offset = _off(r['v'], lambda: zoo.loss_offset(new, o.shape), o.shape)
    elif k == 'soff':
        t = o.saturated_loss if fam == 'loss' else o
        t.offset = _off(r['v'], lambda: zoo.loss_offset(new, t.shape, 'soff'), t.shape)
    elif k == 'ocoef':
        o.coef = r['v']
    elif k == 'coef':
        (o.saturated_loss if hasattr(o, 'saturated_loss') else o).coef = r['v']
    elif k == 'w':
        F = build(new)
        w = F.obj.case_weights
        o.case_weights = None if w is None else w.copy()
    elif k == 'data':
        F = build(new)
        o.data = _copy(F.obj.data)
        comp.arrays = dict(comp.arrays)
    else:
        raise KeyError(k)
    comp.spec = new
    return True


def _off(v, make, shape):
    return None if v == 0 else np.zeros(shape) if v == 'z' else make()


def refuse(comp, r):
    """Something the object must refuse; returns what happened."""
    spec, o = comp.spec, comp.obj
    fam, k = spec['fam'], spec['k']
    try:
        if fam in ('atom', 'affatom'):
            t = o.atom if fam == 'affatom' else o
            if k not in zoo.LAGRANGE_ATOMS:
                raise Skip('nothing to refuse')
            setattr(t, 'bound' if spec['form'] == 'lagrange' else 'lagrange', 0.9)
        elif r['n'] == 0:
            o.lipschitz = -1.
        elif k in ('glm.logistic', 'glm.probit', 'glm.cloglog'):
            X, Y = zoo.build_loss(dict(spec, xv=7, yv=7))[0].data
            o.data = (X, np.asarray(Y) + 5.) if r['n'] < 3 else ('not a matrix', Y)
        elif k in ('sat.logistic', 'sat.probit', 'sat.cloglog'):
            o.data = np.asarray(zoo.build_loss(dict(spec, yv=7))[0].data) + 5.
        elif k.startswith('glm.'):
            o.data = ('not a matrix', zoo.build_loss(dict(spec, xv=7, yv=7))[0].data[1])
        else:
            raise Skip('nothing to refuse')
    except Skip:
        return None
    except Exception as e:
        return type(e).__name__
    return 'accepted'
