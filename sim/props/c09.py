"""C09: copies and subsamples are equivalent to the original and independent of it."""
from copy import copy

import numpy as np

from .. import comps, reconf, zoo
from ..core import same, gap
from ..seams import CTL, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 7000, 'thorough': 60000},
    'max_bad': 400,
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run grows a family of 2-6 objects from one component by copying and subsampling (of copies, of subsamples), '
            'and in between asks, solves, interrupts by an injected exception, and reconfigures random members, also in '
            'place. Each answer is compared with that of an object built alone: the original spec and the reconfigurations '
            'and subsamples on the path from the root to that member, nothing else. Subsamples are also compared with the '
            'loss built on the selected rows and with their complement (the two add up). Distinct: component, family tree, '
            'sequence of operations; non-trivial: at least two members answered a request after another was operated on.',
    'real': 'all of regreg, including the Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions',
    'assumptions': ['the arrays of data themselves are not written to', 'LaTeX forms of copies are not compared',
                    'answers are compared to relative 1e-8, failures by exception class'],
}

FAMS = ('loss', 'sat', 'mloss', 'atom')
NOT_ASKED = ('latex', 'latex_var', 'repr')


def gen(rng, idx, tier):
    fam, name = comps.pick(idx, FAMS)
    spec = comps.gen(rng, fam, name)
    qs = [q for q in comps.queries(spec) if q not in NOT_ASKED]
    rk = [k for k in reconf.kinds(spec) if k != 'refuse']
    seeds = [rng.randrange(1, 10 ** 6) for _ in range(3)]
    can_sub = name.startswith(('glm.', 'sat.', 'mglm.'))
    ops = []
    n = 1
    for _ in range(rng.randint(5, 14)):
        r = rng.random()
        who = rng.randrange(n)
        if n < 2 or (r < .25 and n < 6):
            if can_sub and rng.random() < .6:
                ops.append({'o': 'sub', 'who': who, 'how': rng.choice(['index', 'index', 'mask', 'unsorted', 'list', 'tail']),
                            'seed': rng.randrange(10 ** 6)})
            else:
                ops.append({'o': 'copy', 'who': who})
            n += 1
        elif r < .45 and rk:
            ops.append({'o': 'set', 'who': who, 'r': reconf.gen(rng, dict(spec)) if rk else None})
            if ops[-1]['r']['r'] == 'refuse':
                ops.pop()
        elif r < .52:
            ops.append({'o': 'inplace', 'who': who, 'r': {'r': rng.choice(['quad', 'off', 'off', 'satoff', 'aw', 'satw', 'satquad'])}})
        elif r < .60:
            ops.append({'o': 'solve', 'who': who})
        elif r < .70:
            ops.append({'o': 'fault', 'who': who, 'q': rng.choice(qs), 'seed': rng.choice(seeds),
                        'u': round(rng.random(), 3), 'act': rng.choice(['error', 'interrupt'])})
        else:
            ops.append({'o': 'ask', 'who': who, 'q': rng.choice(qs), 'seed': rng.choice(seeds)})
    for who in range(n):
        ops.append({'o': 'ask', 'who': who, 'q': rng.choice(qs), 'seed': rng.choice(seeds)})
    return {'spec': spec, 'ops': ops}


def cases(obj):
    return (obj.saturated_loss if hasattr(obj, 'saturated_loss') else obj).shape[0]


def selection(op, n):
    r = zoo.rs(op['seed'])
    k = int(r.randint(max(4, n // 2), n))
    idx = r.choice(n, k, replace=False)
    if op['how'] == 'mask':
        m = np.zeros(n, bool)
        m[idx] = True
        return m
    if op['how'] == 'tail':
        return slice(n - k, n)
    if op['how'] == 'index':
        return np.sort(idx)
    return [int(i) for i in idx] if op['how'] == 'list' else idx


class Member(object):
    def __init__(self, comp, chain):
        self.comp, self.chain = comp, chain


def alone(spec, chain):
    """The object of a member, built with nothing else going on."""
    c = comps.build(spec)
    for kind, x in chain:
        step(c, kind, x)
    return c


def step(c, kind, x):
    if kind == 'set':
        reconf.apply(c, x, comps.build)
    elif kind == 'sub':
        c.obj = c.obj.subsample(selection(x, cases(c.obj)))
    elif kind == 'inplace':
        inplace(c.obj, x['r'])
    else:
        raise KeyError(kind)


def inplace(o, what):
    """Change an array or quadratic of the object in place."""
    if what.startswith('sat'):
        o = getattr(o, 'saturated_loss', o)
        what = what[3:]
    if what == 'off':
        if isinstance(o.offset, np.ndarray) and o.offset.dtype.kind == 'f':
            o.offset += np.linspace(.1, .4, o.offset.size).reshape(o.offset.shape)     # (shift invariant losses)
    elif what == 'aw':
        w = getattr(o, 'weights', None)
        if isinstance(w, np.ndarray) and hasattr(o, 'atoms'):    # a sum of losses
            w *= 1.5
            o.atoms[0].coef = 2.5
        elif isinstance(w, dict):
            o.set_weight(sorted(w)[0], 1.7)
    elif what in ('w', 'quad'):
        q = o.quadratic
        if q is None:
            return
        q.coef = (q.coef or 0) + 0.5
        if isinstance(q.linear_term, np.ndarray):
            q.linear_term += 0.25
        cw = getattr(o, 'case_weights', None)
        if isinstance(cw, np.ndarray) and cw.dtype.kind == 'f':
            cw[:] = cw * 2


def run(plan, env):
    spec = plan['spec']
    root = comps.build(spec)
    who = '%s.%s' % (spec['fam'], spec['k'])
    env.mark(who)
    fam = [Member(root, [])]
    asked, last = set(), None
    for op in plan['ops']:
        m = fam[op['who'] % len(fam)]
        me = '%s#%d' % (who, op['who'] % len(fam))
        k = op['o']
        if k in ('copy', 'sub'):
            try:
                if k == 'copy':
                    o = copy(m.comp.obj)
                    chain = list(m.chain)
                else:
                    o = m.comp.obj.subsample(selection(op, cases(m.comp.obj)))
                    chain = m.chain + [('sub', op)]
            except Exception as e:
                try:
                    A = alone(spec, m.chain)
                    copy(A.obj) if k == 'copy' else A.obj.subsample(selection(op, cases(A.obj)))
                except Exception as e2:
                    if type(e2) is not type(e):
                        env.fail('differs-from-alone', '%s %s raises %r, alone %r' % (me, k, e, e2), '%s:%s' % (who, k))
                    env.mark('unsupported')
                    env.log(k + ' unsupported', type(e).__name__)
                    fam.append(m)
                    continue
                env.fail('differs-from-alone', '%s: %s raises %s: %s, alone it does not' % (me, k, type(e).__name__, e),
                         '%s:%s' % (who, k))
                return
            c = comps.Comp(m.comp.spec, o, m.comp.arrays, m.comp.holder)
            fam.append(Member(c, chain))
            env.log(k, op['who'])
            env.probe('copies' if k == 'copy' else 'subsamples')
            if k == 'sub' and not m.chain:
                rows(env, who, spec, op, c)
            continue
        if k in ('set', 'inplace'):
            x = op.get('r')
            try:
                step(m.comp, k, x)
            except Exception as e:
                env.mark('refused %s' % type(e).__name__)
                try:
                    step(alone(spec, m.chain), k, x)
                except Exception:
                    return
                env.fail('differs-from-alone', '%s: %s %s raises %s: %s, alone it does not' % (me, k, x, type(e).__name__, e),
                         '%s:%s' % (who, k))
                return
            m.chain.append((k, x))
            env.log(k + ' ' + (x['r'] if x else ''), op['who'])
            env.probe('reconfigurations')
            continue
        if k == 'solve':
            try:
                if spec['fam'] == 'atom':
                    m.comp.obj.solve(quadratic=zoo.iq(1.2, np.full(m.comp.obj.shape, .3), 0, 0))
                else:
                    m.comp.obj.solve(quadratic=zoo.iq(.8, 0, 0, 0), max_its=6)
                env.log('solve', 'ok')
            except Exception as e:
                env.log('solve', type(e).__name__)
            continue
        A = alone(spec, m.chain)
        mk = lambda: comps.Args(op['seed'], 0, 'plain')
        if k == 'fault':
            with armed(env, [], 1000000):
                comps.ask(A, op['q'], mk())
                total = CTL.total
            if total:
                with armed(env, [{'cat': 'any', 'k': 1 + int(op['u'] * total), 'act': op['act'], 'when': 'before'}], 1000000):
                    r = comps.ask(m.comp, op['q'], mk(), catch=BaseException)
                env.log('faulted ' + op['q'], type(r.exc).__name__)
            continue
        want = comps.ask(A, op['q'], mk())
        got = comps.ask(m.comp, op['q'], mk())
        env.log('ask ' + op['q'], type(want.exc).__name__ if want.exc is not None else want.value)
        env.probe('requests compared')
        if want.exc is None:
            asked.add(op['who'] % len(fam))
        if not comps.agree(got, want, comps.rtol_of(spec)):
            env.fail('differs-from-alone', '%s (%s) asked %s: %s; built alone: %s (%s)' % (
                me, [c if c != 'set' else x['r'] for c, x in m.chain], op['q'], comps.tell(got), comps.tell(want),
                gap(got.value, want.value)), '%s:%s' % (who, op['q']))
            return
    env.nontrivial = len(asked) >= 2


def rows(env, who, spec, op, sub):
    """A first-generation subsample against the loss on those rows, and with its
    complement against the whole."""
    if spec['k'] in ('smooth_sum', 'affine_smooth'):
        return
    whole = comps.build(spec)
    n = cases(whole.obj)
    sel = selection(op, n)
    keep = np.zeros(n, bool)
    keep[sel] = True
    x = np.round(zoo.rs(op['seed'] + 1).standard_normal(comps.arg_shape(whole.obj)) * .4, 4)
    try:
        f, g = sub.obj.smooth_objective(x, 'both')
    except Exception as e:
        env.log('subsample evaluation', type(e).__name__)
        return
    env.probe('subsamples against their rows')
    if not spec['k'].endswith('cox'):
        F, G = whole.obj.smooth_objective(x, 'both')
        rest = whole.obj.subsample(np.nonzero(~keep)[0])
        f2, g2 = rest.smooth_objective(x, 'both')
        if not (same(f + f2, F, 1e-7, 1e-9) and same(g + g2, G, 1e-7, 1e-9)):
            env.fail('subsamples-do-not-add-up', '%s: subsample %s + rest %s, whole %s (gradient %s)' % (
                who, f, f2, F, gap(g + g2, G)), who)
    if spec['k'].split('.')[-1] in ('stacked', 'stacked_common'):
        return
    part = comps.build(dict(spec, rows=[int(i) for i in np.nonzero(keep)[0]]))
    if spec['fam'] == 'sat' or spec['k'].startswith('sat.'):
        fr, gr = part.obj.smooth_objective(x[keep], 'both')
        full = np.zeros_like(g)
        full[keep] = gr
        gr = full
    else:
        fr, gr = part.obj.smooth_objective(x, 'both')
    if not (same(f, fr, 1e-7, 1e-9) and same(g, gr, 1e-7, 1e-9)):
        env.fail('subsample-is-not-its-rows', '%s: value %s, on those rows alone %s (gradient %s)' % (who, f, fr, gap(g, gr)), who)
