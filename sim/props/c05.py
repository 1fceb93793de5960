"""C05: a result handed out never changes afterwards."""
import numpy as np
import scipy.sparse as sp

from .. import comps
from ..core import gap
from ..seams import CTL, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 3000, 'thorough': 50000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds one or two components (every class in turn) and puts 8-22 requests to them - evaluations, '
            'proxes, maps, conjugates, solves, some interrupted - keeping every array the library returns. After each '
            'request all kept arrays are compared bit for bit with the value they had when returned. At random moments the '
            'caller overwrites a kept array, after which answers must still be those of a fresh object. Distinct: component '
            'classes, request and overwrite sequence; non-trivial: at least three kept arrays.',
    'real': 'all of regreg, including the Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions',
    'assumptions': ['arrays that share memory with what the caller passed in (an identity map returning its argument) '
                    'are not overwritten by the simulated caller'],
}

SOLVES = ('solve', 'solve', 'solve_q', 'part_solve')


def gen(rng, idx, tier):
    fam, name = comps.pick(idx)
    specs = [comps.gen(rng, fam, name)]
    if rng.random() < .3:
        f2, n2 = comps.pick(rng.randrange(10 ** 6))
        specs.append(comps.gen(rng, f2, n2))
    ops = []
    seeds = [rng.randrange(1, 10 ** 6) for _ in range(4)]
    pool = [rng.choice(comps.queries(specs[0])) for _ in range(3)]   # the same few requests again and again
    for _ in range(rng.randint(8, 22)):
        c = 0 if rng.random() < .75 else len(specs) - 1
        qs = comps.queries(specs[c])
        if c == 0 and rng.random() < .6:
            q = rng.choice(pool)
        elif specs[c]['fam'] == 'problem' and rng.random() < .3:
            q = rng.choice(SOLVES)
        else:
            q = rng.choice(qs)
        op = {'c': c, 'q': q, 'seed': rng.choice(seeds), 'kind': rng.choice(['plain', 'plain', 'plain', 'half', 'zero', 'view'])}
        if rng.random() < .12:
            op['fault'] = {'u': round(rng.random(), 3), 'act': rng.choice(['error', 'interrupt'])}
        if rng.random() < .2:
            op['scribble'] = rng.randrange(100)
        ops.append(op)
    return {'specs': specs, 'ops': ops}


def _base(a):
    return a.data if sp.issparse(a) else a


def run(plan, env):
    specs = plan['specs']
    S = [comps.build(s) for s in specs]
    for s in specs:
        env.mark('%s.%s' % (s['fam'], s['k']))
    own = [v for c in S for v in c.arrays.values() if isinstance(v, np.ndarray)]
    own += [v.data for c in S for v in c.arrays.values() if sp.issparse(v)]
    kept = []          # [array, snapshot, made by, is the caller's own memory]
    given = []
    scribbled = False
    for i, op in enumerate(plan['ops']):
        spec, comp = specs[op['c']], S[op['c']]
        who = '%s.%s:%s' % (spec['fam'], spec['k'], op['q'])
        a = comps.Args(op['seed'], 0, op['kind'])
        f = op.get('fault')
        if f:
            with armed(env, [], 1000000):
                comps.ask(comps.build(spec), op['q'], comps.Args(op['seed'], 0, op['kind']))
                total = CTL.total
            if not total:
                continue
            with armed(env, [{'cat': 'any', 'k': 1 + int(f['u'] * total), 'act': f['act']}], 1000000):
                r = comps.ask(comp, op['q'], a, catch=BaseException)
        else:
            r = comps.ask(comp, op['q'], a)
        env.log(who, type(r.exc).__name__ if r.exc is not None else None)
        given += [x for _, x, _ in a.given if isinstance(x, np.ndarray)]
        # what was handed out before must be as it was
        for arr, was, by, mine in kept:
            env.probes['kept arrays compared'] += 1
            if not np.array_equal(_base(arr), was, equal_nan=True):
                env.fail('result-changed', 'the array returned by %s was changed by the later request %s (%s)' % (
                    by, who, gap(_base(arr), was)), '%s|%s' % (by, op['q']))
                return
        if scribbled and not f and op['q'] not in SOLVES:
            want = comps.ask(comps.build(spec), op['q'], comps.Args(op['seed'], 0, op['kind']))
            env.probe('answers after overwriting')
            if not comps.agree(r, want, comps.rtol_of(spec)):
                env.fail('result-aliases-state', 'after the caller overwrote arrays returned by %s, %s gives %s, a fresh '
                         'object %s' % (scribbled, who, comps.tell(r), comps.tell(want)), who)
                return
        for x in r.raw:
            b = _base(x)
            mine = any(np.shares_memory(b, y) for y in own + given if b.size and y.size)
            kept.append([x, np.array(b), who, mine])
        if 'scribble' in op and kept:
            k = kept[op['scribble'] % len(kept)]
            b = _base(k[0])
            if not k[3] and isinstance(b, np.ndarray) and b.flags.writeable and b.dtype.kind == 'f':
                b[...] = 7.5
                for z in kept:       # other results may be the same memory by right (solve returns the coefficients)
                    z[1] = np.array(_base(z[0]))
                scribbled = k[2]
                env.fault('caller overwrites a result')
                env.mark('scribble')
    env.nontrivial = len(kept) >= 3
