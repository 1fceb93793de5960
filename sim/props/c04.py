"""C04: evaluations have no memory and leave the caller's objects alone."""
from .. import comps
from ..core import same, gap
from ..seams import CTL, armed
from ..progs import snap_arrays, diff_arrays

META = {
    'level': 'exploration',
    'runs': {'quick': 12000, 'thorough': 60000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds one component (walking through every loss, atom, affine atom, transform, quadratic and '
            'problem class with random options) and puts a seeded history of 6-16 requests to it: random points (new, '
            'repeated, nearly repeated, rewritten in place by the caller, strided, zero), requests interrupted by an '
            'injected exception at a random inner evaluation. Every answer is compared with the one a freshly built twin '
            'gives to that request alone; arguments and construction arrays are compared bit for bit. Distinct: '
            'different component class, sequence of requests, faults and outcomes; non-trivial: at least two requests '
            'answered.',
    'real': 'all of regreg, including the Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions',
    'assumptions': ['answers are compared to relative 1e-8, failures by exception class'],
}


def gen(rng, idx, tier):
    fam, name = comps.pick(idx)
    spec = comps.gen(rng, fam, name)
    qs = comps.queries(spec)
    seeds = [rng.randrange(1, 10 ** 6) for _ in range(3)]
    reuse = rng.random() < .5
    ops = []
    for _ in range(rng.randint(6, 16)):
        op = {'q': rng.choice(qs), 'seed': rng.choice(seeds), 'eps': rng.choice([0, 0, 0, 1, 2]),
              'kind': 'plain' if reuse else rng.choice(['plain', 'plain', 'half', 'zero', 'view', 'int', 'big', 'huge', 'fortran'])}
        if rng.random() < .2:
            op['fault'] = {'u': round(rng.random(), 3), 'act': rng.choice(['error', 'interrupt', 'memory']),
                           'when': rng.choice(['before', 'before', 'after'])}
        ops.append(op)
    return {'spec': spec, 'reuse': int(reuse), 'ops': ops}


def run(plan, env):
    spec = plan['spec']
    who = '%s.%s' % (spec['fam'], spec['k'])
    env.mark(who)
    S = comps.build(spec)
    held = snap_arrays(S.arrays)
    bufs = {} if plan['reuse'] else None
    answered = 0
    for op in plan['ops']:
        q = op['q']
        fresh = comps.build(spec)
        f = op.get('fault')
        if f:
            with armed(env, [], 1000000):
                comps.ask(fresh, q, comps.Args(op['seed'], op['eps'], op['kind']))
                total = CTL.total
            if total:
                a = comps.Args(op['seed'], op['eps'], op['kind'], bufs)
                k = 1 + int(f['u'] * total)
                with armed(env, [{'cat': 'any', 'k': k, 'act': f['act'], 'when': f['when']}], 1000000):
                    r = comps.ask(S, q, a, catch=BaseException)
                    fired = bool(CTL.fired)
                env.log('faulted ' + q, type(r.exc).__name__, fired)
                if not untouched(env, who, q, a, S, held):
                    return
                continue
        want = comps.ask(fresh, q, comps.Args(op['seed'], op['eps'], op['kind']))
        a = comps.Args(op['seed'], op['eps'], op['kind'], bufs)
        got = comps.ask(S, q, a)
        env.log(q, type(want.exc).__name__ if want.exc is not None else want.value)
        env.probe('requests')
        if want.exc is not None:
            env.probe('refused')
        else:
            answered += 1
        if not comps.agree(got, want, comps.rtol_of(spec)):
            env.fail('history-dependent', '%s asked %s after %s: %s, a fresh object: %s (%s)' % (
                who, q, [o['q'] for o in plan['ops'][:plan['ops'].index(op)]], comps.tell(got), comps.tell(want),
                gap(got.value, want.value)), '%s:%s' % (who, q))
            return
        if not untouched(env, who, q, a, S, held):
            return
        if q == 'both' and want.exc is None:
            v = comps.ask(comps.build(spec), 'func', comps.Args(op['seed'], op['eps'], op['kind']))
            g = comps.ask(comps.build(spec), 'grad', comps.Args(op['seed'], op['eps'], op['kind']))
            env.probe('value/gradient pairs')
            if v.exc is not None or g.exc is not None or not same([v.value, g.value], want.value, comps.rtol_of(spec), 1e-10):
                env.fail('modes-disagree', '%s: together %s, apart %s and %s' % (who, comps.tell(want), comps.tell(v), comps.tell(g)),
                         who)
                return
    env.nontrivial = answered >= 2


def untouched(env, who, q, a, S, held):
    bad = a.changed()
    if bad:
        env.fail('argument-changed', '%s.%s changed the caller\'s %s' % (who, q, ', '.join(bad)), '%s:%s' % (who, q))
        return False
    bad = diff_arrays(held, S.arrays)
    if bad:
        env.fail('caller-array-changed', '%s.%s changed the array(s) %s the object was built from' % (who, q, bad),
                 '%s:%s' % (who, q))
        return False
    return True
