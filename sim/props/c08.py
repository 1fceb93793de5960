"""C08: a reconfigured object behaves like one built in the final configuration."""
import json

from .. import comps, reconf
from ..core import same, gap
from ..seams import CTL, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 9000, 'thorough': 60000},
    'max_bad': 400,
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds one component (every loss, saturated loss, matrix loss, atom, affine atom and quadratic class in '
            'turn) and performs 3-9 random reconfigurations through its public attributes (multiplier, bound, offset, '
            'quadratic, scale, case weights, data, group weights) interleaved with random requests, requests interrupted by '
            'an injected exception, and reconfigurations that must be refused. Every request is compared with the answer of '
            'an object freshly built in the configuration of that moment. Distinct: component class, sequence of '
            'reconfigurations, requests and faults; non-trivial: at least one reconfiguration and two requests answered.',
    'real': 'all of regreg, including the Cython extensions',
    'stub': 'none; class-level wrappers raise the injected exceptions',
    'assumptions': ['new data have the shape of the old', 'only objects derived after a reconfiguration are compared',
                    'answers are compared to relative 1e-8, failures by exception class'],
}

FAMS = ('loss', 'sat', 'mloss', 'atom', 'affatom', 'quad')


def gen(rng, idx, tier):
    while True:
        fam, name = comps.pick(idx, FAMS)
        spec = comps.gen(rng, fam, name)
        if reconf.kinds(spec):
            break
        idx += 1
    qs = comps.queries(spec)
    seeds = [rng.randrange(1, 10 ** 6) for _ in range(3)]
    ops = []
    for _ in range(rng.randint(3, 9)):
        ops.append(reconf.gen(rng, spec))
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(ask(rng, qs, seeds))
    for _ in range(3):
        ops.append(ask(rng, qs, seeds))
    return {'spec': spec, 'ops': ops}


def ask(rng, qs, seeds):
    op = {'q': rng.choice(qs), 'seed': rng.choice(seeds), 'kind': rng.choice(['plain', 'plain', 'half', 'zero'])}
    if rng.random() < .12:
        op['fault'] = {'u': round(rng.random(), 3), 'act': rng.choice(['error', 'interrupt']), 'when': 'before'}
    return op


def run(plan, env):
    S = comps.build(plan['spec'])
    who = '%s.%s' % (S.spec['fam'], S.spec['k'])
    env.mark(who)
    changed, answered, done = 0, 0, []
    for op in plan['ops']:
        if 'r' in op:
            before = json.dumps(S.spec, sort_keys=True)
            try:
                out = reconf.apply(S, op, comps.build)
            except Exception as e:
                env.fail('reconfiguration-fails', '%s: setting %s raises %s: %s' % (who, op, type(e).__name__, e),
                         '%s:%s' % (who, op['r']))
                return
            env.log('set ' + op['r'], str(out))
            env.probe('reconfigurations')
            if op['r'] == 'refuse':
                if out == 'accepted':
                    env.mark('accepted')
                    return
                if out is not None:
                    env.probe('refusals')
            if out is not None:
                done.append(op['r'])
                changed += 1
            continue
        q = op['q']
        mk = lambda: comps.Args(op['seed'], 0, op['kind'])
        fresh = comps.build(S.spec)
        f = op.get('fault')
        if f:
            with armed(env, [], 1000000):
                comps.ask(fresh, q, mk())
                total = CTL.total
            if total:
                with armed(env, [{'cat': 'any', 'k': 1 + int(f['u'] * total), 'act': f['act'], 'when': f['when']}], 1000000):
                    r = comps.ask(S, q, mk(), catch=BaseException)
                env.log('faulted ' + q, type(r.exc).__name__)
                done.append('!' + q)
                continue
        want = comps.ask(fresh, q, mk())
        got = comps.ask(S, q, mk())
        env.log(q, type(want.exc).__name__ if want.exc is not None else want.value)
        env.probe('requests')
        answered += want.exc is None
        if not comps.agree(got, want, comps.rtol_of(S.spec)):
            if q == 'latex' and S.spec['fam'] in ('sat', 'mloss') and S.spec['k'].split('.')[-1] in reconf.DEVIANCE:
                continue        # shows the quadratic with the constant above
            cls = 'differs-from-new'
            if deviance_constant(S, fresh, q, got, want):
                cls = 'stale-deviance-constant'
            env.fail(cls, '%s after %s asked %s: %s, newly built: %s (%s)' % (
                who, done, q, comps.tell(got), comps.tell(want), gap(got.value, want.value)), '%s:%s' % (who, q))
            if cls == 'differs-from-new':
                return
        done.append(q)
    env.nontrivial = changed >= 1 and answered >= 2


def deviance_constant(S, fresh, q, got, want):
    """Do the answers differ by exactly the constant of the saturated model that
    the library computes once, at construction?"""
    if S.spec['k'].split('.')[-1] not in reconf.DEVIANCE or S.spec['fam'] not in ('sat', 'mloss'):
        return False
    if q not in ('nonsmooth', 'objective') or got.exc is not None or want.exc is not None:
        return False
    # what the two quadratics differ by, at two points
    x = comps.zoo.rs(5).standard_normal(S.obj.shape)
    d = [S.obj.quadratic.objective(y, 'func') - fresh.obj.quadratic.objective(y, 'func') for y in (x, 0 * x)]
    return same(d[0], d[1], 1e-7, 1e-8) and same(got.value - want.value, d[0], 1e-7, 1e-8)
