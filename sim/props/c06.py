"""C06: threads sharing a component get the answers they would get alone."""
import numpy as np

import regreg.api as rr

from .. import comps, zoo
from ..core import gap
from ..sched import Sim, Deadlock
from ..seams import CTL, armed

META = {
    'level': 'exploration',
    'runs': {'quick': 2600, 'thorough': 40000},
    'cap': {'quick': 60, 'thorough': 780},
    'rule': 'One run builds one component (every loss, atom, affine atom, transform and quadratic class in turn; often '
            'a penalty too) and lets 2-3 simulated threads put 1-5 requests each to the shared objects: evaluations, '
            'proxes, maps, subsamples, conjugates, and whole solves of problems of their own built on them. The seeded '
            'scheduler may preempt at every source line (or bytecode) of regreg. Every answer is compared with the one a '
            'fresh object gives to that request alone. Distinct: component class, requests, and preemption points; '
            'non-trivial: at least one preemption inside regreg.',
    'real': 'all of regreg, including the Cython extensions (which hold the interpreter lock and are one step)',
    'stub': 'threading: real threads, of which the simulator lets exactly one run at a time',
    'assumptions': ['preemption points are source lines or bytecodes of regreg; code of numpy and scipy runs as one step'],
}

FAMS = ('loss', 'sat', 'mloss', 'atom', 'affatom', 'transform', 'quad')


def gen(rng, idx, tier):
    fam, name = comps.pick(idx, FAMS)
    spec = comps.gen(rng, fam, name)
    plan = {'spec': spec, 'pen': None, 'threads': []}
    solves = fam == 'loss' or (fam == 'atom' and name in zoo.VECTOR_PENALTIES)
    if solves:
        if fam == 'loss':
            pen = zoo.gen_atom(rng, rng.choice(zoo.VECTOR_PENALTIES), p=spec['p'])
            other = dict(pen, fam='atom')
        else:
            other = dict(zoo.gen_loss(rng, rng.choice(zoo.VECTOR_LOSSES), p=spec['p']), fam='loss')
        plan['pen'] = other
    qs = comps.queries(spec)
    seeds = [rng.randrange(1, 10 ** 6) for _ in range(4)]
    pool = [rng.choice(qs) for _ in range(2)]
    for _ in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 5)):
            if solves and rng.random() < .25:
                ops.append({'q': 'SOLVE', 'how': rng.choice(['simple', 'simple', 'container', 'smooth_sum']),
                            'quad': int(rng.random() < .5), 'seed': rng.choice(seeds), 'its': rng.choice([3, 8, 15])})
            elif plan['pen'] and rng.random() < .2:
                ops.append({'q': rng.choice(comps.queries(plan['pen'])), 'c': 1, 'seed': rng.choice(seeds),
                            'kind': 'plain'})
            else:
                ops.append({'q': rng.choice(pool) if rng.random() < .5 else rng.choice(qs), 'c': 0,
                            'seed': rng.choice(seeds), 'kind': rng.choice(['plain', 'plain', 'half', 'zero'])})
        plan['threads'].append({'ops': ops})
    plan['schedule'] = {'policy': 'gap', 'seed': rng.randrange(10 ** 9), 'mean': rng.choice([2, 4, 8, 20, 60]),
                        'unit': rng.choice(['line', 'line', 'opcode'])}
    return plan


def _ask(shared, op):
    if op['q'] != 'SOLVE':
        return comps.ask(shared[op['c']], op['q'], comps.Args(op['seed'], 0, op['kind']))
    r = comps.Ans()
    r.exc, r.value, r.raw, r.args = None, None, [], None
    try:
        loss, pen = shared if shared[0].fam == 'loss' else shared[::-1]
        a = comps.Args(op['seed'])
        if op['how'] == 'simple':
            P = rr.simple_problem(loss.obj, pen.obj)
        elif op['how'] == 'container':
            P = rr.container(loss.obj, pen.obj)
        else:
            extra = rr.signal_approximator(a.arr(loss.obj.shape, 's'))
            P = rr.simple_problem(rr.smooth_sum([loss.obj, extra]), pen.obj)
        P.coefs[:] = 0
        kw = {'quadratic': a.quad(loss.obj.shape)} if op['quad'] else {}
        r.value = comps.freeze(P.solve(max_its=op['its'], min_its=op['its'], tol=0., **kw))
    except Exception as e:
        r.exc = e
    return r


def _build(plan):
    out = [comps.build(plan['spec'])]
    if plan['pen']:
        out.append(comps.build(plan['pen']))
    return out


def run(plan, env):
    spec = plan['spec']
    who = '%s.%s' % (spec['fam'], spec['k'])
    env.mark(who)
    want = [[_ask(_build(plan), op) for op in t['ops']] for t in plan['threads']]
    shared = _build(plan)
    got = [[None] * len(t['ops']) for t in plan['threads']]

    def body(i):
        def go():
            for j, op in enumerate(plan['threads'][i]['ops']):
                got[i][j] = _ask(shared, op)
        return go

    sim = Sim(plan['schedule'], env, env.prefix)

    def main():
        ts = [sim.spawn(body(i)) for i in range(len(plan['threads']))]
        sim.join(ts)
    try:
        sim.run(main)
    except Deadlock as e:
        env.fail('deadlock', e, who)
        return
    env.nontrivial = env.switches > 0
    for i, t in enumerate(plan['threads']):
        for j, op in enumerate(t['ops']):
            g, w = got[i][j], want[i][j]
            name = op['q'] if op['q'] != 'SOLVE' else 'SOLVE.' + op['how']
            target = who if op.get('c', 0) == 0 else '%s.%s' % (plan['pen']['fam'], plan['pen']['k'])
            env.mark('%d:%s' % (i, name))
            if g is None:
                if sim.overrun:
                    env.mark('overrun')
                    return
                env.fail('thread-died', 'thread %d never answered %s of %s (%r)' % (i, name, target, sim.threads[i + 1].exc),
                         '%s:%s' % (target, name))
                return
            env.probe('answers compared')
            env.log(name, type(w.exc).__name__ if w.exc is not None else w.value)
            if not comps.agree(g, w, comps.rtol_of(spec)):
                env.fail('differs-from-alone', '%s asked %s by thread %d while others use it: %s; alone: %s (%s)' % (
                    target, name, i, comps.tell(g), comps.tell(w), gap(g.value, w.value)), '%s:%s' % (target, name))
                return
