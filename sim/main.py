"""check <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N]"""
import argparse
import copy
import importlib.util
import json
import os
import queue
import re
import shutil
import struct
import subprocess
import sys
import threading
import time
from collections import Counter

from . import build, core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
NPROC = min(8, os.cpu_count() or 8)


def _prefix_cmd():
    """Run workers without address randomisation where the kernel lets us."""
    try:
        r = subprocess.run(['setarch', 'x86_64', '-R', 'true'], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=20)
        if r.returncode == 0:
            return ['setarch', 'x86_64', '-R']
    except Exception:
        pass
    return []


class Worker(object):
    def __init__(self, root, prop, pre):
        env = build.child_env(root + os.pathsep + HERE)
        self.p = subprocess.Popen(pre + [build.PY, '-m', 'sim.worker', root, prop], cwd=root, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.err = []
        threading.Thread(target=self._drain, daemon=True).start()
        m = self._recv()
        if not m or not m.get('ready'):
            raise RuntimeError('worker did not start: ' + ''.join(self.err)[-3000:])

    def _drain(self):
        for line in self.p.stderr:
            self.err.append(line.decode('utf8', 'replace'))
            del self.err[:-200]

    def _recv(self):
        h = self.p.stdout.read(4)
        if len(h) < 4:
            self.p.wait()
            time.sleep(.1)
            return None
        return json.loads(self.p.stdout.read(struct.unpack('>I', h)[0]).decode())

    def ask(self, msg):
        d = json.dumps(msg).encode()
        self.p.stdin.write(struct.pack('>I', len(d)) + d)
        self.p.stdin.flush()
        r = self._recv()
        if r is None:
            raise RuntimeError('worker died: ' + ''.join(self.err)[-3000:])
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except (IOError, ValueError):
        return {'known': [], 'fixed': []}


def meta_of(prop):
    """Read the module constants without importing regreg: they sit in a
    literal dict called META."""
    import ast
    src = open(os.path.join(HERE, 'sim', 'props', prop.lower() + '.py')).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'META':
            return ast.literal_eval(node.value)
    raise SystemExit('no META in %s' % prop)


def vkey(v):
    return (v['cls'], v['key'])


def violations_of(res, meta):
    """The violations of one result, infrastructure outcomes included."""
    if res.get('timeout'):
        return [{'cls': 'no-progress', 'key': 'wall-clock', 'msg': 'the run did not finish within its wall-clock limit'}]
    if 'crash' in res:
        return [{'cls': 'crash', 'key': 'interpreter-died', 'msg': 'the interpreter died, wait status %s' % res['crash']}]
    return res.get('violations', [])


class Checker(object):
    def __init__(self, prop, tier, seed, runs=None, cap=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.meta = meta_of(prop)
        self.runs = runs or self.meta['runs'][tier]
        self.cap = cap or self.meta.get('cap', {}).get(tier, {'quick': 150, 'thorough': 780}[tier])
        self.timeout = self.meta.get('timeout', 40)
        known = load_known()
        self.known = [k for k in known.get('known', []) if k['property'] == prop]
        self.pre = _prefix_cmd()

    def is_known(self, v):
        for k in self.known:
            if re.fullmatch(k['match'], '%s:%s' % vkey(v)):
                return k
        return None

    def pool(self, n):
        ws = [None] * n
        errs = []

        def start(i):
            try:
                ws[i] = Worker(self.root, self.prop, self.pre)
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=start, args=(i,)) for i in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            for w in ws:
                if w:
                    w.close()
            raise errs[0]
        return ws

    def sweep(self, workers):
        q = queue.Queue()
        for i in range(self.runs):
            q.put(i)
        out = []
        lock = threading.Lock()
        t0 = time.time()
        stop = threading.Event()
        bad = []

        def go(w):
            while not stop.is_set():
                if time.time() - t0 > self.cap:
                    return
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    r = w.ask({'seed': self.seed, 'idx': i, 'tier': self.tier, 'timeout': self.timeout})
                except Exception as e:
                    bad.append(e)
                    stop.set()
                    return
                with lock:
                    out.append(r)
                    if sum(1 for x in out if violations_of(x, self.meta)) >= self.meta.get('max_bad', 40):
                        stop.set()
        ts = [threading.Thread(target=go, args=(w,)) for w in workers]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if bad:
            raise bad[0]
        self.sweep_wall = time.time() - t0
        out.sort(key=lambda r: r['idx'])
        return out

    def explain(self, plan, v):
        w = getattr(self, '_w', None)
        return w.ask({'plan': plan, 'timeout': self.timeout})

    def minimise(self, w, plan, v, orig):
        """Explicit schedule first, then ddmin."""
        def ask(p):
            return w.ask({'plan': p, 'timeout': self.timeout})

        def fails(p):
            try:
                r = ask(p)
            except RuntimeError:
                raise
            return any(vkey(x) == vkey(v) for x in violations_of(r, self.meta))
        if v['key'] in ('wall-clock',):
            return plan
        end = min(time.time() + 60, self.minimise_until)
        fails_ = fails

        def fails(p):
            return time.time() < end and fails_(p)
        if plan.get('schedule') and orig.get('sched') and plan['schedule'].get('policy') != 'explicit':
            cand = copy.deepcopy(plan)
            cand['schedule']['policy'] = 'explicit'
            cand['schedule']['switches'] = orig['sched']
            if fails(cand):
                plan = cand
        try:
            plan, n = core.shrink(plan, fails, budget=self.meta.get('shrink', 80))
        except RuntimeError:
            raise
        return plan

    def write_replay(self, n, plan, v, res, times):
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-seed%s-%d.json' % (self.prop, self.seed, n))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'violation': v, 'plan': plan, 'digest': res.get('digest'),
                       'shape': res.get('shape'), 'history_tail': res.get('tail'),
                       'reproduced': times}, f, indent=1, sort_keys=True)
            f.write('\n')
        return path

    def main(self):
        t0 = time.time()
        self.root = build.stage()
        try:
            self.build_wall = time.time() - t0
            return self._main(t0)
        finally:
            shutil.rmtree(self.root, ignore_errors=True)

    def _main(self, t0):
        workers = self.pool(NPROC)
        try:
            out = self.sweep(workers)
            errors = [r for r in out if r.get('error')]
            bad = []
            # a wall-clock timeout counts only if it happens again on a quiet machine
            for r in out:
                for v in violations_of(r, self.meta):
                    bad.append((r, v))
            groups = {}
            for r, v in bad:
                groups.setdefault(vkey(v), []).append((r, v))
            reported, known_hit, unrepro = [], {}, []
            self.minimise_until = time.time() + 200
            for key in sorted(groups):
                r, v = min(groups[key], key=lambda rv: (len(json.dumps(rv[0]['plan'])), rv[0]['idx']))
                k = self.is_known(v)
                if k is not None:
                    known_hit.setdefault(k['match'], (k, 0))
                    known_hit[k['match']] = (k, known_hit[k['match']][1] + len(groups[key]))
                    continue
                if len(reported) >= 6:
                    reported.append((key, None, v, len(groups[key])))
                    continue
                w = Worker(self.root, self.prop, self.pre)
                try:
                    again = [w.ask({'plan': r['plan'], 'timeout': self.timeout * (3 if key[1] == 'wall-clock' else 1)})
                             for _ in range(1)]
                    same = any(vkey(x) == key for x in violations_of(again[0], self.meta))
                    if not same and key[1] != 'wall-clock':
                        for _ in range(4):
                            again.append(w.ask({'plan': r['plan'], 'timeout': self.timeout}))
                            if any(vkey(x) == key for x in violations_of(again[-1], self.meta)):
                                same = True
                                break
                    if not same:
                        unrepro.append((key, r, v))
                        continue
                    plan = self.minimise(w, r['plan'], v, r)
                finally:
                    w.close()
                w = Worker(self.root, self.prop, self.pre)
                try:
                    rr = [w.ask({'plan': plan, 'timeout': self.timeout}) for _ in range(2)]
                finally:
                    w.close()
                hits = [x for x in rr if any(vkey(y) == key for y in violations_of(x, self.meta))]
                final = hits[0] if hits else r
                vv = next((y for y in violations_of(final, self.meta) if vkey(y) == key), v)
                if not hits:
                    plan = r['plan']
                path = self.write_replay(len(reported), plan, vv, final,
                                         {'fresh_process_runs': len(rr), 'same_violation': len(hits),
                                          'same_digest': len(set(x.get('digest') for x in hits)) == 1})
                reported.append((key, path, vv, len(groups[key])))
        finally:
            for w in workers:
                w.close()
        return self.finish(t0, out, errors, reported, known_hit, unrepro)

    def finish(self, t0, out, errors, reported, known_hit, unrepro):
        ok = [r for r in out if 'digest' in r]
        faults, probes = Counter(), Counter()
        for r in ok:
            faults.update(r['faults'])
            probes.update(r['probes'])
        shapes = set(r['shape'] for r in ok if r['nontrivial'])
        wall = time.time() - t0
        cov = {
            'evaluations': len(ok),
            'distinct_nontrivial': len(shapes),
            'rule': self.meta['rule'],
            'samples': [r['plan'] for r in ok[:2]],
            'runs_planned': self.runs,
            'wall_cap_hit': len(out) < self.runs,
            'runs_per_hour': round(3600. * len(ok) / max(self.sweep_wall, 1e-3)),
            'one_run_is': 'one seed: the plan (program, faults, schedule) is drawn from (root seed, run number)',
            'root_seed': self.seed,
            'simulated_time': 'the code reads no clock; logical steps are counted instead',
            'logical_steps': sum(r['steps'] for r in ok),
            'context_switches': sum(r['switches'] for r in ok),
            'distinct_schedules': len(set(json.dumps(r['sched']) for r in ok if r['sched'])),
            'faults_injected': dict(faults),
            'checks_made': dict(sorted(probes.items())),
            'real_components': self.meta['real'],
            'stubbed_components': self.meta['stub'],
            'build_s': round(self.build_wall, 1),
            'unreproduced': [{'violation': v, 'idx': r['idx']} for _, r, v in unrepro],
            'known_findings_hit': [{'match': k, 'times': n} for k, (_, n) in known_hit.items()],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.meta['level'],
              'coverage': cov, 'wall_s': round(wall, 2),
              'violations': [{'class': key[0], 'key': key[1], 'message': v['msg'], 'replay': path, 'runs': n}
                             for key, path, v, n in reported],
              'assumptions': self.meta['assumptions']}
        cov['violation_list'] = ev['violations']
        ev['violations'] = len(reported)
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write('\n')
        os.replace(tmp, os.path.join(EVID, self.prop + '.json'))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for key, path, v, n in reported:
            if path:
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s %s (%d runs): %s' % (key[0], key[1], n, v['msg']))
        for key, r, v in unrepro:
            print('UNREPRODUCED %s %s at run %s: %s' % (key[0], key[1], r['idx'], v['msg']))
        for r in errors[:3]:
            print('HARNESS-ERROR run %s\n%s' % (r.get('idx'), r['error']), file=sys.stderr)
        print('%s %s seed=%s: %d runs, %d distinct, %d switches, faults %s, %.1fs, %d violation(s), %d harness error(s)' % (
            self.prop, self.tier, self.seed, len(ok), len(shapes), cov['context_switches'],
            sum(faults.values()), wall, len(reported), len(errors)))
        if reported:
            return 1
        if errors or not ok:
            return 2
        return 0

    def replay(self, path):
        self.root = build.stage()
        try:
            with open(path) as f:
                rec = json.load(f)
            w = Worker(self.root, self.prop, self.pre)
            try:
                r = w.ask({'plan': rec['plan'], 'timeout': self.timeout})
            finally:
                w.close()
        finally:
            shutil.rmtree(self.root, ignore_errors=True)
        if r.get('error'):
            print(r['error'])
            return 2
        vs = [v for v in violations_of(r, self.meta)]
        for v in vs:
            print('  %s %s: %s' % (v['cls'], v['key'], v['msg']))
        if any(vkey(v) == vkey(rec['violation']) for v in vs):
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('digest %s (recorded %s)' % (r.get('digest'), rec.get('digest')))
            return 1
        print('not reproduced; digest %s (recorded %s)' % (r.get('digest'), rec.get('digest')))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    c = Checker(a.property, a.tier, a.seed, a.runs, a.cap)
    if a.replay:
        return c.replay(a.replay)
    return c.main()


if __name__ == '__main__':
    try:
        code = main()
    except build.BuildError as e:
        print('BUILD-ERROR', e, file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
