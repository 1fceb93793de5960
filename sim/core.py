"""The run environment: history, probes, invariant failures, digests, and the
plan shrinker.  Nothing here knows about regreg."""
import copy
import hashlib
import json
import random
from collections import Counter

import numpy as np


class StepLimit(BaseException):
    """The simulated step budget of a run is spent (a liveness bound)."""


class Skip(Exception):
    """The plan asks for something this tree refuses; not a violation."""


def rng_for(*parts):
    return random.Random(':'.join(str(p) for p in parts))


def sig(x, digits=6):
    """A short stable rendering of a value for the history."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [sig(v, digits) for v in x]
    if isinstance(x, dict):
        return {str(k): sig(x[k], digits) for k in sorted(x, key=str)}
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        return type(x).__name__
    if a.ndim == 0:
        return '%.*g' % (digits, float(a) + 0.0)
    if a.size <= 6:
        return ['%.*g' % (digits, v + 0.0) for v in a.ravel()]
    h = hashlib.md5(' '.join('%.4g' % (v + 0.0) for v in a.ravel()).encode()).hexdigest()[:8]
    return '%s/%s' % ('x'.join(map(str, a.shape)), h)


class Env(object):
    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.trace = []          # structural: what happened, without numbers
        self.violations = []
        self.probes = Counter()
        self.faults = Counter()
        self.steps = 0
        self.switches = 0
        self.sched = None        # explicit switch list, filled by the scheduler
        self.nontrivial = False

    def log(self, what, *vals):
        self.events.append([what] + [sig(v) for v in vals])
        self.trace.append(what)

    def mark(self, what):
        self.trace.append(what)

    def probe(self, name, n=1):
        self.probes[name] += n

    def fault(self, kind):
        self.faults[kind] += 1
        self.trace.append('fault:' + kind)
        self.nontrivial = True

    def fail(self, cls, msg, key):
        self.violations.append({'cls': cls, 'key': key, 'msg': str(msg)[:1500]})
        self.trace.append('VIOLATION:%s:%s' % (cls, key))

    def result(self):
        dig = hashlib.sha256(json.dumps(
            [self.events, self.trace, [(v['cls'], v['key']) for v in self.violations]],
            default=str).encode()).hexdigest()[:16]
        th = hashlib.sha256(json.dumps([self.trace, self.sched], default=str).encode()).hexdigest()[:12]
        return {'digest': dig, 'shape': th, 'violations': self.violations,
                'probes': dict(self.probes), 'faults': dict(self.faults),
                'steps': self.steps, 'switches': self.switches,
                'nontrivial': bool(self.nontrivial), 'sched': self.sched,
                'tail': self.events[-12:]}


# ---------------------------------------------------------------- comparing

def same(a, b, rtol=1e-9, atol=1e-11):
    """Recursive numeric equality with NaN == NaN and inf == inf."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if hasattr(a, 'toarray'):
        a = a.toarray()
    if hasattr(b, 'toarray'):
        b = b.toarray()
    try:
        a = np.asarray(a, float)
        b = np.asarray(b, float)
    except (TypeError, ValueError):
        return type(a) is type(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = 1.
    fin = np.isfinite(b)
    if fin.any():
        scale = max(1., float(np.max(np.abs(b[fin]))))
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * scale + atol)
    return bool(np.all(ok))


def gap(a, b):
    try:
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        if a.shape != b.shape:
            return 'shapes %s vs %s' % (a.shape, b.shape)
        with np.errstate(all='ignore'):
            return 'max |difference| %.3g' % float(np.max(np.abs(a - b))) if a.size else 'empty'
    except Exception:
        return '%r vs %r' % (a, b)


def brief(x, n=160):
    s = np.array2string(np.asarray(x), precision=6, threshold=8) if isinstance(x, np.ndarray) else repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


# ----------------------------------------------------------------- shrinking

def _get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def _list_paths(plan, names=('ops', 'faults', 'switches', 'threads', 'sites', 'pre', 'lagrange')):
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in names and isinstance(x[k], list) and x[k]:
                    out.append(path + (k,))
                walk(x[k], path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    walk(v, path + (i,))
    walk(plan, ())
    return out


def shrink(plan, still_fails, budget=120, min_len=None):
    """Greedy ddmin over every operation/fault/switch list of the plan.
    `still_fails(candidate)` -> bool.  Returns the smaller plan and tries used."""
    min_len = min_len or {}
    tries = 0
    changed = True
    while changed and tries < budget:
        changed = False
        for path in sorted(_list_paths(plan), key=lambda p: -len(_get(plan, p))):
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            lo = min_len.get(path[-1], 1 if path[-1] in ('lagrange', 'threads') else 0)
            size = max(1, len(cur) // 2)
            while size >= 1 and tries < budget:
                i = 0
                while i < len(_get(plan, path)) and tries < budget:
                    cur = _get(plan, path)
                    if len(cur) - size < lo:
                        break
                    cand = copy.deepcopy(plan)
                    del _get(cand, path)[i:i + size]
                    tries += 1
                    if still_fails(cand):
                        plan = cand
                        changed = True
                    else:
                        i += size
                size //= 2
    return plan, tries
