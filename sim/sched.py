"""Deterministic cooperative thread simulator.

Real threads, exactly one of which runs at any time.  A thread can be
preempted at every source line (or bytecode) of regreg it executes; whether it
is, and who runs next, comes from the plan: either a seeded policy or an
explicit list of [step, thread] switches (the replay form)."""
import sys
import threading
import _thread

from .core import rng_for

_RealThread = threading.Thread
_RealSem = threading.Semaphore
_RealLock = threading.Lock
_RealRLock = threading.RLock

CURRENT = [None]          # the active Sim, if any


class Deadlock(Exception):
    pass


class _T(object):
    __slots__ = ('tid', 'fn', 'sem', 'done', 'pred', 'exc', 'value', 'thread', 'killed')

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = _RealSem(0)
        self.done = False
        self.pred = None
        self.exc = None
        self.value = None
        self.killed = False


class _Kill(BaseException):
    pass


class Sim(object):
    def __init__(self, spec, env, files):
        """spec: {'policy': 'gap'|'explicit'|'serial', 'seed':, 'mean':, 'unit':
        'line'|'opcode', 'switches': [[step, tid], ...], 'max_steps':}"""
        self.env = env
        self.spec = spec
        self.files = files                     # path prefix that is preemptible
        self.policy = spec.get('policy', 'gap')
        self.rng = rng_for('sched', spec.get('seed', 0))
        self.mean = max(1.0, float(spec.get('mean', 50)))
        self.opcode = spec.get('unit') == 'opcode'
        self.max_steps = int(spec.get('max_steps', 3000000))
        self.switch_list = [list(s) for s in spec.get('switches', [])]
        self.sw_i = 0
        self.steps = 0
        self.threads = []
        self.cur = None
        self.recorded = []
        self.where = []
        self.next_at = self._next()
        self.overrun = False

    # -- schedule
    def _next(self):
        if self.policy == 'explicit':
            return self.switch_list[self.sw_i][0] if self.sw_i < len(self.switch_list) else 1 << 60
        if self.policy == 'serial':
            return 1 << 60
        return self.steps + 1 + int(self.rng.expovariate(1.0 / self.mean))

    def _ready(self):
        return [t for t in self.threads if not t.done and (t.pred is None or t.pred())]

    def point(self, frame=None):
        """A preemption point, reached by the running thread."""
        self.steps += 1
        if self.steps < self.next_at:
            if self.steps > self.max_steps:
                self.overrun = True
                raise _Kill()
            return
        me = self.cur
        if self.policy == 'explicit':
            want = self.switch_list[self.sw_i][1]
            self.sw_i += 1
            self.next_at = self._next()
            cands = [t for t in self._ready() if t.tid == want]
        else:
            self.next_at = self._next()
            cands = [t for t in self._ready() if t is not me]
            if cands:
                cands = [cands[self.rng.randrange(len(cands))]]
        if not cands or cands[0] is me:
            return
        self.recorded.append([self.steps, cands[0].tid])
        if frame is not None:
            self.where.append('%d>%d@%s' % (me.tid, cands[0].tid, frame.f_code.co_name))
        self.env.switches += 1
        self._switch(cands[0])

    def _switch(self, to):
        me = self.cur
        self.cur = to
        to.sem.release()
        me.sem.acquire()
        if me.killed:
            raise _Kill()

    def block(self, pred):
        """The running thread waits until pred()."""
        me = self.cur
        if pred():
            return
        me.pred = pred
        ready = self._ready()
        if not ready:
            me.pred = None
            raise Deadlock('every simulated thread is blocked')
        to = ready[0]
        if to is not me:
            self._switch(to)
        me.pred = None

    # -- threads
    def _trace(self, frame, event, arg):
        if event == 'call':
            if frame.f_code.co_filename.startswith(self.files):
                if self.opcode:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return self._local
            return None
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point(frame)
        return self._local

    def _boot(self, t):
        t.sem.acquire()
        try:
            if t.killed:
                return
            sys.settrace(self._trace)
            try:
                t.value = t.fn()
            finally:
                sys.settrace(None)
        except _Kill:
            pass
        except BaseException as e:      # noqa: the simulated thread's own failure
            t.exc = e
        finally:
            t.done = True
            nxt = self._ready()
            if nxt:
                self.cur = nxt[0]
                nxt[0].sem.release()
            else:
                self.cur = None
                self.finished.release()

    def spawn(self, fn):
        t = _T(len(self.threads), fn)
        self.threads.append(t)
        th = _RealThread(target=self._boot, args=(t,))
        th.daemon = True
        t.thread = th
        th.start()
        return t

    def join(self, ts):
        ts = list(ts)
        self.block(lambda: all(t.done for t in ts))

    def run(self, main):
        """Run main() as simulated thread 0 until every thread is done."""
        self.finished = _RealSem(0)
        threading.stack_size(16 << 20)
        CURRENT[0] = self
        try:
            t0 = self.spawn(main)
            self.cur = t0
            t0.sem.release()
            self.finished.acquire()
        finally:
            CURRENT[0] = None
            self.env.steps += self.steps
            self.env.sched = (self.env.sched or []) + self.recorded
            self.env.trace.extend(self.where[:400])
        stuck = [t for t in self.threads if not t.done]
        if stuck:
            raise Deadlock('threads %s never finished' % [t.tid for t in stuck])
        if t0.exc is not None:
            raise t0.exc
        return t0.value

    def inside(self):
        """Is the calling OS thread one of ours and the running one?"""
        c = self.cur
        return c is not None and c.thread is threading.current_thread()


# ------------------------------------------------------ cooperative primitives

class SimLock(object):
    """Stands in for threading.Lock / RLock created by regreg code."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self._real = _RealRLock() if reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT[0]
        if sim is None or not sim.inside():
            return self._real.acquire(blocking, timeout)
        me = sim.cur
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            sim.block(lambda: self.owner is None)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        sim = CURRENT[0]
        if sim is None or not sim.inside():
            return self._real.release()
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None or (not self.reentrant and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return SimLock(self.reentrant)


def install_locks(prefix):
    def from_regreg():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(prefix)

    def Lock():
        return SimLock(False) if from_regreg() else _RealLock()

    def RLock():
        return SimLock(True) if from_regreg() else _RealRLock()
    threading.Lock = Lock
    threading.RLock = RLock


class SimParallel(object):
    """Stands in for joblib.Parallel(prefer='threads'): a pool of simulated
    worker threads pulling tasks in order.  When a task fails, nothing further
    is dispatched and the caller gets the exception at once, while tasks already
    running carry on, as joblib's thread backend does."""
    workers = [1]
    log = None

    def __init__(self, n_jobs=None, *args, **kw):
        self.n_jobs = n_jobs

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __call__(self, iterable):
        sim = CURRENT[0]
        if sim is None or self.n_jobs in (None, 1) or not sim.inside():
            return [f(*a, **k) for f, a, k in iterable]
        n = self.n_jobs if (self.n_jobs or 0) > 0 else self.workers[0]
        n = max(1, min(n, self.workers[0]))
        it = iter(iterable)
        results = {}
        state = {'next': 0, 'failed': None, 'open': True}
        dispatch = SimLock(False)

        def work():
            while state['open'] and state['failed'] is None:
                with dispatch:
                    if not state['open'] or state['failed'] is not None:
                        return
                    try:
                        task = next(it)
                    except StopIteration:
                        state['open'] = False
                        return
                    i = state['next']
                    state['next'] = i + 1
                f, a, k = task
                try:
                    results[i] = f(*a, **k)
                except _Kill:
                    raise
                except BaseException as e:
                    if state['failed'] is None:
                        state['failed'] = e
                    return
        ts = [sim.spawn(work) for _ in range(n)]
        sim.block(lambda: state['failed'] is not None or all(t.done for t in ts))
        if state['failed'] is not None:
            raise state['failed']
        if sim.overrun:
            raise _Kill()
        return [results[i] for i in range(state['next'])]


def install_parallel():
    import joblib
    import joblib.parallel
    orig = joblib.parallel.Parallel
    joblib.Parallel = SimParallel
    joblib.parallel.Parallel = SimParallel
    return orig
