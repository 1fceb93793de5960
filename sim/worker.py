"""A worker imports the staged tree once, puts the seams in, and then executes
plans, each in a forked child: what one run does to process-wide state (class
attributes, default arguments, numpy's generator) cannot reach another run."""
import importlib
import json
import os
import select
import signal
import struct
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')


def setup(root):
    """Import regreg from `root` behind the seams."""
    import sklearn.base          # noqa: before joblib is replaced
    import sklearn.linear_model  # noqa
    from . import sched, seams
    prefix = os.path.join(root, 'regreg') + os.sep
    sched.install_locks(prefix)
    sched.install_parallel()
    for m in ('regreg.api', 'regreg.paths.api', 'regreg.sklearn.api', 'regreg.affine.multiscale',
              'regreg.affine.image2d', 'regreg.problems.newton', 'regreg.problems.admm',
              'regreg.smooth.losses', 'regreg.smooth.mglm', 'regreg.atoms.simplex', 'regreg.atoms.slope',
              'regreg.paths.mixed_lasso', 'regreg.paths.group_lasso', 'regreg.paths.lasso',
              'regreg.paths.sparse_group_lasso', 'regreg.paths.sparse_group_block', 'regreg.paths.basil',
              'regreg.paths.cross_validate'):
        importlib.import_module(m)
    import regreg
    if not os.path.abspath(regreg.__file__).startswith(os.path.abspath(root)):
        raise RuntimeError('regreg came from %s, not %s' % (regreg.__file__, root))
    seams.install()
    import numpy as np
    np.seterr(all='ignore')
    return prefix


def execute(mod, plan, prefix):
    """One run, in this process.  Returns a result dict."""
    import random
    import numpy as np
    from . import core, seams
    env = core.Env(plan)
    env.prefix = prefix
    np.random.seed(plan.get('rng', 1) % (2 ** 32))
    random.seed(plan.get('rng', 1))
    seams.CTL.reset()
    try:
        mod.run(plan, env)
    except core.Skip as e:
        env.probe('skip:' + str(e)[:60])
    except core.StepLimit as e:
        env.fail('no-progress', e, 'step-limit')
    except Exception as e:
        # a request this simulator makes of every tree was refused by regreg
        frames = [f.f_code.co_name for f, _ in traceback.walk_tb(e.__traceback__)
                  if f.f_code.co_filename.startswith(prefix)]
        if not frames or isinstance(e, seams.Injected):
            raise
        env.fail('unexpected-exception', '%r in %s: %s' % (
            e, ' > '.join(frames[-4:]), traceback.format_exc()[-700:]), '%s|%s' % (type(e).__name__, frames[-1]))
    finally:
        seams.CTL.reset()
    return env.result()


def run_forked(mod, plan, prefix, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                res = execute(mod, plan, prefix)
            except BaseException:
                res = {'error': traceback.format_exc()[-3000:]}
            data = json.dumps(res, default=str).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + timeout
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'timeout': True}
    try:
        return json.loads(b''.join(chunks).decode())
    except ValueError:
        return {'crash': status}


def main():
    root, prop = sys.argv[1], sys.argv[2]
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    prefix = setup(root)
    mod = importlib.import_module('sim.props.' + prop.lower())

    def send(x):
        d = json.dumps(x, default=str).encode()
        out.write(struct.pack('>I', len(d)) + d)
        out.flush()
    send({'ready': True})
    from .core import rng_for
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        msg = json.loads(inp.read(struct.unpack('>I', h)[0]).decode())
        if 'plan' in msg:
            plan = msg['plan']
        else:
            try:
                plan = mod.gen(rng_for(prop, msg['seed'], msg['idx']), msg['idx'], msg['tier'])
            except Exception:
                send({'idx': msg['idx'], 'error': traceback.format_exc()[-3000:], 'plan': None, 'wall': 0})
                continue
            plan = json.loads(json.dumps(plan))
            plan.setdefault('rng', rng_for(prop, 'rng', msg['seed'], msg['idx']).randrange(2 ** 31))
        t = time.time()
        res = run_forked(mod, plan, prefix, msg.get('timeout', 120))
        res['wall'] = time.time() - t
        res['plan'] = plan
        res['idx'] = msg.get('idx')
        send(res)


if __name__ == '__main__':
    main()
