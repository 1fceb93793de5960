"""Stage /repo's working tree into a scratch directory and build its four
Cython extensions there, so that every check runs the code as it is now and
never touches /repo."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')

ENV = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_CORETYPE': 'Haswell',
    'MKL_NUM_THREADS': '1',
    'JOBLIB_MULTIPROCESSING': '0',
    'MPLBACKEND': 'agg',
}

# the extensions the fast path knows how to build
KNOWN = {
    'regreg/atoms/projl1_cython.pyx': [],
    'regreg/atoms/mixed_lasso_cython.pyx': [],
    'regreg/atoms/piecewise_linear.pyx': [],
    'regreg/smooth/cox_utils.pyx': ['regreg/smooth/cox_fns.c'],
}


# sources setup.py lists no extension for
UNBUILT = {'regreg/atoms/_isotonic.pyx'}


class BuildError(RuntimeError):
    pass


def child_env(extra_path=None):
    env = dict(os.environ)
    env.update(ENV)
    if extra_path:
        env['PYTHONPATH'] = extra_path
    return env


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=child_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf8', 'replace')[-4000:]))


def _fast_one(root, pyx, extra, inc):
    c = pyx[:-4] + '.c'
    _run([PY, '-m', 'cython', '-2', pyx, '-o', c], root)
    suffix = sysconfig_suffix()
    out = pyx[:-4] + suffix
    _run(['gcc', '-shared', '-fPIC', '-O2', '-fwrapv', '-w',
          '-Iregreg/smooth', *inc, c, *extra, '-o', out, '-lm'], root)


_SUFFIX = []


def sysconfig_suffix():
    if not _SUFFIX:
        out = subprocess.check_output(
            [PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_config_var("EXT_SUFFIX"));'
             'print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
            env=child_env()).decode().split('\n')
        _SUFFIX.extend(out)
    return _SUFFIX[0]


def stage():
    """Copy the tree to a new scratch directory and build it there.  Returns the
    scratch root (the caller removes it)."""
    root = tempfile.mkdtemp(prefix='regreg_sim_', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        ignore = shutil.ignore_patterns('.git', '*.so', '__pycache__', 'build', '*.pyc',
                                        'doc', 'plots', 'sandbox')
        shutil.copytree(REPO, root, ignore=ignore, dirs_exist_ok=True, symlinks=True)
        pyxs = sorted(os.path.relpath(p, root) for p in
                      glob.glob(os.path.join(root, 'regreg', '**', '*.pyx'), recursive=True))
        for p in pyxs:
            c = os.path.join(root, p[:-4] + '.c')
            if os.path.exists(c):
                os.unlink(c)
        done = False
        if set(pyxs) == set(KNOWN) | UNBUILT:
            sysconfig_suffix()
            inc = ['-I' + _SUFFIX[1], '-I' + _SUFFIX[2]]
            try:
                with ThreadPoolExecutor(4) as ex:
                    list(ex.map(lambda p: _fast_one(root, p, KNOWN[p], inc), sorted(KNOWN)))
                done = True
            except (BuildError, subprocess.TimeoutExpired):
                done = False
        if not done:
            _run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], root)
        return root
    except BaseException:
        shutil.rmtree(root, ignore_errors=True)
        raise


if __name__ == '__main__':
    import time
    t = time.time()
    r = stage()
    print(r, time.time() - t)
    subprocess.run([PY, '-c', 'import regreg, regreg.api; print(regreg.__file__);'
                    'from regreg.smooth import cox_utils; print(cox_utils.__file__)'],
                   env=child_env(r), cwd='/')
    if '--keep' not in sys.argv:
        shutil.rmtree(r, ignore_errors=True)
