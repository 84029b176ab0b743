"""Fixes the environment a check runs in: interpreter, environment variables, scratch folder, library path.

The check process is re-executed once with the interpreter which has the dependencies of CIS, and with an
environment that makes a run a function of the code under test and of VERIF_SEED.
"""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
WHEELS = '/opt/veriftools/wheels'
SCRATCH = None

_FIXED_ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', TZ='UTC',
                  OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', HDF5_USE_FILE_LOCKING='FALSE')
_DROPPED_ENV = ('CIS_DATA_HOME', 'CIS_PLUGIN_HOME', 'PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONWARNINGS')


def enter(argv):
    global SCRATCH
    if os.environ.get('VERIF_BOOTED') != '1':
        env = dict(os.environ)
        for name in _DROPPED_ENV:
            env.pop(name, None)
        env.update(_FIXED_ENV)
        env['VERIF_BOOTED'] = '1'
        os.execve(PYTHON, [PYTHON, '-W', 'ignore'] + argv, env)
    os.umask(0o022)
    SCRATCH = tempfile.mkdtemp(prefix='vf-')
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(clean)
    for sub in ('mpl', 'cwd', 'lib', 'tmp', 'home'):
        os.mkdir(os.path.join(SCRATCH, sub))
    os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
    os.environ['HOME'] = os.path.join(SCRATCH, 'home')
    os.environ['TMPDIR'] = tempfile.tempdir = os.path.join(SCRATCH, 'tmp')
    lib = os.path.join(SCRATCH, 'lib')
    for pattern in ('hypothesis-*cp312-cp312-*x86_64*.whl', 'sortedcontainers-*.whl'):
        found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not found:
            sys.stderr.write('harness error: no wheel %s in %s\n' % (pattern, WHEELS))
            sys.exit(4)
        zipfile.ZipFile(found[-1]).extractall(lib)
    sys.path.insert(0, lib)
    sys.path.insert(0, REPO)
    os.chdir(os.path.join(SCRATCH, 'cwd'))
