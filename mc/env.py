"""Process set-up shared by all checks: which tree is checked, determinism, scratch space.

Everything here happens before bathygrid is imported.  The tree under check is /repo (or $VERIF_REPO).
"""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
import dask  # noqa: E402

# one thread, one order: dask's own thread pool is a source of nondeterminism that the properties do not range over
dask.config.set(scheduler='synchronous')
np.seterr(all='ignore')

import bathygrid  # noqa: E402
import bathygrid.bgrid, bathygrid.convenience, bathygrid.utilities, bathygrid.tile, bathygrid.grids  # noqa: E402,E401
import bathygrid.backends, bathygrid.maingrid, bathygrid.algorithms, bathygrid.grid_variables  # noqa: E402,E401

_where = os.path.dirname(os.path.dirname(os.path.abspath(bathygrid.bgrid.__file__)))
if os.path.realpath(_where) != os.path.realpath(REPO):
    raise SystemExit('bathygrid was imported from {}, expected {}'.format(_where, REPO))


def scratch_base():
    for base in ('/dev/shm', '/tmp'):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return base
    return tempfile.gettempdir()


_root = None


def scratch_root():
    """one directory per run, made by the parent process and removed by it"""
    global _root
    if _root is None:
        _root = tempfile.mkdtemp(prefix='verif_mc_', dir=scratch_base())
    return _root


def scratch_cleanup():
    global _root
    if _root is not None:
        shutil.rmtree(_root, ignore_errors=True)
        _root = None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """swallow what the code under check prints"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
