"""
Binding to the implementation: the checks import the modules of /repo/crysgsu as they are now.

Nothing is written under /repo: byte code goes nowhere, every file a check makes is in a scratch
directory that this module creates and removes.
"""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
warnings.simplefilter('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CRYS_REPO', '/repo')
CODE = os.path.join(REPO, 'crysgsu')
CONVERT = os.path.join(CODE, 'convert')
PYTHON = sys.executable

_scratch_root = None


def scratch_root():
    """Scratch directory of this run (removed at exit of the process that made it)."""
    global _scratch_root
    if _scratch_root is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch_root = tempfile.mkdtemp(prefix='crysmc_', dir=base)
        pid = os.getpid()

        def clean(d=_scratch_root):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch_root


@contextlib.contextmanager
def scratch():
    """A fresh scratch directory for one case."""
    d = tempfile.mkdtemp(dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


_loaded = False


def load():
    """Put the code under test on the path.  geom goes before gsu (the packages are circular)."""
    global _loaded
    if not _loaded:
        sys.path[:0] = [CODE, CONVERT]
        import geom
        import gsu
        assert os.path.realpath(gsu.__file__).startswith(os.path.realpath(CODE) + os.sep)
        _loaded = True
    import geom
    import gsu
    return geom, gsu


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf
