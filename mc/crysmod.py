"""Instances of crys.py, one per rank, with the emulated MPI in place of mpi4py."""
import importlib.util
import os
import sys
import threading
import types

from . import env, mpi

_here = threading.local()


class Result:
    def __init__(self, value):
        self.value = value

    def get(self, timeout=None):
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True
    successful = ready


class Pool:
    """multiprocessing.Pool without processes (what it computes is the same)."""

    def __init__(self, *a, **k):
        pass

    def map(self, f, xs, *a, **k):
        return [f(x) for x in xs]

    def starmap(self, f, xs, *a, **k):
        return [f(*x) for x in xs]

    def imap(self, f, xs, *a, **k):
        return iter(self.map(f, xs))

    def imap_unordered(self, f, xs, *a, **k):
        # Nothing is promised about this order.
        return iter(self.map(f, xs)[::-1])

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, *a):
        return Result(f(*args, **kwds))

    def map_async(self, f, xs, *a, **k):
        return Result(self.map(f, xs))

    def starmap_async(self, f, xs, *a, **k):
        return Result(self.starmap(f, xs))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass
    join = terminate = close


class stubs:
    """Within: modules that crys.py imports and that are not of the repository."""

    def __init__(self, hi=None):
        self.hi = hi

    def __enter__(self):
        names = ('mpi4py', 'mpi4py.MPI', 'swim', 'multiprocessing')
        self.saved = {n: sys.modules.get(n) for n in names}
        pkg, MPI = mpi.mpi_module(lambda: _here.comm)
        sw = types.ModuleType('swim')
        sw.hi = self.hi or (lambda a, b, c: None)
        mpm = types.ModuleType('multiprocessing')
        mpm.Pool = mpm.ThreadPool = Pool
        mpm.cpu_count = lambda: 6
        sys.modules.update({'mpi4py': pkg, 'mpi4py.MPI': MPI, 'swim': sw, 'multiprocessing': mpm})
        self.path = list(sys.path)
        self.limit = sys.getrecursionlimit()
        return self

    def __exit__(self, *a):
        for n, m in self.saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        sys.path[:] = self.path
        sys.setrecursionlimit(self.limit)


_mods = {}


def rank_module(r):
    """The functions of crys.py with globals of their own for rank r."""
    if r not in _mods:
        with stubs():
            spec = importlib.util.spec_from_file_location('crys_rank%d' % r,
                                                          os.path.join(env.CODE, 'crys.py'))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        _mods[r] = m
    return _mods[r]


def enter(comm):
    _here.comm = comm
