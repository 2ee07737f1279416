"""
Running the scripts of the code under test as from the command line: in this process, and as a process
of its own the first time a worker uses a script with a set of options.
"""
import contextlib
import io
import os
import runpy
import subprocess
import sys

from . import env


class Result:
    def __init__(self, out, err, code, exc):
        self.out, self.err, self.code, self.exc = out, err, code, exc

    @property
    def failed(self):
        return self.exc is not None or self.code not in (None, 0)


SEEN = set()


def run(script, args, cwd=None):
    """Run a script (path relative to the code) with arguments."""
    path = os.path.join(env.CODE, script)
    key = (script, tuple(sorted(a for a in map(str, args) if a.startswith('-'))))
    if key not in SEEN:
        SEEN.add(key)
        e = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', path] + [str(a) for a in args],
                           cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors='replace')
        exc = None
        if r.returncode:
            exc = RuntimeError((r.stderr.strip().split('\n') or [''])[-1])
        return Result(r.stdout, r.stderr, r.returncode, exc)
    argv, here, sp = sys.argv, os.getcwd(), list(sys.path)
    out, err = io.StringIO(), io.StringIO()
    code, exc = None, None
    sys.argv = [path] + [str(a) for a in args]
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(path, run_name='__main__')
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) or e.code is None else 1
    except Exception as e:
        exc = e
    finally:
        sys.argv = argv
        os.chdir(here)
        sys.path[:] = sp
    return Result(out.getvalue(), err.getvalue(), code, exc)
