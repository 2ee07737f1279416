"""Helpers for demonstrations: write small grid files, set up the path."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

repo = sys.argv[1]
for sub in ('crysgsu', 'crysgsu/convert'):
    sys.path.insert(0, os.path.join(repo, sub))
sys.path.insert(0, os.path.join(repo, 'crysgsu'))
import geom          # noqa
import gsu           # noqa

tmp = tempfile.mkdtemp(prefix='demo_')


def fail(text):
    print('FAILED:', text)
    shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(1)


def done():
    shutil.rmtree(tmp, ignore_errors=True)
    print('ok')
    sys.stdout.flush()
    os._exit(0)


def path(name):
    return os.path.join(tmp, name)


def write(name, zones, variables=('T', 'Hw', 'Hi'), title='demo', data=None):
    """zones: list of (name, points, faces with 0-based local numbers)."""
    g = 0
    with open(path(name), 'w') as f:
        f.write('# demo\nTITLE="{0}"\n'.format(title))
        f.write('VARIABLES={0}\n'.format(', '.join('"%s"' % v for v in ['X', 'Y', 'Z'] + list(variables))))
        for zn, pts, faces in zones:
            f.write('ZONE T="{0}"\nNODES={1}\nELEMENTS={2}\nDATAPACKING=BLOCK\n'
                    'ZONETYPE=FETRIANGLE\nVARLOCATION=([4-{3}]=CELLCENTERED)\n'
                    .format(zn, len(pts), len(faces), 3 + len(variables)))
            for k in range(3):
                f.write(' '.join(repr(float(p[k])) for p in pts) + '\n')
            for j, v in enumerate(variables):
                f.write(' '.join(repr(float(data(g + i, v) if data else 10 * (g + i) + j))
                                 for i in range(len(faces))) + '\n')
            for t in faces:
                f.write(' '.join(str(i + 1) for i in t) + '\n')
            g += len(faces)
    return path(name)


def strip(n, k=None):
    """A flat strip of n triangles: points and faces."""
    pts = [((i // 2), (i % 2), 0.0) for i in range(n + 2)]
    faces = [(i, i + 1, i + 2) if i % 2 else (i, i + 2, i + 1) for i in range(n)]
    return pts, faces


def grid(fn, merge=True):
    g = gsu.Grid()
    with contextlib.redirect_stdout(io.StringIO()):
        g.load(fn, is_merge_same_nodes=merge)
    return g


def quiet():
    return contextlib.redirect_stdout(io.StringIO())
