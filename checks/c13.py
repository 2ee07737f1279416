"""C13: the parallel program gives every face on the root the value its process computed."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import mesh, env, mpi, crysmod
from mc.core import require, Violation
from checks import grids

CASE_LIMIT_S = 120
_kernel = None
_code = None


def build_kernel():
    """The native kernel, built from the sources in a scratch directory with their Makefile."""
    d = os.path.join(env.scratch_root(), 'kernel')
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(env.CODE, 'cpp'), os.path.join(d, 'cpp'))
        for f in os.listdir(os.path.join(d, 'cpp', 'src')):
            if f.endswith(('.o', '.d')):
                os.remove(os.path.join(d, 'cpp', 'src', f))
        import numpy
        cf = subprocess.run([sys.executable, '-c', 'import sysconfig;'
                             'print(sysconfig.get_paths()["include"])'], capture_output=True,
                            text=True).stdout.strip()
        r = subprocess.run(['make', '-C', os.path.join(d, 'cpp'),
                            'ADDFLAGS=-I{0} -I{1}'.format(numpy.get_include(), cf)],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('the kernel cannot be built: ' + r.stdout[-500:] + r.stderr[-1500:])
        shutil.copy(os.path.join(d, 'cpp', 'src', 'swim.py'), d)
    return d


def kernel():
    global _kernel
    if _kernel is None:
        d = build_kernel()
        sys.path.insert(0, d)
        saved = sys.modules.pop('swim', None)
        import swim
        require(os.path.realpath(swim.__file__).startswith(os.path.realpath(d)), 'harness: kernel')
        sys.path.remove(d)
        _kernel = swim.hi
        sys.modules.pop('swim')
        if saved is not None:
            sys.modules['swim'] = saved
    return _kernel


def shards(tier):
    build_kernel()
    res = []
    for i, (label, fs, pts) in enumerate(grids.pool()):
        n = len(fs)
        if tier == 'quick' and n > 6 and label not in ('octa', 'band3'):
            continue
        for size in range(1, min(n, 4 if tier == 'quick' else 6) + 1):
            res.append({'mesh': i, 'size': size})
    return [{'mesh': grids.BASE + i, 'size': k} for i, k in ((0, 11), (1, 13), (2, 12), (3, 12))] + res


def run_shard(shard, R):
    label, fs, pts = grids.get(shard['mesh'])
    n = len(fs)
    cols = [[0] * n] + ([[i % 2 for i in range(n)]] if n > 1 else [])
    size = shard['size']
    orders = list(itertools.permutations(range(size))) if size < 8 else \
        [list(range(size)), list(range(size))[::-1]]
    if len(orders) > 6:
        orders = [orders[0], orders[-1]] + orders[5::17][:2]
    for col in cols:
        for order in orders:
            for eager in (True, False):
                R.step()
                c = {'mesh': shard['mesh'], 'zones': col, 'size': size, 'order': list(order),
                     'eager': eager, 'real': False}
                R.state(repr(c))
                R.case(c)
        if n <= 6 and label != 'stack':
            c = {'mesh': shard['mesh'], 'zones': col, 'size': size, 'order': list(orders[0]),
                 'eager': True, 'real': True}
            R.step()
            R.state(repr(c))
            R.case(c)


class Recorder:
    """Stands where the remesher is called."""
    calls = []

    def __init__(self, *a, **k):
        pass

    def __call__(self, grid):
        Recorder.calls.append({f.GloId: (dict(f.Data), tuple(mesh.p3(n) for n in f.Nodes))
                               for f in grid.Faces})


def run_case(case, R):
    global _code
    import numpy as np
    import remeshing
    import gsu
    if _code is None:
        p = os.path.join(env.CODE, 'crys.py')
        with open(p) as f:
            _code = compile(f.read(), p, 'exec')
    hi = kernel()
    label, fs, pts = grids.get(case['mesh'])
    m = mesh.make(fs, case['zones'], pts, title='g')
    small = 1.0 / 1024 if case['real'] else 1.0
    for rows in m['data']:
        for r in rows:
            r[3] *= small
            if not case['real'] and int(r[0]) % 3 == 1:
                # No ice at the end.
                r[3] = -2.0
    calls = Recorder.calls = []
    # What the program computes in every face, one face at a time.
    want = {}
    i = 0
    for z, rows in zip(m['zones'], m['data']):
        for t, r in zip(z['faces'], rows):
            a = [np.array([x]) for x in (r[1], r[3], r[2])]
            hi(*a)
            want[i] = (float(a[1][0]), tuple(mesh.rnd(m['points'][v]) for v in t), r)
            i += 1
    with env.scratch() as d:
        os.makedirs(os.path.join(d, 'cases', 'grids'))
        os.makedirs(os.path.join(d, 'work'))
        mesh.write_dat(m, os.path.join(d, 'cases', 'grids', 'bunny.dat'))
        with open(os.path.join(d, 'cases', 'grids', 'bunny.json'), 'w') as f:
            json.dump({}, f)
        cwd = os.getcwd()
        real = remeshing.TongRemesher
        os.chdir(os.path.join(d, 'work'))
        if not case['real']:
            remeshing.TongRemesher = Recorder
        try:
            def body(comm):
                crysmod.enter(comm)
                exec(_code, {'__name__': '__main__', '__file__': os.path.join(env.CODE, 'crys.py')})

            def finished(w):
                for q in w.msgs:
                    require(q.recv is not None, 'lost message', key='lost-message')
                for q in w.requests:
                    require(q.waited, 'open request of rank {0}', q.r, key='open-request')
            with crysmod.stubs(hi):
                ex, st, races = mpi.dpor(
                    lambda: mpi.World(case['size'], body, lambda r: None, case['eager']),
                    finished, case['order'])
            R.count('MPI steps', st)
        finally:
            remeshing.TongRemesher = real
            os.chdir(cwd)
        out = mesh.parse_dat(os.path.join(d, 'remeshed.dat'))
        if not case['real']:
            require(len(calls) == ex, 'remeshing runs {0} times', len(calls), key='once')
            got = calls[-1]
            require(sorted(got) == sorted(want), 'faces {0}', sorted(got), key='faces')
            for i, (h, tri, row) in want.items():
                data, pts_ = got[i]
                require(mesh.rot_min(tuple(mesh.rnd(p) for p in pts_)) == mesh.rot_min(tri),
                        'face {0} moved', i, key='geometry')
                require(data['Hi'] == h, '{0} processes: face {1} has ice {2} on the root, its '
                        'process computed {3}', case['size'], i, data['Hi'], h, key='value')
            where = {mesh.rot_min(t): i for i, (h, t, r) in want.items()}
            n = 0
            for z in out['zones']:
                for k in range(len(z['faces'])):
                    i = where[mesh.rot_min(tuple(mesh.rnd(p) for p in mesh.tri_of(z, k)))]
                    require(z['data']['Hi'][k] == want[i][0], 'stored face {0}: ice {1}', i,
                            z['data']['Hi'][k], key='stored')
                    n += 1
            require(n == len(want), '{0} faces stored', n, key='stored-count')
        else:
            # The same remeshing without any parallelism.
            g = gsu.Grid()
            g.load(os.path.join(d, 'cases', 'grids', 'bunny.dat'))
            for f in g.Faces:
                f.Data['Hi'] = want[f.GloId][0]
            real('x.dat', None, d)(g)
            a = {f.GloId: [x for p in mesh.rot_min(tuple(mesh.p3(n) for n in f.Nodes)) for x in p]
                 for f in g.Faces}
            n = 0
            for z in out['zones']:
                for k in range(len(z['faces'])):
                    i = int(z['data']['GloId'][k])
                    t = mesh.tri_of(z, k)
                    near = min(max(abs(x - y) for x, y in zip(a[i], [c for p in q for c in p]))
                               for q in (t, t[1:] + t[:1], t[2:] + t[:2]))
                    require(near < 1e-6, 'after parallel remeshing face {0} is {1} instead of {2}',
                            i, t, a[i], key='remeshed')
                    n += 1
            require(n == len(a), '{0} faces stored', n, key='stored-count')
        R.outcome((case['size'], len(want), case['real']))
    return True


def describe(tier):
    return {
        'rule': 'One case = the complete main program on every rank of an emulated MPI (real '
                'splitting, the compiled kernel, exchange, gathering, storing); what reaches the '
                'remesher and the stored file is compared face by face with a computation without '
                'parallelism.',
        'bounds': 'meshes of <= 6 (12) faces plus octahedron and band, 1..4 (6) processes; 4 large grids '
                  '(54..1080 faces) with 11..13 processes; 2 '
                  'zonings of the input, up to 6 orders of ranks, buffered and rendezvous sends '
                  '(late completion; races on send buffers branch).',
        'assumptions': ['multiprocessing.Pool is replaced by a loop, mpi4py by the emulation.']}
