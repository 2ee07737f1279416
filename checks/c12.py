"""C12: exchange between processes delivers the values of the neighbours under every schedule."""
import itertools

import numpy as np

from mc import mesh, env, mpi, crysmod
from mc.core import require, Violation
from checks import grids

VARS = ['T', 'Hi', 'Hw']
CASE_LIMIT_S = 450


def topologies(tier):
    """(mesh, zones) so that all small neighbourhoods appear."""
    P = grids.pool()
    seen = {}
    for i, (label, fs, pts) in enumerate(P):
        n = len(fs)
        if n < 2 or n > (6 if tier == 'quick' else 8) or label == 'stack':
            continue
        by = {}
        for k, f in enumerate(fs):
            for p in itertools.combinations(sorted(f), 2):
                by.setdefault(p, []).append(k)
        for col in grids.colourings(n, 4):
            nz = max(col) + 1
            if nz < 2:
                continue
            w = {}
            shared = 0
            for p, x in by.items():
                if len(x) == 2 and col[x[0]] != col[x[1]]:
                    k = tuple(sorted((col[x[0]], col[x[1]])))
                    w[k] = w.get(k, 0) + 1
            # Does one face see the same or several neighbours through several edges?
            multi = []
            for k in range(n):
                to = [col[x[0] if x[1] == k else x[1]] for p, x in by.items()
                      if len(x) == 2 and k in x and col[x[0]] != col[x[1]]]
                multi.append((col[k], tuple(sorted(to))))
            key = (nz, tuple(sorted(w.items())), tuple(sorted(multi)))
            if key not in seen:
                seen[key] = (i, col, w)
    return list(seen.values())


def shards(tier):
    res, big = [], []
    done = {}
    for mi, col, w in topologies(tier):
        nz, links = max(col) + 1, len(w)
        for eager in (True, False):
            base = {'mesh': mi, 'zones': col, 'eager': eager}
            res.append(dict(base, steps=4, mode='dpor'))
            # Complete exploration where the messages in flight allow it.
            kind = (nz, links)
            done[kind] = done.get(kind, 0) + 1
            if kind == (2, 1):
                steps = 3 if done[kind] <= 4 or tier != 'quick' else 2
                res.append(dict(base, steps=steps, mode='all'))
            elif kind == (3, 2) and done[kind] <= (4 if tier == 'quick' else 12):
                big.append(dict(base, steps=1, mode='all'))
    res.sort(key=lambda c: c['mode'] == 'dpor')
    big += [{'mesh': i, 'zones': z, 'eager': eager, 'steps': 4, 'mode': 'dpor'}
            for i, z in grids.large(kmax=12) if max(z) for eager in (True, False)]
    return [{'list': [c]} for c in big] + [{'list': res[i:i + 10]} for i in range(0, len(res), 10)]


def run_shard(shard, R):
    for c in shard.get('list', [shard]):
        R.case(c)


_grids = {}


def grid_of(case, rank):
    k = (case['mesh'], tuple(case['zones']), rank)
    if k not in _grids:
        if len(_grids) > 16:
            _grids.clear()
        label, fs, pts = grids.get(case['mesh'])
        with env.scratch() as d:
            g = mesh.load_grid(mesh.make(fs, case['zones'], pts, vars_=['T', 'Hi', 'Hw', 'HTC']), d)
        _grids[k] = (g, [(f, f.Zone) for f in g.Faces])
    return _grids[k]


def val(face, var, step):
    """What a face has at a step: all different but some zeros."""
    if (face + step) % 4 == 1:
        return 0.0
    return face * 64.0 + VARS.index(var) * 16.0 + step + 0.25


def make_world(case):
    from gsu.zones_adjacency_matrix import ZonesAdjacencyMatrix
    nz = max(case['zones']) + 1
    mem = [None] * nz

    def body(comm):
        r = comm.Get_rank()
        mod = crysmod.rank_module(r)
        g, zones = grid_of(case, r)
        for f, z in zones:
            f.Zone = z
            f.Data = {v: -1.0 - f.GloId for v in VARS + ['HTC']}
        z = g.Zones[r]
        mod.comm, mod.g, mod.z, mod.root, mod.rank, mod.size = comm, g, z, 0, r, nz
        borders = mod.get_mpi_borders(r, ZonesAdjacencyMatrix(g.Edges, g.Zones), z, g)
        near = {}
        for e in g.Edges:
            if len(e.Faces) == 2:
                a, b = e.Faces
                if (a.Zone is z) != (b.Zone is z):
                    o = a if b.Zone is z else b
                    near[o.GloId] = o
        width = max([len(v) for v in borders.values()], default=0)
        send, recv = np.empty((len(borders), width)), np.empty((len(borders), width))
        send[:] = -5.0
        recv[:] = -6.0
        mem[r] = (g, send, recv)
        for f in z.Faces:
            f.Zone = z.Id
        own = list(z.Faces)
        known = {f.GloId: dict(f.Data) for f in g.Faces}
        for s in range(case['steps']):
            v = VARS[s % 3]
            for f in own:
                f.Data[v] = val(f.GloId, v, s)
                known[f.GloId][v] = f.Data[v]
            mod.exchange(borders, send, recv, v)
            for i in near:
                known[i][v] = val(i, v, s)
            for f in g.Faces:
                require(dict(f.Data) == known[f.GloId],
                        'rank {0}, exchange {1} of {2}: face {3} has {4}, expected {5}', r, s, v,
                        f.GloId, dict(f.Data), known[f.GloId], key='values')
        # The buffers belong to the caller again.
        send[:] = -7.0
        recv[:] = -8.0

    def local(r):
        if mem[r] is None:
            return None
        g, a, b = mem[r]
        return (a.tobytes(), b.tobytes(), [tuple(f.Data.values()) for f in g.Faces])
    return mpi.World(nz, body, local, case['eager'])


def finished(w):
    for m in w.msgs:
        require(m.recv is not None, 'a message from {0} to {1} is never received', m.src, m.dst,
                key='lost-message')
    for v in w.recvs:
        require(v.done, 'rank {0} leaves while its receive from {1} is open', v.dst, v.src,
                key='open-receive')
    for q in w.requests:
        require(q.waited, 'rank {0} leaves a {1} without completing it', q.r,
                type(q.obj).__name__, key='open-request')


def run_case(case, R):
    nz = max(case['zones']) + 1
    if case['mode'] == 'all':
        ex, st, tr = mpi.explore(lambda: make_world(case), finished, R)
        for i in range(st):
            R.state((repr(case), i))
        R.step(tr)
        R.count('executions of complete explorations', ex)
        R.outcome(('all', nz, case['steps']))
        return True
    if nz > 6:
        perms = [tuple(range(nz)), tuple(range(nz))[::-1], tuple(i * 5 % nz for i in range(nz))]
    else:
        perms = list(itertools.permutations(range(nz)))
    if len(perms) > 6:
        perms = perms[::5]
    for order in perms:
        ex, st, races = mpi.dpor(lambda: make_world(case), finished, list(order))
        R.step(st)
        R.state((repr(case), order))
        R.count('executions of reduced explorations', ex)
        R.count('races', races)
        R.outcome(('dpor', nz, ex))
    return True


def describe(tier):
    return {
        'rule': 'States are global states (position of every rank, memory of every rank, status of '
                'every message) of an emulated MPI in which the real exchange code of every rank '
                'runs; for complete explorations every enabled step is taken in every state, for '
                'reduced ones a state is a class of schedules that differ in the order of '
                'commuting steps.',
        'bounds': 'all different neighbourhoods of 2..4 zones that meshes of <= 6 (8) faces have '
                  '(counts of shared edges, faces with several foreign edges), 4 exchanges of 3 '
                  'variables (zeros among the values) with buffers used again, buffered and rendezvous sends; complete '
                  'exploration for pairs of zones (3 or 2 exchanges) and chains of three zones '
                  '(1 exchange); 2, 6 or 5 orders of ranks in the reduced ones; 12 zones of large grids (54..1080 faces), 3 orders of ranks.',
        'assumptions': ['Own faces carry the number of their zone during exchanges, as the main '
                        'program arranges.',
                        'The emulated MPI follows the standard: no order between messages but '
                        'non-overtaking, buffers belong to MPI until completion.']}
