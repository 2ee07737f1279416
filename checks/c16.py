"""C16: null-space smoothing moves nodes along the surface only."""
import contextlib
import io
import itertools
import json
import os

import numpy as np

from mc import mesh, env, tong
from mc.core import require
from checks import grids

RINGS = {3: [(2, 0), (-1, 2), (-1, -2)], 4: [(2, 0), (0, 1), (-1, 0), (0, -2)],
         5: [(2, 0), (1, 2), (-1, 1), (-2, -1), (1, -2)],
         6: [(2, 0), (1, 1), (-1, 2), (-2, 0), (-1, -1), (1, -2)]}
OPTS = [dict(st=st, epsilon=e) for st in (0.2, 1.0) for e in (1e-4, 1e-2, 0.3)]
# Only for a few cases: everything is free, nothing moves, steps backwards or too long.
ODD = [dict(st=0.2, epsilon=1.5), dict(st=0.0, epsilon=0.01), dict(st=-0.25, epsilon=0.01), dict(st=1.75, epsilon=0.05)]


def fan(k, hs, closed=True):
    """Surface around node 0 (open: a sector, the node is on the border)."""
    P = [[0.0, 0.0, 0.0]] + [[float(x), float(y), float(h)] for (x, y), h in zip(RINGS[k], hs)]
    n = k if closed else k - 1
    return [[0, 1 + i, 1 + (i + 1) % k] for i in range(n)], P


def small():
    return [i for i, p in enumerate(grids.pool()) if p[0] != 'stack']


def shards(tier):
    deep = tier != 'quick'
    res = [{'kind': 'pool', 'mesh': i, 'deep': deep} for i in small()]
    for k in (3, 4, 5) + ((6,) if deep else ()):
        for first in itertools.product((-1, 0, 1), repeat=2):
            res.append({'kind': 'fan', 'k': k, 'first': first, 'closed': True, 'deep': deep})
            res.append({'kind': 'fan', 'k': k, 'first': first, 'closed': False, 'deep': deep})
    return [{'kind': 'large', 'mesh': i} for i, (label, f, p) in enumerate(grids.big(), grids.BASE)
            if label != 'strip' or deep] + res


def run_shard(s, R):
    if s['kind'] == 'large':
        for k, o in enumerate(OPTS):
            for fix in (False, True):
                for steps in (1, 3):
                    go(R, {'mesh': s['mesh'], 'o': o, 'fix': fix, 'scale': 1.0, 'steps': steps, 'print': False,
                           'zones': 1 + k % 2, 'marked': fix})
    elif s['kind'] == 'pool':
        # One smoother called again, also after an edit of the surface; far from the origin.
        for k, o in enumerate(OPTS + ODD):
            for fix in (False, True):
                for again in (None, 'move', 'divide', 'cut'):
                    go(R, {'mesh': s['mesh'], 'o': o, 'fix': fix, 'scale': 1.0, 'steps': 1 + k % 2, 'print': False,
                           'zones': 2, 'marked': fix, 'again': again, 'off': 0.0 if again else 2.0 ** 12})
        for o in OPTS:
            for fix in (False, True):
                for scale in (1.0, 1e3, 1e-3):
                    for steps in (0, 1, 2, 3) if s['deep'] else (0, 1, 3):
                        for zones in (1, 2):
                            go(R, {'mesh': s['mesh'], 'o': o, 'fix': fix, 'scale': scale, 'steps': steps,
                                   'print': steps == 3 and not fix and scale == 1.0, 'zones': zones,
                                   'marked': fix or zones == 2})
    else:
        for rest in itertools.product((-1, 0, 1), repeat=s['k'] - 2):
            hs = list(s['first']) + list(rest)
            for o in OPTS:
                for steps in (1, 2):
                    for fix in (False, True) if s['deep'] or o == OPTS[1] else (False,):
                        go(R, {'fan': [s['k'], hs, s['closed']], 'o': o, 'fix': fix, 'scale': 1.0,
                               'steps': steps, 'print': False, 'zones': 1 + steps % 2,
                               'marked': fix or steps == 2})


def go(R, c):
    R.step()
    R.state(json.dumps(c, sort_keys=True))
    R.case(c)


def run_case(c, R):
    import gsu
    from smoothing import NullSpaceSmoothing
    if 'fan' in c:
        fs, pts = fan(*c['fan'])
    else:
        label, fs, pts = grids.get(c['mesh'])
    pts = [[x * c['scale'] for x in p] for p in pts]
    with env.scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        # A grid whose coordinates are small is joined by the loader: load it large, then shrink.
        g = mesh.load_grid(mesh.make(fs, [i * 2 // len(fs) % c['zones'] for i in range(len(fs))], [[x / c['scale'] for x in p] for p in pts],
                                     title='g'), d)
        for n in g.Nodes:
            n.P = n.P * c['scale']
        if c.get('off'):
            for n in g.Nodes:
                n.P = n.P + type(n.P)(c['off'], -c['off'], 3 * c['off'])
        if c.get('again'):
            sm = NullSpaceSmoothing(g, c['steps'], fix_boundary_nodes=c['fix'], **c['o'])
            if c['marked']:
                g.mark_all_fixed_nodes()
            if degenerate(g, c, R):
                return True
            sm.smoothing()
            if c['again'] == 'move':
                for i, n in enumerate(g.Nodes):
                    n.P = n.P + type(n.P)(0.0625 * (i % 3), 0.125 * (i % 2), 0.03125 * (i % 5))
            elif c['again'] == 'cut':
                e = min(g.Edges, key=lambda e: (len(e.Faces), sorted(n.GloId for n in e.Nodes)))
                g.cut_edge(e, (e.Nodes[0].P + e.Nodes[1].P) * 0.5)
            else:
                f = max(g.Faces, key=lambda f: f.GloId)
                g.divide_face(f, sum((n.P for n in f.Nodes), start=type(f.Nodes[0].P)()) / 3)
        idx = {id(n): i for i, n in enumerate(g.Nodes)}
        start = [mesh.p3(n) for n in g.Nodes]
        faces = [[idx[id(n)] for n in f.Nodes] for f in g.Faces]
        if c['marked']:
            # Marks alone do not fix anything.
            g.mark_all_fixed_nodes()
        data = [(f.GloId, f.Zone.Name, dict(f.Data)) for f in g.Faces]
        # Model over unit coordinates: the smoothing does not depend on units.
        m = tong.Model([tuple(x / c['scale'] for x in p) for p in start], faces, [0] * len(faces))
        first = None
        try:
            for k in range(c['steps']):
                m.nss(c['o']['epsilon'], c['o']['st'], c['fix'])
        except tong.Degenerate:
            R.count('rank is not clear')
            return True
        before = os.listdir(d)
        old = os.getcwd()
        os.chdir(d)
        try:
            if not c.get('again'):
                sm = NullSpaceSmoothing(g, c['steps'], fix_boundary_nodes=c['fix'],
                                        print_intermediate_steps=c['print'], **c['o'])
            sm.smoothing()
        finally:
            os.chdir(old)
        got = [mesh.p3(n) for n in g.Nodes]
        for i, (a, b, w) in enumerate(zip(start, got, m.P)):
            require(all(abs(x - y * c['scale']) <= 1e-7 * c['scale'] for x, y in zip(b, w)),
                    'node {0} moves from {1} to {2} instead of {3}', i, a, b,
                    [x * c['scale'] for x in w], key='position')
            if c['steps'] == 1:
                free(a, b, [f for f in faces if i in f], start, c)
            if c['fix'] and i in m.border:
                require(a == b, 'border node {0} moves', i, key='border')
        require([(f.GloId, f.Zone.Name, dict(f.Data)) for f in g.Faces] == data and
                [[idx[id(n)] for n in f.Nodes] for f in g.Faces] == faces, 'faces changed', key='faces')
        if not c['print']:
            require(os.listdir(d) == before, 'files left: {0}', os.listdir(d), key='files')
        else:
            require(len([x for x in os.listdir(d) if '_smoothing_' in x]) == c['steps'],
                    'intermediate grids', key='intermediate')
        R.outcome((c['steps'], tuple(sorted(round(np.linalg.norm(np.subtract(a, b)), 3)
                                            for a, b in zip(start, got)))[-2:]))
    return True


def degenerate(g, c, R):
    idx = {id(n): i for i, n in enumerate(g.Nodes)}
    m = tong.Model([mesh.p3(n) for n in g.Nodes], [[idx[id(n)] for n in f.Nodes] for f in g.Faces], [0] * len(g.Faces))
    try:
        for k in range(c['steps']):
            m.nss(c['o']['epsilon'], c['o']['st'], c['fix'])
    except tong.Degenerate:
        R.count('rank is not clear')
        return True
    return False


def free(a, b, fs, P, c):
    """A step does not leave the planes of faces by more than epsilon allows."""
    shift = np.subtract(b, a)
    l2 = shift @ shift
    if l2 <= (1e-9 * c['scale'] + 1e-12 * max(abs(x) for x in a)) ** 2:
        return
    A = np.zeros((3, 3))
    for f in fs:
        x, y, z = (np.array(P[v]) for v in f)
        n = np.cross(y - x, z - x)
        s = np.linalg.norm(n)
        A += np.outer(n, n) / s
    lim = c['o']['epsilon'] * np.linalg.norm(A, 2) * 1.001
    require(shift @ A @ shift <= lim * l2, 'node at {0} leaves the surface by {1}', a, shift,
            key='leaves')


def describe(tier):
    return {
        'rule': 'One case = smoothing of one surface with one set of options; all nodes are compared '
                'with a model and each shift is tested against planes of faces around the node.',
        'bounds': 'Mesh pool of C01 in 3 scales, grids of 54..264 faces, all fans of 3 to 5 (thorough: 6) faces around a node '
                  'with heights over {-1,0,1}, inner and border; epsilon over 3 values, st over 2, '
                  'both modes of the border, smoothers called again on a moved or edited surface, surfaces far from the origin, marks without fixing, one and two zones, 0 to 3 steps.',
        'assumptions': ['Cases in which an eigenvalue is equal to the threshold up to rounding are '
                        'counted, not compared.']}
