"""C30: arrays, result files and queries of a grid agree with its faces after any history."""
import itertools
import math
import os

from mc import mesh, env, edits
from mc.core import require
from checks import grids

STALL = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'] + STALL
ARRAY = ['GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', None, None, 'TauX', 'TauY', 'TauZ', None]
HEADS = [['T', 'Hw', 'Hi'], ['Hi', 'Beta', 'T'], ['Vd2'], ['Hw', 'T', 'Hi', 'TauX', 'HTC', 't', 'Mass']]


def shards(tier):
    deep = tier != 'quick'
    res = []
    for mi in range(len(grids.pool())):
        n = len(grids.get(mi)[1])
        cols = grids.colourings(n, 3)
        lim = 60 if deep else 8
        cols = cols[::max(1, len(cols) // lim)][:lim]
        res.append({'mesh': mi, 'cols': cols, 'depth': (2 if n <= 4 else 1) if deep else 2 if n <= 2 else 1})
    return [{'mesh': i, 'cols': [z], 'depth': int(len(z) < 500)}
            for i, z in grids.large() if len(z) < 500 or max(z)] + res


def run_shard(s, R):
    fs, pts = grids.get(s['mesh'])[1:]
    for i, col in enumerate(s['cols']):
        todo = [[]]
        while todo:
            h = todo.pop()
            c = {'mesh': s['mesh'], 'zones': col, 'history': h, 'row': (i + len(h)) % 4}
            R.step()
            R.state(repr(c))
            more = R.case(c)
            if more and len(h) < s['depth'] and (i < 3 or not h):
                todo += [h + [op] for op in (more if s['mesh'] < grids.BASE else more[::len(more) // 6])]


def run_case(c, R):
    import gsu
    _, fs, pts = grids.get(c['mesh'])
    with env.scratch() as d:
        m = mesh.make(fs, c['zones'], pts, vars_=VARS, title='g')
        g = mesh.load_grid(m, d)
        for op in c['history']:
            if edits.apply(g, *op) is False:
                return None
        more = [[o[0], o[1]] for o in edits.menu(g)]
        # Data by identifier, from here on.
        for k, f in enumerate(sorted(g.Faces, key=lambda f: f.GloId)):
            for j, v in enumerate(VARS):
                f[v] = 8.0 * k + 0.25 * j
            # Another variable, whatever its name is like.
            f['t'], f['hw'] = -3.0, -5.0
        queries(g, c)
        arrays(g)
        files(g, c, d)
        fields(g, c)
    R.outcome((len(g.Faces), len(g.Zones), len(c['history'])))
    return more


def value(k, v):
    return 8.0 * k + 0.25 * VARS.index(v)


def arrays(g):
    import numpy as np
    for z in g.Zones:
        a = z.coords_np_array()
        want = [mesh.p3(n) for n in z.Nodes]
        require(a.shape == (len(want), 3) and a.dtype == np.float64 and [tuple(r) for r in a.tolist()] == want,
                'coordinates of zone {0}', z.Name, key='coords')
        a = z.variables_np_array()
        require(a.shape == (len(z.Faces), 12) and a.dtype == np.float64, 'shape of variables {0}', a.shape,
                key='variables')
        for j, v in enumerate(ARRAY):
            if v:
                want = [float(f.GloId) if v == 'GloId' else value(f.GloId, v) for f in z.Faces]
                require(a[:, j].tolist() == want, 'column {0} of zone {1}: {2} instead of {3}', v, z.Name,
                        a[:, j].tolist(), want, key='variables')
        a = z.connectivity_list_faces_nodes()
        require(a.tolist() == [[n.GloId for n in f.Nodes] for f in z.Faces], 'links of zone {0}', z.Name, key='links')
        for v in VARS:
            a = z.get_variable(v)
            require(isinstance(a, np.ndarray) and a.tolist() == [value(f.GloId, v) for f in z.Faces],
                    'variable {0} of zone {1}', v, z.Name, key='variable')
        require(z.get_variable('no such field').tolist() == [0.0] * len(z.Faces), 'a variable that is not there', key='variable')
        a[:] = -1.0
        require(all(f[VARS[-1]] == value(f.GloId, VARS[-1]) for f in z.Faces), 'array is not a copy', key='copy')


def queries(g, c):
    import geom
    import gsu
    ts = g.get_triangles_list()
    require(len(ts) == len(g.Faces) and all(t.BackRef is f for t, f in zip(ts, g.Faces)), 'triangles', key='triangles')
    by = {}
    for n in g.Nodes:
        by.setdefault(mesh.rnd(mesh.p3(n), 10), n)
    for t, f in zip(ts, g.Faces):
        ps = [mesh.p3(n) for n in f.Nodes]
        require([p.coords_tuple() for p in t.Points] == ps, 'triangle of face {0}', f.GloId, key='triangles')
        require(all(abs(x - sum(y) / 3) <= 1e-12 * (1 + abs(x)) for x, y in zip(tuple(f.get_center()), zip(*ps))),
                'centre of face {0}', f.GloId, key='centre')
        long = max(math.dist(p, q) for p, q in itertools.combinations(ps, 2))
        e = f.max_edge_from_face()
        require(any(e is x for x in f.Edges) and abs(math.dist(*(mesh.p3(n) for n in e.Nodes)) - long) <= 1e-9 * long,
                'longest edge of face {0}', f.GloId, key='longest')
        # Triangles are copies: one that moves takes no node along.
        t.Points[0].X += 1.0
        require([mesh.p3(n) for n in f.Nodes] == ps, 'triangle shares its points with the grid', key='copy')
    for n in g.Nodes:
        p = mesh.p3(n)
        for d in ((0, 0, 0), (1e-12, 0, -1e-12)):
            q = geom.Vect(*(x + y for x, y in zip(p, d)))
            got = g.find_near_node(gsu.Node(q))
            require(got is by[mesh.rnd(p, 10)] or got is not None and mesh.rnd(mesh.p3(got), 10) == mesh.rnd(p, 10),
                    'node near {0}', p, key='near')
        for d in ((1e-3, 0, 0), (0, -1e-3, 0), (0, 0, 50.0)):
            q = tuple(x + y for x, y in zip(p, d))
            got = g.find_near_node(gsu.Node(geom.Vect(*q)))
            require((got is None) == (mesh.rnd(q, 10) not in by), 'a node near {0}: {1}', q, got, key='near')
    pairs = {frozenset(id(n) for n in e.Nodes): e for e in g.Edges}
    for a, b in itertools.permutations(g.Nodes, 2):
        require(gsu.Grid.find_edge(a, b) is pairs.get(frozenset((id(a), id(b)))), 'edge {0} {1}', a.GloId, b.GloId,
                key='edge')
    # Marks of borders: once is enough.
    border = {id(n) for e in g.Edges if len(e.Faces) == 1 for n in e.Nodes}
    for _ in range(2):
        g.mark_all_fixed_nodes()
        require(all(bool(n.border) == (id(n) in border) for n in g.Nodes) and g.number_of_border_nodes == len(border),
                'border nodes', key='border')
    for fix in itertools.product((False, True), repeat=len(g.Zones)):
        for z, x in zip(g.Zones, fix):
            z.IsFixed = x
        require(g.faces_count_in_fixed_zones() == sum(len(z.Faces) for z in g.Zones if z.IsFixed) and
                g.faces_count_in_zones() == len(g.Faces), 'faces in fixed zones', key='fixed')
    for z in g.Zones:
        z.IsFixed = False


def files(g, c, d):
    # What is stored: each face under its identifier (noise below 1 is added to three values).
    p = os.path.join(d, 'calc.txt')
    g.store_faces_calc_data(p)
    lines = open(p).read().split('\n')
    require(lines[0] == 'VARIABLES="GloId", "T", "Hw", "Hi"' and lines[-1] == '', 'head of results', key='stored')
    rows = [x.split() for x in lines[1:-1]]
    require(sorted(int(r[0]) for r in rows) == list(range(len(g.Faces))), 'faces in results', key='stored')
    for r in rows:
        require(len(r) == 4 and all(-1e-9 <= float(x) - value(int(r[0]), v) <= 1 + 1e-9
                                    for x, v in zip(r[1:], ('T', 'Hw', 'Hi'))), 'row {0}', r, key='stored')
    before = {f.GloId: dict(f.Data) for f in g.Faces}
    g.load_faces_calc_data(p)
    got = {f.GloId: f for f in g.Faces}
    for r in rows:
        require([got[int(r[0])][v] for v in ('T', 'Hw', 'Hi')] == [float(x) for x in r[1:]],
                'values of face {0} after a round trip', r[0], key='round')
    for f in g.Faces:
        f.Data = dict(before[f.GloId])
    # Rows in any order, for some faces only, with any variables.
    ids = sorted(before)
    some = {0: ids, 1: ids[::-1], 2: ids[1::2] + ids[:1], 3: ids[:-1]}[c['row']]
    for head in HEADS:
        with open(p, 'w') as f:
            f.write('VARIABLES="GloId", {0}\n'.format(', '.join('"%s"' % v for v in head)))
            for i in some:
                f.write(' '.join([str(i)] + ['{0:.18e}'.format(1000.0 + 10 * i + k) for k in range(len(head))]) + '\n')
        g.load_faces_calc_data(p)
        for f in g.Faces:
            if f.GloId in some:
                require([f[v] for v in head] == [1000.0 + 10 * f.GloId + k for k in range(len(head))],
                        'face {0} got the values of another one', f.GloId, key='loaded')
            else:
                require(f.Data == before[f.GloId], 'face {0} is not in the file and changed', f.GloId, key='others')
        for f in g.Faces:
            f.Data = dict(before[f.GloId])


def fields(g, c):
    keep = {f.GloId: dict(f.Data) for f in g.Faces}
    at = [tuple(mesh.p3(n) for n in f.Nodes) for f in g.Faces]
    first, second = (g.clean_t_hw_hi, g.convert_grid_stall_to_check_point)[::1 if c['row'] % 2 else -1]
    first()
    second()
    for f in g.Faces:
        want = {k: 0.0 if k in ('T', 'Hw', 'Hi') else v for k, v in keep[f.GloId].items() if k not in STALL}
        require(f.Data == want, 'fields of face {0}: {1}', f.GloId, f.Data, key='fields')
        require(f['no such field'] == 0.0 and 'no such field' not in f.Data, 'a field that is not there', key='fields')
    require([tuple(mesh.p3(n) for n in f.Nodes) for f in g.Faces] == at, 'nodes changed', key='fields')


def describe(tier):
    return {'rule': 'One state = a bounded grid, zones and a history of edits; arrays of zones, triangles, searches, '
                    'marks, result files (written, read back, read in any order) and cleaned fields are compared '
                    'with faces one by one.',
            'bounds': {'grids': len(grids.pool()), 'large grids': '4 (54..1080 faces), 1 or 13 zones, one edit', 'edits': '<= 2', 'zones': '<= 3'},
            'assumptions': ['Columns of the array of variables that the grid keeps no values for are not looked at.']}
