"""C02: storing a grid and reading the file back gives the same grid, after any history."""
import itertools
import os

from mc import mesh, decomp, edits, env
from mc.core import require, Violation
from checks import grids

TITLES = ['t', '', 'a=b c']
VALUES = [0.1, -0.0, 1e-300, -1.7976931348623157e308, 1.0 / 3.0, 5e-324, 123456789.123456789,
          -273.15]


def shards(tier):
    res = []
    for i, (label, fs, pts) in enumerate(grids.pool()):
        n = len(fs)
        if n <= (4 if tier == 'quick' else 6):
            cols = grids.colourings(n, 3)
        else:
            cols = [[0] * n, [j % 2 for j in range(n)], [min(j, 2) for j in range(n)]]
        for k in range(0, len(cols), 10):
            res.append({'mesh': i, 'cols': cols[k:k + 10], 'tier': tier})
    return [{'mesh': i, 'large': z} for i, z in grids.large()] + res


def run_large(shard, R):
    base = {'mesh': shard['mesh'], 'zones': shard['large']}
    names = ['zone{0}'.format(z) for z in sorted(set(base['zones']))]
    eds = R.case(dict(base, menu=True)) or []
    hists = [[]] + [[['d', o]] for o in decomp.menu_large(names, len(base['zones']))]
    hists += [[['e', eds[i * (len(eds) - 1) // 6]] for i in k] for k in ((0,), (3,), (5, 6))]
    for h in hists:
        R.step()
        if R.state((base['mesh'], tuple(base['zones']), repr(h))):
            R.case(dict(base, history=h))


def run_shard(shard, R):
    if 'large' in shard:
        return run_large(shard, R)
    label, fs, pts = grids.get(shard['mesh'])
    n = len(fs)
    tier = shard['tier']
    for ci, col in enumerate(shard['cols']):
        names = ['zone{0}'.format(z) for z in sorted(set(col))]
        hists = [[]]
        if ci == 0 or n <= 2:
            ops = [o for o in decomp.menu(names, n, tier, full=n <= 3)
                   if o[0] != 'random' or len(o[2]) <= 4]
            hists += [[['d', o]] for o in ops]
        if label != 'stack' and (n <= 4 or (ci == 0 and tier != 'quick')):
            # Every single edit, and every edit after which the grid is cut anew.
            base = {'mesh': shard['mesh'], 'zones': col}
            eds = R.case(dict(base, menu=True)) or []
            hists += [[['e', o]] for o in eds]
            if n <= 2:
                hists += [[['e', o], ['d', ['linear', 2]]] for o in eds]
                hists += [[['d', ['linear', 2]], ['e', o]] for o in eds]
        for h in hists:
            R.step()
            c = {'mesh': shard['mesh'], 'zones': col, 'history': h, 'title': len(h) % 3}
            if R.state((label, tuple(col), repr(h))):
                R.case(c)
        for nv in (0, 1, 3):
            c = {'mesh': shard['mesh'], 'zones': col, 'history': [], 'title': nv % 3, 'nv': nv}
            R.step()
            R.state((label, tuple(col), nv))
            R.case(c)


def build(case, d):
    label, fs, pts = grids.get(case['mesh'])
    n = len(fs)
    vars_ = mesh.VARS[:case.get('nv', 9)]
    m = mesh.make(fs, case['zones'], pts, title=TITLES[case.get('title', 0)], vars_=vars_)
    k = 0
    for rows in m['data']:
        for r in rows:
            for j in range(len(r)):
                if k % 3 == 0:
                    r[j] = VALUES[(k // 3) % len(VALUES)]
                k += 1
    return mesh.load_grid(m, d)


def do(g, hist):
    for kind, op in hist:
        if kind == 'd':
            decomp.apply(g, op)
        else:
            edits.apply(g, *op)


def rows(g):
    """Zone by zone: names and faces with data."""
    return [(z.Name, sorted((mesh.rot_min(tuple(mesh.p3(n) for n in f.Nodes)),
                             sorted((k, repr(float(v))) for k, v in f.Data.items()))
                            for f in z.Faces)) for z in g.Zones]


def rows_file(p):
    return [(z['name'], sorted((mesh.rot_min(mesh.tri_of(z, i)),
                                sorted((k, repr(float(v[i]))) for k, v in z['data'].items()))
                               for i in range(len(z['faces'])))) for z in p['zones']]


def run_case(case, R):
    import gsu
    with env.scratch() as d:
        g = build(case, d)
        if case.get('menu'):
            return [o for o in edits.menu(g)]
        try:
            do(g, case['history'])
        except Violation as v:
            if v.key == 'lost' and len(case['history']) > 1:
                return None      # the second edit names an edge that the first one removed
            raise
        snap = mesh.snapshot(g)
        p1 = os.path.join(d, 'o1.dat')
        g.store(p1)
        require(mesh.snapshot(g) == snap, 'storing changed the grid', key='store-side-effect')
        f = mesh.parse_dat(p1)
        require(f['title'] == g.Name, 'title {0!r} stored as {1!r}', g.Name, f['title'],
                key='title')
        require(f['names'][:3] == ['X', 'Y', 'Z'], 'coordinates are not first: {0}', f['names'])
        a, b = rows(g), rows_file(f)
        require([x[0] for x in a] == [x[0] for x in b], 'zones {0} stored as {1}',
                [x[0] for x in a], [x[0] for x in b], key='zones')
        for (nm, x), (_, y) in zip(a, b):
            require(x == y, 'zone {0}: faces {1} are stored as {2}', nm,
                    [q for q in x if q not in y][:2], [q for q in y if q not in x][:2],
                    key='faces')
        for z in f['zones']:
            used = {v for t in z['faces'] for v in t}
            require(len(used) == len(z['points']), 'zone {0}: {1} nodes stored, {2} used',
                    z['name'], len(z['points']), len(used), key='spare-nodes')
        h = gsu.Grid()
        h.load(p1)
        mesh.check_valid(h)
        require(rows(h) == a and h.Name == g.Name, 'reading back gives another grid',
                key='reload')
        require((len(h.Nodes), len(h.Edges), len(h.Faces))
                == (len(g.Nodes), len(g.Edges), len(g.Faces)),
                'reading back gives {0}/{1}/{2} nodes/edges/faces instead of {3}/{4}/{5}',
                len(h.Nodes), len(h.Edges), len(h.Faces), len(g.Nodes), len(g.Edges),
                len(g.Faces), key='reload-counts')
        p2 = os.path.join(d, 'o2.dat')
        h.store(p2)
        require(rows_file(mesh.parse_dat(p2)) == b, 'second storing differs', key='restore')
        R.outcome((len(g.Faces), len(g.Zones)))


def describe(tier):
    return {
        'rule': 'One case = one history (loads, decompositions, edits) followed by store, load, store; the stored file is parsed by an independent strict parser and compared with the grid in memory.',
        'bounds': 'the mesh pool of C01; all zone assignments to <= 3 zones for <= 4 (6) faces; histories of length 0, 1 and (for <= 2 faces) 2 over all decompositions and all atomic edits; 8 extreme float values in data; 0, 1, 3 and 9 variables; 3 titles.',
        'assumptions': ['Cut points of edits do not coincide with an existing node.']}
