"""C22: values go from the nearest face of one surface to each face of another."""
import itertools
import json
import os

from mc import mesh, env, cli
from mc.core import require

VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
SETS = [VARS, ['Beta', 'Hi', 'Hw', 'GloId', 'T'], ['Hw', 'T', 'Beta']]
# Displacement and size of the second surface with respect to the first.
MOVES = [(0, 0, 0, 1), (0.25, 0.1, 0, 1), (0.3, 0.4, 0.5, 1), (-1, 0.3, 0.05, 2.5), (5, 7, 1, 0.3), (100, 0, 0, 1)]
# Units of length, for both surfaces.
UNITS = [1.0, 1e-4, 1e-7, 1e5]
ROUTES = ['interpolate', 'beta']


def shapes():
    res = {}
    for nx, ny in ((1, 1), (2, 1), (3, 2), (4, 4), (6, 5)):
        f, p = mesh.rect(nx, ny)
        res['rect{0}{1}'.format(nx, ny)] = (f, [[x, y, 0.1 * x * x - 0.05 * x * y] for x, y, _ in p])
    for n, (f, p) in (('tetra', mesh.tetra()), ('octa', mesh.octa()), ('cube', mesh.cube()),
                      ('band', mesh.band(12, 2))):
        res[n] = (f, p)
    # Two sheets close to each other: the nearest face may be on another sheet or in another zone.
    f, p = mesh.rect(3, 3)
    k = len(p)
    res['sheets'] = (f + [[a + k, b + k, c + k] for a, b, c in f], p + [[x, y, 0.2 + 0.1 * x] for x, y, _ in p])
    # One long face next to many small ones: the nearest centre is not the face below.
    res['uneven'] = ([[0, 1, 2], [1, 3, 2], [3, 4, 2], [3, 5, 4]],
                     [[0, 0, 0], [9, 0, 0], [0, 3, 0], [9, 3, 0], [4, 4, 0], [9, 4, 0]])
    res['one'] = ([[0, 1, 2]], [[0, 0, 0], [1, 0, 0], [0, 1, 0]])
    return res


SH = shapes()
# Only for a few cases: 264 faces.
MORE = {'sheet': (mesh.rect(11, 12)[0], [[0.9 * x + 0.01 * y * y, y, 0.1 * x] for x, y, _ in mesh.rect(11, 12)[1]])}


def shards(tier):
    deep = tier != 'quick'
    return [{'src': a, 'dst': b, 'deep': deep} for a in SH for b in SH] + \
           [{'src': a, 'dst': b, 'unit': u, 'deep': deep} for u in range(1, len(UNITS))
            for a in SH for b in (SH if deep else [a, 'rect32', 'sheets'])] + \
           [{'far': a, 'deep': deep} for a in SH] + [{'again': a, 'deep': deep} for a in SH] + \
           [{'large': r, 'cli': k} for r in ROUTES for k in (0, 1)] + [{'faults': r} for r in ROUTES] + [{'lattice': i, 'of': 8, 'deep': deep} for i in range(8)]


def run_shard(s, R):
    if 'faults' in s:
        for k in range(5):
            go(R, {'kind': 'fault', 'route': s['faults'], 'k': k})
    elif 'far' in s:
        for b, k, route, cut in itertools.product(SH if s['deep'] else [s['far'], 'octa', 'uneven'], range(len(MOVES)),
                                                  ROUTES, (0, 1)):
            go(R, {'kind': 'pair-of-meshes', 'src': s['far'], 'dst': b, 'move': k, 'zones': (2, 3),
                   'sets': (0, 0), 'route': route, 'cli': cut, 'off': 2.0 ** 20})
    elif 'again' in s:
        for b, k, l in itertools.product(SH if s['deep'] else [s['again'], 'rect32', 'sheets'], range(3), range(len(MOVES))):
            go(R, {'kind': 'again', 'src': s['again'], 'dst': b, 'moves': (k, l)})
    elif 'large' in s:
        for a, b, k in (('sheet', 'octa', 1), ('octa', 'sheet', 2), ('sheet', 'sheet', 1), ('sheet', 'sheet', 0)):
            go(R, {'kind': 'pair-of-meshes', 'src': a, 'dst': b, 'move': k, 'zones': (13, 12), 'sets': (k, 0),
                   'route': s['large'], 'cli': s['cli']})
    elif 'lattice' in s:
        # All pairs of faces of a lattice as the source, every third face as the target.
        fs = list(itertools.combinations(range(8), 3))[::1 if s['deep'] else 3]
        for i, (a, b) in enumerate(itertools.permutations(fs, 2)):
            if i % s['of'] == s['lattice'] and len(set(a) & set(b)) < 3:
                go(R, {'kind': 'pair', 'a': a, 'b': b})
    elif 'unit' in s:
        for k, route, cut in itertools.product(range(len(MOVES)), ROUTES, (0, 1)):
            go(R, {'kind': 'pair-of-meshes', 'src': s['src'], 'dst': s['dst'], 'move': k, 'zones': (2, 3),
                   'sets': (0, 0), 'route': route, 'cli': cut, 'unit': UNITS[s['unit']]})
    else:
        mv = range(len(MOVES)) if s['deep'] or s['src'] == s['dst'] else range(0, len(MOVES), 2)
        for k, zones, route in itertools.product(mv, ((1, 1), (2, 3)), ROUTES):
            for sets in ((0, 0), (1, 2), (2, 0)) if zones == (2, 3) else ((0, 0),):
                for cut in (0, 1):
                    go(R, {'kind': 'pair-of-meshes', 'src': s['src'], 'dst': s['dst'], 'move': k,
                           'zones': zones, 'sets': sets, 'route': route, 'cli': cut})


def go(R, c):
    R.step()
    R.state(json.dumps(c))
    R.case(c)


def dist2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def centre(t):
    return tuple(sum(p[i] for p in t) / 3 for i in range(3))


def tris(m):
    return [tuple(tuple(m['points'][v]) for v in f) for z in m['zones'] for f in z['faces']]


def build(name, zones, sets, move, salt, unit=1.0, off=0.0):
    fs, pts = SH.get(name) or MORE[name]
    dx, dy, dz, k = move
    pts = [[(x * k + dx) * unit + off, (y * k + dy) * unit - off, (z * k + dz) * unit + 3 * off] for x, y, z in pts]
    m = mesh.make(fs, [i % min(zones, len(fs)) for i in range(len(fs))], pts, vars_=SETS[sets], title='g' + name)
    for z in m['data']:
        for r in z:
            for j in range(len(r)):
                r[j] += salt if SETS[sets][j] != 'GloId' else 0.0
    return m


def run_case(c, R):
    if c['kind'] == 'fault':
        return fault(c, R)
    if c['kind'] == 'again':
        return again(c, R)
    if c['kind'] == 'pair':
        cube = list(itertools.product((0., 1.), (0., 1.25), (0., 1.5)))
        src = mesh.make([c['a'], c['b']], [0, 1], cube, vars_=VARS, title='s')
        fs = list(itertools.combinations(range(8), 3))[::5]
        # The target: faces with nothing in common, one zone each.
        dst = mesh.make([[3 * i, 3 * i + 1, 3 * i + 2] for i in range(len(fs))], list(range(len(fs))),
                        [[cube[v][0] + 0.01 * (i % 7), cube[v][1] + 0.02, cube[v][2] + 0.03 + 0.001 * i]
                         for i, f in enumerate(fs) for v in f], vars_=VARS, title='d')
        route, by_cli = ROUTES[0], False
        for i, z in enumerate(dst['data']):
            z[0] = [x + 500.0 for x in z[0]]
    else:
        src = build(c['src'], c['zones'][0], c['sets'][0], (0, 0, 0, 1), 0.0, c.get('unit', 1.0), c.get('off', 0.0))
        dst = build(c['dst'], c['zones'][1], c['sets'][1], MOVES[c['move']], 1000.0, c.get('unit', 1.0),
                    c.get('off', 0.0))
        route, by_cli = c['route'], c['cli']
    with env.scratch() as d:
        a, b = mesh.write_dat(src, os.path.join(d, 'src.dat')), mesh.write_dat(dst, os.path.join(d, 'dst.dat'))
        keep = [open(p, 'rb').read() for p in (a, b)]
        if route == 'beta':
            out = os.path.join(d, 'o.dat')
            r = cli.run('convert/lazurit_add_beta_from_ansys.py', [b, a, out])
            require(not r.failed, 'adding Beta failed: {0} {1}', r.exc, r.code, key='failed')
            names = ['Beta']
        elif by_cli:
            out = os.path.join(d, 'o.dat') if c['zones'][0] == 1 else os.path.join(d, 'dst_interpolated.dat')
            r = cli.run('convert/interpolate.py', [a, b] + (['-res', out] if c['zones'][0] == 1 else []) +
                        (['-v'] if c['move'] % 2 else []))
            require(not r.failed, 'interpolation failed: {0} {1}', r.exc, r.code, key='failed')
            names = ['T', 'Hw']
        else:
            import gsu
            import interpolate
            g, h = gsu.Grid(), gsu.Grid()
            g.load(a)
            h.load(b)
            before = mesh.snapshot(g)
            interpolate.face_centered_interpolation(g, h)
            require(mesh.snapshot(g) == before, 'the source grid was changed', key='source')
            out = os.path.join(d, 'o.dat')
            h.store(out)
            names = ['T', 'Hw']
        require([open(p, 'rb').read() for p in (a, b)] == keep, 'an input file was changed', key='inputs')
        require(sorted(os.listdir(d)) == sorted(['src.dat', 'dst.dat', os.path.basename(out)]),
                'files {0}', sorted(os.listdir(d)), key='files')
        res = mesh.parse_dat(out)
        near = judge(src, dst, res, names, c.get('unit', 1.0))
        R.outcome((len(near), sum(len(x) > 1 for x in near)))
    return True


def judge(src, dst, res, names, unit):
    st = [centre(t) for t in tris(src)]
    rows = [dict(zip(src['vars'], r)) for z in src['data'] for r in z]
    require(res['title'] == dst['title'] and [z['name'] for z in res['zones']] == [z['name'] for z in dst['zones']],
            'title or zones differ', key='head')
    want_vars = dst['vars'] + [n for n in names if n not in dst['vars']]
    require(res['vars'] == want_vars, 'variables {0}, expected {1}', res['vars'], want_vars, key='variables')
    all_near = []
    for z, zd, r in zip(dst['zones'], dst['data'], res['zones']):
        require(len(r['faces']) == len(z['faces']), 'count of faces', key='faces')
        for i, f in enumerate(z['faces']):
            t = tuple(tuple(map(float, dst['points'][v])) for v in f)
            require(mesh.tri_of(r, i) == t, 'face {0} of {1} moved', i, z['name'], key='faces')
            ds = [dist2(centre(t), c) for c in st]
            low = min(ds)
            near = [k for k, x in enumerate(ds) if x <= low + 1e-9 * (unit ** 2 + low)]
            all_near.append(near)
            got = {n: r['data'][n][i] for n in names}
            require(any(all(got[n] == rows[k].get(n, 0.0) for n in names) for k in near),
                    'face {0} of zone {1}: {2}; nearest faces have {3}', i, z['name'], got,
                    [{n: rows[k].get(n, 0.0) for n in names} for k in near], key='value')
            for n, v in zip(dst['vars'], zd[i]):
                if n not in names:
                    require(r['data'][n][i] == v, '{0} of face {1} changed', n, i, key='other')
    return all_near


def again(c, R):
    """Grids which were interpolated before, then moved and given other values."""
    import gsu
    import interpolate
    with env.scratch() as d:
        g, h = gsu.Grid(), gsu.Grid()
        for j, grid, name, zones in ((0, g, c['src'], 2), (1, h, c['dst'], 3)):
            m = build(name, zones, 0, MOVES[c['moves'][0] * j], 1000.0 * j)
            grid.load(mesh.write_dat(m, os.path.join(d, 'm{0}.dat'.format(j))))
        interpolate.face_centered_interpolation(g, h)
        # Both become what another pair of files describes; the second time the roles change as well.
        src = build(c['src'], 2, 0, MOVES[c['moves'][1]], 77.0)
        dst = build(c['dst'], 3, 0, MOVES[(c['moves'][0] + 1) % 3], 2000.0)
        for a, b, what in ((g, h, (src, dst)), (h, g, (dst, src))):
            for grid, m in zip((a, b), what):
                turn(grid, m, gsu, d)
            interpolate.face_centered_interpolation(a, b)
            out = os.path.join(d, 'o.dat')
            b.store(out)
            near = judge(what[0], what[1], mesh.parse_dat(out), ['T', 'Hw'], 1.0)
            R.outcome((len(near), sum(len(x) > 1 for x in near)))
    return True


def turn(grid, m, gsu, d):
    """Gives the grid the coordinates and the values of the description, in place."""
    fresh = gsu.Grid()
    fresh.load(mesh.write_dat(m, os.path.join(d, 't.dat')))
    for n, o in zip(grid.Nodes, fresh.Nodes):
        n.P.X, n.P.Y, n.P.Z = o.P.X, o.P.Y, o.P.Z
    for f, o in zip(grid.Faces, fresh.Faces):
        for v in m['vars']:
            f[v] = o[v]


def fault(c, R):
    """Missing or misnamed files are refused and nothing is written."""
    with env.scratch() as d:
        a = mesh.write_dat(build('tetra', 1, 0, (0, 0, 0, 1), 0.0), os.path.join(d, 'a.dat'))
        b = mesh.write_dat(build('octa', 1, 0, (0, 0, 0, 1), 0.0), os.path.join(d, 'b.dat'))
        t = mesh.write_dat(build('octa', 1, 0, (0, 0, 0, 1), 0.0), os.path.join(d, 'b.txt'))
        before = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
        no, o = os.path.join(d, 'no.dat'), os.path.join(d, 'o.dat')
        if c['route'] == 'beta':
            args = [[no, a, o], [b, no, o], [no, no, o]]
            script = 'convert/lazurit_add_beta_from_ansys.py'
        else:
            args = [[no, b], [a, no, '-res', o], [t, b], [a, t, '-res', o], [a, b, '-res', os.path.join(d, 'o.txt')]]
            script = 'convert/interpolate.py'
        if c['k'] >= len(args):
            return True
        r = cli.run(script, args[c['k']])
        require(r.failed, 'accepted: {0}', args[c['k']], key='accepted')
        after = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
        require(after == before, 'files changed after a refused request', key='traces')
    R.outcome('refused')
    return True


def describe(tier):
    return {'rule': 'every pair of surfaces, relative position, zoning and set of variables of the two files; all '
                    'pairs of lattice triangles as a source; the function and both command lines; every pair is '
                    'judged against exhaustive search of the nearest centre',
            'bounds': {'surfaces': len(SH), 'largest': '60 faces (264 in a few cases with 13 zones)', 'positions': len(MOVES), 'units of length': len(UNITS),
                       'far': 'both surfaces 2^20 from the origin', 'again': 'grids used twice, moved in between, in both roles'},
            'assumptions': ['where several source faces are equally near (relative 1e-9) any of them is right']}
