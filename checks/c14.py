"""C14: remeshing grows the surface by the given ice and changes nothing else."""
import itertools
import json
import os

from mc import mesh, env, tong, cli
from mc.core import require, Violation
from checks import grids

OPTS = [
    {},
    {'nsteps_max': 1}, {'nsteps_max': 2}, {'nsteps_max': 3, 'rest_volume_redistr': False},
    {'nsteps_max': 2, 'nsmooth_steps': 1}, {'nsteps_max': 2, 'nsmooth_steps': 2, 'nsmooth_s': 3.0,
                                            'nsmooth_k': 0.4},
    {'nsteps_max': 2, 'hsmooth_steps': 1}, {'nsteps_max': 2, 'hsmooth_steps': 2,
                                            'hsmooth_alfa': 0.6, 'hsmooth_beta': 0.2},
    {'nsteps_max': 2, 'nss_steps': 1}, {'nsteps_max': 1, 'nss_steps': 2, 'nss_fix_nodes': False,
                                        'nss_st': 0.5, 'nss_epsilon': 0.05},
    {'nsteps_max': 2, 'nsmooth_steps': 1, 'hsmooth_steps': 1, 'nss_steps': 1},
    {'nsteps_max': 3, 'nsteps_min': 3, 'nsteps_hi_side_fact': 1.0},
    {'nsteps_max': 2, 'hsmooth_steps': 2, 'hsmooth_alfa': 1.0, 'hsmooth_beta': 0.7},
]
# The number of steps adapts when faces may be ignored.
ADAPT = [{'nsteps_ignore_part': p, 'nsteps_hi_side_fact': s, 'nsteps_min': lo, 'nsteps_max': hi}
         for p in (0.3, 0.6, 0.9) for s in (0.1, 0.5) for lo, hi in ((0, 4), (2, 4), (1, 30), (0, 2))]


def small():
    return [i for i, p in enumerate(grids.pool()) if p[0] != 'stack']


def ices(n):
    """Ice fields as levels of faces."""
    if n <= 3:
        return [list(x) for x in itertools.product((0.0, 0.03, 0.2), repeat=n)]
    if n == 4:
        return [list(x) for x in itertools.product((0.0, 0.1), repeat=n)]
    res = [[0.0] * n, [0.1] * n, [0.02 * (i % 4) for i in range(n)]]
    res += [[0.15 * (i == k) for i in range(n)] for k in range(min(n, 6))]
    return res


# Vertical surfaces over open and closed polygonal lines, for pseudo-2D grids.
LINES = [([(0, 0), (1, 0)], False), ([(0, 0), (1, 0), (2, 1)], False),
         ([(0, 0), (1, 0), (2, 1), (2, 2)], False),
         ([(0, 0), (2, 0), (1, 2)], True), ([(0, 0), (2, 0), (2, 2), (0, 2)], True),
         # Two walls back to back, far from the origin, two separate lines.
         ([(0, 0), (1, 0), (1, 4e-6), (0, 4e-6)], [(0, 1), (2, 3)]),
         ([(1e-6, 0), (1, 0), (0, 1), (0, 0), (0.5, -1)], [(0, 1), (2, 3), (3, 4)]),
         ([(1000.25, -3000.5), (1001.25, -3000.5), (1002.0, -3000.0)], False),
         ([(0, 0), (1, 0), (0, 3), (1, 3.5)], [(0, 1), (3, 2)])]


def wall(line, rows, heights=None):
    """Faces and points of the wall over a line, heights of rows in the order of nodes."""
    pts, links = line
    n = len(pts)
    if not isinstance(links, list):
        links = [(i, (i + 1) % n) for i in range(n if links else n - 1)]
    P = [[float(x), float(y), float(z)] for z in (heights or range(rows)) for x, y in pts]
    fs = []
    for r in range(rows - 1):
        for i, j in links:
            a, b, c, d = r * n + i, r * n + j, (r + 1) * n + j, (r + 1) * n + i
            fs += [[a, b, c], [a, c, d]]
    return fs, P


OZ = [{}, {'nsmooth_steps': 1}, {'hsmooth_steps': 1}, {'nss_steps': 1},
      {'nss_steps': 1, 'nss_fix_nodes': False}]


def shards(tier):
    res = [{'kind': 'model', 'mesh': i, 'tier': tier} for i in small()]
    res += [{'kind': 'adapt', 'mesh': i} for i in small() if len(grids.get(i)[1]) >= 2]
    res += [{'kind': 'wall', 'line': i, 'rows': r} for i in range(len(LINES)) for r in (2, 3, 4)]
    res += [{'kind': 'plate', 'nx': nx, 'ny': ny} for nx, ny in ((1, 1), (2, 1), (2, 2), (3, 2))]
    res += [{'kind': 'refuse', 'part': k} for k in range(4)]
    res += [{'kind': 'cli', 'mesh': i} for i in small()[::12]]
    return [{'kind': 'large', 'mesh': i, 'zones': z, 'tier': tier}
            for i, z in grids.large(labels=('tube', 'parts', 'sheet'))] + res


def run_shard(shard, R):
    k = shard['kind']
    if k == 'large':
        n = len(shard['zones'])
        for oi, o in enumerate(OPTS + ADAPT[::5]):
            for ii, ice in enumerate([[0.02 * (i % 4) for i in range(n)], [0.1 * (i % 11 == 10) for i in range(n)],
                                      [0.001 * i for i in range(n)]]):
                if n > 200 and (oi + ii) % (4 if shard['tier'] == 'quick' else 1):
                    continue
                go(R, {'kind': 'model', 'mesh': shard['mesh'], 'ice': ice, 'opts': o, 'zones': shard['zones'],
                       'verbose': False})
        return
    if k in ('model', 'adapt', 'cli'):
        label, fs, pts = grids.get(shard['mesh'])
        n = len(fs)
    if k == 'model':
        deep = shard['tier'] != 'quick'
        zones = grids.colourings(n, 2)[:8] if deep else [[0] * n, [i % 2 for i in range(n)]][:n]
        for ice in ices(n):
            for oi in range(len(OPTS)):
                for z in zones:
                    go(R, {'kind': k, 'mesh': shard['mesh'], 'ice': ice, 'opts': OPTS[oi],
                           'zones': z, 'verbose': False})
        go(R, {'kind': k, 'mesh': shard['mesh'], 'ice': ices(n)[-1], 'opts': OPTS[2],
               'zones': [0] * n, 'verbose': True})
        # Again and again: what an earlier run left in the grid does not matter.
        for oi in range(len(OPTS)):
            for ice in (ices(n)[0], ices(n)[-1]):
                go(R, {'kind': k, 'mesh': shard['mesh'], 'ice': ice, 'opts': OPTS[oi], 'zones': [0] * n,
                       'verbose': oi % 2 == 0, 'then': [[0.02 * ((i + oi) % 3) for i in range(n)],
                                                       OPTS[(oi + 1) % len(OPTS)]]})
        # Between the runs the surface is edited.
        for edit in ('cut', 'divide', 'both'):
            for oi in range(len(OPTS)) if n < 9 else (2, 7, 9):
                go(R, {'kind': k, 'mesh': shard['mesh'], 'ice': ices(n)[-1], 'opts': OPTS[oi], 'zones': [0] * n,
                       'verbose': False, 'then': [[0.02 * ((i + oi) % 3) for i in range(n + 6)],
                                                  OPTS[(3 * oi + 7) % len(OPTS)]], 'edit': edit})
        # Other units of length.
        for ice in ices(n)[1:][::1 if deep else 4]:
            for o in OPTS:
                for unit in (0.01, 64.0):
                    go(R, {'kind': k, 'mesh': shard['mesh'], 'ice': ice, 'opts': o,
                           'zones': [0] * n, 'verbose': False, 'unit': unit})
    elif k == 'adapt':
        for ice in ices(n)[1::3]:
            for o in ADAPT:
                go(R, {'kind': 'model', 'mesh': shard['mesh'], 'ice': ice, 'opts': o,
                       'zones': [0] * n, 'verbose': False})
    elif k == 'wall':
        fs, pts = wall(LINES[shard['line']], shard['rows'])
        n = len(fs)
        for ice in ([0.0] * n, [0.1] * n, [0.05 * (i % 3) for i in range(n)],
                    [0.1 * (i == 0) for i in range(n)]):
            for extra in OZ:
                for steps in (1, 2, 3):
                    go(R, {'kind': 'wall', 'line': shard['line'], 'rows': shard['rows'],
                           'ice': ice, 'opts': dict(extra, nsteps_max=steps, pseudo_2d_oz=True)})
            # Rows in another order, uneven ones, two zones.
            for hs in itertools.islice(itertools.permutations((-1.25, 1, 2.5, 3)[:shard['rows']]), 1, None):
                go(R, {'kind': 'wall', 'line': shard['line'], 'rows': shard['rows'], 'heights': list(hs),
                       'ice': ice, 'opts': dict(OZ[len(ice) % 5], nsteps_max=2, pseudo_2d_oz=True),
                       'zones': [i % 2 for i in range(n)]})
    elif k == 'plate':
        # On a plate ice of one height is a layer of this height whatever the options are.
        for steps, rd, ns, hs, nss, axis, h in itertools.product(
                (1, 2, 4), (True, False), (0, 1, 2), ({}, {'hsmooth_steps': 1}, {
                    'hsmooth_steps': 2, 'hsmooth_alfa': 1.0, 'hsmooth_beta': 0.7}),
                ({}, {'nss_steps': 1}, {'nss_steps': 2, 'nss_fix_nodes': False, 'nss_st': 0.5}),
                (0, 1, 2), (0.03, 0.5)):
            o = dict({'nsteps_min': steps, 'nsteps_max': steps, 'rest_volume_redistr': rd, 'nsmooth_steps': ns},
                     **hs, **nss)
            go(R, {'kind': k, 'nx': shard['nx'], 'ny': shard['ny'], 'opts': o, 'axis': axis, 'h': h, 'diag': axis % 2})
    elif k == 'refuse':
        for i in small()[shard['part']::4]:
            n = len(grids.get(i)[1])
            for lo, hi in ((1, 0), (4, 3), (11, 10), (3, 2)):
                for oz in (False, True):
                    go(R, {'kind': 'refuse', 'mesh': i, 'opts': {'nsteps_min': lo, 'nsteps_max': hi,
                                                                 'pseudo_2d_oz': oz}})
            go(R, {'kind': 'refuse', 'mesh': i, 'opts': {'pseudo_2d_oz': True}})
    elif k == 'cli':
        for how in ('-g', '-d'):
            for js in (None, OPTS[2], OPTS[7], 'missing'):
                for nm in (['a.dat'], ['in_r_000000000005.dat'], ['a.dat', 'b_r_1.dat', 'c.txt'],
                           ['wing_root.dat', 'x_r.dat', 'y.dat.bak', 'a_r_r_1.dat', 'dat', 'u.v.dat']):
                    if how == '-g' and len(nm) > 1:
                        continue
                    for v in (0, 1, 2):
                        go(R, {'kind': 'cli', 'mesh': shard['mesh'], 'how': how, 'json': js,
                               'names': nm, 'v': v, 'exists': v % 2})
        go(R, {'kind': 'cli', 'mesh': shard['mesh'], 'how': '-d', 'json': None, 'names': [], 'v': 1, 'exists': 1})
        go(R, {'kind': 'cli', 'mesh': shard['mesh'], 'how': '-g', 'json': None, 'names': ['a.dat'], 'v': 0,
               'exists': 0, 'local': True})


def go(R, c):
    R.step()
    R.state(json.dumps(c, sort_keys=True))
    R.case(c)


def run_plate(case, R):
    import remeshing
    nx, ny, axis, h = case['nx'], case['ny'], case['axis'], case['h']
    w = nx + 1
    fs = []
    for y in range(ny):
        for x in range(nx):
            a, b, c, e = y * w + x, y * w + x + 1, (y + 1) * w + x, (y + 1) * w + x + 1
            fs += [[a, b, e], [a, e, c]] if (x + y + case['diag']) % 2 else [[a, b, c], [b, e, c]]
    # Uneven spacing, the normal is the axis.
    pts = []
    for y in range(ny + 1):
        for x in range(w):
            q = [0.0, 0.0, 0.0]
            q[(axis + 1) % 3], q[(axis + 2) % 3] = x * (1 + 0.125 * x), 0.75 * y
            pts.append(q)
    with env.scratch() as d:
        g, m = load(fs, pts, [i % 2 for i in range(len(fs))], [h] * len(fs), d)
        pts = [mesh.p3(n) for n in g.Nodes]
        js = os.path.join(d, 'p.json')
        with open(js, 'w') as f:
            json.dump({'remesh_' + k: v for k, v in case['opts'].items()}, f)
        with env.quiet():
            remeshing.TongRemesher('a.dat', js, d + '/')(g)
    for n, p in zip(g.Nodes, pts):
        q = mesh.p3(n)
        require(abs(q[axis] - h) < 1e-9, 'layer of ice {0} on a plate: node {1} is at height {2}', h, p, q[axis])
        if not case['opts'].get('nss_steps'):
            require(near(q[:axis] + q[axis + 1:], p[:axis] + p[axis + 1:]), 'node {0} of a plate moves to {1}', p, q)
    require(all(f['Hi'] == 0.0 for f in g.Faces), 'ice heights are left')
    R.outcome(('plate', nx, ny, h > 0, case['opts']['nsteps_max']))
    return True


def near(a, b, tol=1e-7, unit=1.0):
    return all(abs(x - y) <= tol * (unit + abs(y)) for x, y in zip(a, b))


def load(fs, pts, zones, ice, d, merge=True):
    m = mesh.make(fs, zones, pts, title='g')
    hi = m['vars'].index('Hi')
    at = [0] * (max(zones) + 1)
    for i, z in enumerate(zones):
        m['data'][z][at[z]][hi] = ice[i]
        at[z] += 1
    return mesh.load_grid(m, d, merge), m


def model_of(g, o, unit=1.0):
    idx = {id(n): i for i, n in enumerate(g.Nodes)}
    return tong.Model([mesh.p3(n) for n in g.Nodes], [[idx[id(n)] for n in f.Nodes] for f in g.Faces],
                      [f['Hi'] for f in g.Faces], unit, **o)


def frame(g):
    """All of a grid but coordinates and Hi."""
    nid, eid = ({id(x): i for i, x in enumerate(xs)} for xs in (g.Nodes, g.Edges))
    fid = {id(x): i for i, x in enumerate(g.Faces)}
    return (g.Name,
            [(n.GloId, [eid[id(e)] for e in n.Edges], [fid[id(f)] for f in n.Faces]) for n in g.Nodes],
            [(e.GloId, [nid[id(n)] for n in e.Nodes], [fid[id(f)] for f in e.Faces]) for e in g.Edges],
            [(f.GloId, [nid[id(n)] for n in f.Nodes], [eid[id(e)] for e in f.Edges],
              [(k, v) for k, v in f.Data.items() if k != 'Hi'], list(f.Data), f.Zone.Name)
             for f in g.Faces],
            [(z.Name, z.IsFixed, [nid[id(n)] for n in z.Nodes], [eid[id(e)] for e in z.Edges],
              [fid[id(f)] for f in z.Faces]) for z in g.Zones])


def run_case(case, R):
    import remeshing
    if case['kind'] == 'cli':
        return run_cli(case, R)
    if case['kind'] == 'refuse':
        return refuse(case, R)
    if case['kind'] == 'plate':
        return run_plate(case, R)
    o = case['opts']
    if case['kind'] == 'wall':
        fs, pts = wall(LINES[case['line']], case['rows'], case.get('heights'))
        zones = case.get('zones') or [0] * len(fs)
    else:
        label, fs, pts = grids.get(case['mesh'])
        zones = case['zones']
    unit = case.get('unit', 1.0)
    pts = [[x * unit for x in p] for p in pts]
    case = dict(case, ice=[x * unit for x in case['ice']])
    with env.scratch() as d:
        g, m = load(fs, pts, zones, case['ice'], d)
        if not grow(case, g, o, unit, m, case['ice'], d, R):
            return True
        if case.get('then'):
            ice, o = case['then']
            if case.get('edit'):
                import geom
                if case['edit'] != 'divide':
                    e = min(g.Edges, key=lambda e: (len(e.Faces), sorted(n.GloId for n in e.Nodes)))
                    g.cut_edge(e, (e.Nodes[0].P + e.Nodes[1].P) * 0.5)
                if case['edit'] != 'cut':
                    f = max(g.Faces, key=lambda f: f.GloId)
                    g.divide_face(f, geom.Vect.from_iterable(f.get_center()))
                ice, m = ice[:len(g.Faces)], None
            for f, x in zip(g.Faces, ice):
                f['Hi'] = x * unit
            for row, x in zip([r for z in m['data'] for r in z] if m else [], ice):
                row[m['vars'].index('Hi')] = x
            grow(dict(case, ice=ice, opts=o), g, o, unit, m, ice, d, R)
    return True


def grow(case, g, o, unit, m, ice, d, R):
    """One run of the remesher against the model."""
    import remeshing
    fs = g.Faces
    for x in os.listdir(d):
        if x.startswith('x_'):
            os.remove(os.path.join(d, x))
    model = model_of(g, o, unit)
    start = list(model.P)
    ice_of = {f: f['Hi'] for f in g.Faces}
    lo, hi = model.nsteps_bounds()
    ignore = int(len(fs) * o.get('nsteps_ignore_part', 0.05))
    allowed = model.step_counts(ignore)
    finals = {}
    try:
        for k in allowed:
            mm = model_of(g, o, unit)
            mm.run(k)
            finals[k] = mm
    except tong.Degenerate as e:
        R.count('no direction of growth', 1)
        return False
    before = frame(g)
    js = os.path.join(d, 'o.json')
    with open(js, 'w') as f:
        json.dump({'remesh_' + k: v for k, v in o.items()}, f)
    verbose = case.get('verbose', False)
    remeshing.TongRemesher('/x.dat', js, d, verbose=verbose)(g)
    require(frame(g) == before, 'remeshing changed more than coordinates and ice', key='frame')
    require(all(f['Hi'] == 0.0 for f in g.Faces), 'ice heights after remeshing: {0}',
            [f['Hi'] for f in g.Faces], key='hi')
    got = [mesh.p3(n) for n in g.Nodes]
    fits = [k for k, mm in finals.items()
            if all(near(a, b, 1e-7, unit) for a, b in zip(got, mm.P))]
    require(fits, 'nodes are at {0}; {1} steps give {2}', got, list(finals),
            [mm.P for mm in finals.values()][-1], key='position')
    # Direct consequences that do not need the model.
    if not any(ice) and not o.get('nss_steps'):
        require(got == start, 'nodes move without ice', key='no-ice')
    if not o.get('nss_steps') and not o.get('hsmooth_steps'):
        for n, a, b in zip(g.Nodes, start, got):
            if not any(ice_of[f] for f in n.Faces) and case['kind'] != 'wall':
                require(a == b, 'node without ice moves', key='local')
    if o.get('pseudo_2d_oz'):
        for a, b in zip(start, got):
            require(b[2] == a[2], 'z changed in pseudo 2d mode: {0} -> {1}', a, b, key='z')
        cols = {}
        for a, b in zip(start, got):
            cols.setdefault(a[:2], set()).add(b[:2])
        require(all(len(v) == 1 for v in cols.values()), 'column is not straight: {0}', cols,
                key='column')
    if verbose:
        files = sorted(x for x in os.listdir(d) if x.startswith('x_'))
        require(len(files) in fits, '{0} intermediate grids', len(files), key='intermediate')
        last = mesh.parse_dat(os.path.join(d, files[-1]))
        pos = {mesh.rnd(p) for z in last['zones'] for k in range(len(z['faces']))
               for p in mesh.tri_of(z, k)}
        require(pos == {mesh.rnd(p) for p in got}, 'last intermediate grid', key='intermediate')
    R.outcome((len(got), fits[0], round(sum(mm for mm in finals[fits[0]].actual), 3)))
    return True


def refuse(case, R):
    """Options that contradict each other or the surface."""
    import remeshing
    label, fs, pts = grids.get(case['mesh'])
    o = case['opts']
    with env.scratch() as d:
        g, m = load(fs, pts, [0] * len(fs), [0.1] * len(fs), d)
        cols = {}
        for n in g.Nodes:
            cols.setdefault(mesh.p3(n)[:2], []).append(n)
        sizes = {len(c) for c in cols.values()}
        bad = o.get('nsteps_min', 0) > o.get('nsteps_max', 10) or len(sizes) > 1 or 1 in sizes
        js = os.path.join(d, 'o.json')
        with open(js, 'w') as f:
            json.dump({'remesh_' + k: v for k, v in o.items()}, f)
        before = mesh.snapshot(g)
        try:
            remeshing.TongRemesher('/x.dat', js, d)(g)
        except Exception:
            require(bad, 'options {0} are refused, columns have {1} nodes', o, sizes, key='refused')
            require(mesh.snapshot(g) == before, 'a refused request changed the grid', key='refused-changed')
        else:
            require(not bad, 'options {0} are accepted, columns have {1} nodes', o, sizes, key='accepted')
        R.outcome(('refuse', bad))
    return True


def run_cli(case, R):
    """remesh.py on files: results are those of the remesher, in the right files."""
    import gsu
    import remeshing
    label, fs, pts = grids.get(case['mesh'])
    n = len(fs)
    with env.scratch() as d:
        src, out = os.path.join(d, 'src'), os.path.join(d, 'out')
        os.makedirs(src)
        want = {}
        for k, nm in enumerate(case['names']):
            m = mesh.make(fs, [0] * n, pts, title='g')
            for r in m['data'][0]:
                r[3] = 0.02 * (k + 1)
            p = mesh.write_dat(m, os.path.join(src, nm))
            keep = mesh.write_dat(m, os.path.join(d, 'keep'))
            if nm.endswith('.dat'):
                want[nm.replace('_r_', '_')] = p
        args = ['-g', os.path.join(src, case['names'][0])] if case['how'] == '-g' else ['-d', src]
        if case.get('local'):
            # Everything in the current directory.
            args[-1], out = case['names'][0], src
        else:
            args += ['-o', out]
        if case['v']:
            args += ['-' + 'v' * case['v']]
        if case['exists'] and not case.get('local'):
            os.makedirs(out)
            for nm in case['names']:
                with open(os.path.join(out, nm), 'w') as f:
                    f.write('old')
        old_files = set(case['names']) if case['exists'] else set()
        js = None
        if case['json']:
            js = os.path.join(d, 'o.json')
            args += ['-j', js]
            if case['json'] != 'missing':
                with open(js, 'w') as f:
                    json.dump({'remesh_' + k: v for k, v in case['json'].items()}, f)
        r = cli.run('remesh.py', args, cwd=src if case.get('local') else d)
        ok, err = not r.failed, r.exc or RuntimeError('exit code {0}'.format(r.code))
        if case['json'] == 'missing':
            require(not ok, 'missing json file is accepted', key='missing')
            require(not os.path.isdir(out) or set(os.listdir(out)) <= old_files, 'files after an error', key='missing')
            return True
        if not ok:
            raise err
        have = set(os.listdir(out))
        if case['v'] > 1:
            # Grids of all steps and a report.
            have -= {x for x in have if x == 'report.txt' or x[-10:-4].startswith('_0') and x not in want}
        require(have - old_files == set(want) - old_files and set(want) <= have, 'files {0} instead of {1}',
                sorted(have), sorted(want), key='files')
        for nm, p in want.items():
            g = gsu.Grid()
            g.load(p if not case.get('local') else keep)
            remeshing.TongRemesher('/x.dat', js, d)(g)
            g.store(os.path.join(d, 'want.dat'))
            a, b = mesh.parse_dat(os.path.join(d, 'want.dat')), mesh.parse_dat(os.path.join(out, nm))
            require(a == b, 'command line gives another grid', key='cli')
        R.outcome(('cli', len(want)))
    return True


def describe(tier):
    return {
        'rule': 'One case = one run of the remesher (or of its command line) on one surface with '
                'one ice field and one set of options; final positions of all nodes are compared '
                'with a model of the algorithm, everything else with the state before.',
        'bounds': 'mesh pool of C01 without "stack" (<= 12 faces), all ice fields over 3 levels for '
                  '<= 3 faces, 2 levels for 4, 9 fields for more; 12 option sets in files, grids of 54..264 faces in 1 or 13 zones; 18 sets '
                  'that adapt the number of steps, 2 (8) zonings, 3 units of length; 27 vertical walls in pseudo 2d '
                  'mode (some with columns 1e-6 apart; also rows in any order, uneven rows, two zones) x 4 fields x 15 option sets; two runs one after another on one grid; verbose runs without ice; command line on every twelfth mesh.',
        'assumptions': ['Every node has a direction of growth (normals of its faces do not cancel) '
                        'and faces do not degenerate during growth; the model recognises these '
                        'cases and they are counted, not compared.',
                        'Positions agree up to 1e-7 of the unit of length.']}
