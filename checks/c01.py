"""C01: reading a grid file gives exactly the mesh it describes; malformed files are refused."""
import itertools
import os

from mc import mesh, env
from mc.core import require, Violation
from checks import grids

TITLES = ['t', '', None, 'wing 3', 'n=0012, a=4']
NAMES = [['zone0', 'zone1', 'zone2'], ['Inlet 1', 'wall', 'k'], ['a=1', 'a=2', 'b=c=d'],
         ['', 'x', 'y'], ['same', 'same', 'same'], [' left', 'right  ', ' ']]


def splits(faces, points, how):
    """
    Rewrite the faces so that some corners use an own copy of a node.
    how: tuple over all face corners (bits): 1 = own copy.
    """
    pts = [list(p) for p in points]
    out = []
    it = iter(how)
    for f in faces:
        g = []
        for v in f:
            if next(it):
                pts.append(list(pts[v]))
                v = len(pts) - 1
            g.append(v)
        out.append(g)
    return out, pts


def shards(tier):
    res = []
    for i, (label, fs, pts) in enumerate(grids.pool()):
        n = len(fs)
        lim = 4 if tier == 'quick' else 6
        cols = grids.colourings(n, 3) if n <= lim else \
            [[0] * n, [j % 2 for j in range(n)], [min(j, 2) for j in range(n)]]
        for k in range(0, len(cols), 8):
            res.append({'kind': 'files', 'mesh': i, 'cols': cols[k:k + 8]})
        if n <= (2 if tier == 'quick' else 3):
            res.append({'kind': 'splits', 'mesh': i})
    res.append({'kind': 'variants'})
    for i in (0, 1, 2, 3, 5):
        res.append({'kind': 'damage', 'mesh': i})
    res.append({'kind': 'nonmanifold'})
    res = [{'kind': 'files', 'mesh': i, 'cols': [z]} for i, z in grids.large()] + res
    return res


def run_shard(shard, R):
    kind = shard['kind']
    P = grids.pool()
    if kind == 'files':
        for col in shard['cols']:
            for merge in (True, False):
                for rev in (0, 1):
                    R.step()
                    R.state(('f', shard['mesh'], tuple(col), merge, rev))
                    R.case({'mesh': shard['mesh'], 'zones': col, 'merge': merge, 'rev': rev})
    elif kind == 'splits':
        label, fs, pts = P[shard['mesh']]
        for how in itertools.product((0, 1), repeat=3 * len(fs)):
            for col in ([0] * len(fs), list(range(len(fs)))):
                for merge in (True, False):
                    R.step()
                    R.state(('s', shard['mesh'], how, tuple(col), merge))
                    R.case({'mesh': shard['mesh'], 'zones': col, 'merge': merge, 'split': how})
                    if not any(how):
                        break
    elif kind == 'variants':
        rect = [i for i, p in enumerate(P) if p[0] == 'rect21'][0]
        for mi in (0, 1, 2, rect):
            n = len(P[mi][1])
            for col in grids.colourings(n, 3):
                for names in range(len(NAMES)):
                    for title in range(len(TITLES)):
                        for nv in (0, 1, 2, 9):
                            for extra in ('', 'comments', 'used', 'isolated', 'near', 'close', 'far'):
                                c = {'mesh': mi, 'zones': col, 'merge': True, 'names': names,
                                     'title': title, 'nv': nv, 'extra': extra}
                                R.step()
                                R.state(('v', repr(c)))
                                R.case(c)
    elif kind == 'damage':
        label, fs, pts = P[shard['mesh']]
        col = [min(i, 1) for i in range(len(fs))]
        text = mesh.dat_text(mesh.make(fs, col, pts))
        for i, line in enumerate(text.split('\n')[:-1]):
            hows = ['drop', 'twice', 'junk']
            if i + 1 < len(text.split('\n')) - 1:
                hows += ['cut']
            if len(line.split()) == 3 and all(w.isdigit() for w in line.split()):
                hows += ['fourth']
            if line.startswith(('NODES=', 'ELEMENTS=')):
                hows += ['fewer', 'more']
            for how in hows:
                c = {'mesh': shard['mesh'], 'zones': col, 'damage': [i, how]}
                R.step()
                R.state(('d', repr(c)))
                R.case(c)
    elif kind == 'nonmanifold':
        for zones in ([0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 1, 2]):
            for perm in itertools.permutations(range(3)):
                c = {'fins': [list(perm), zones]}
                R.step()
                R.state(('n', repr(c)))
                R.case(c)


def expect_fail(g, path, what):
    try:
        g.load(path)
    except Exception:
        return
    raise Violation('{0} is loaded without an error'.format(what), key='accepts')


def run_case(case, R):
    import gsu
    if 'fins' in case:
        perm, zones = case['fins']
        fs = [[0, 1, 2], [1, 0, 3], [0, 1, 4]]
        m = mesh.make([fs[i] for i in perm], zones)
        with env.scratch() as d:
            expect_fail(gsu.Grid(), mesh.write_dat(m, os.path.join(d, 'a.dat')),
                        'an edge with three faces')
        R.outcome('nonmanifold refused')
        return True
    label, fs, pts = grids.get(case['mesh'])
    if 'damage' in case:
        i, how = case['damage']
        lines = mesh.dat_text(mesh.make(fs, case['zones'], pts)).split('\n')[:-1]
        harmless = lines[i].startswith(('#', 'TITLE='))
        if how == 'drop':
            del lines[i]
        elif how == 'twice':
            harmless = harmless or lines[i].startswith('VARIABLES=')
            lines.insert(i, lines[i])
        elif how == 'junk':
            # A line that is neither of what may stand here.
            harmless = False
            lines.insert(i, 'JUNK 1 2 3')
        elif how == 'fourth':
            lines[i] += ' 1'
        elif how in ('fewer', 'more'):
            word, n = lines[i].split('=')
            lines[i] = '{0}={1}'.format(word, int(n) + (1 if how == 'more' else -1))
        elif how == 'cut':
            # The last token of the line is lost.
            harmless = lines[i].startswith(('#', 'TITLE='))
            if lines[i].startswith(('VARIABLES=', 'ZONE T=')):
                # One name less: the count of variables does not fit; zone names may be anything.
                if lines[i].startswith('ZONE T='):
                    return True
                lines[i] = lines[i].rsplit(',', 1)[0]
            elif lines[i].startswith(('NODES=', 'ELEMENTS=')):
                lines[i] = lines[i].split('=')[0] + '='
            elif '=' in lines[i]:
                lines[i] = lines[i][:-1]
            elif not harmless:
                lines[i] = ' '.join(lines[i].split()[:-1])
        with env.scratch() as d:
            p = os.path.join(d, 'a.dat')
            with open(p, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            g = gsu.Grid()
            if harmless:
                g.load(p)
                mesh.check_valid(g)
                R.outcome('harmless damage')
            else:
                expect_fail(g, p, 'a file with line {0} damaged ({1})'.format(i, how))
                R.outcome('damage refused')
        return True
    run_load(case, R, fs, pts)
    return True


def run_load(case, R, fs, pts):
    import gsu
    extra = case.get('extra', '')
    if case.get('rev'):
        # Same surface, other order of faces, corners and node numbers.
        fs = [[f[1], f[2], f[0]] for f in reversed(fs)]
    if case.get('split'):
        fs, pts = splits(fs, pts, case['split'])
    nv = case.get('nv', 9)
    m = mesh.make(fs, case['zones'], pts, title=TITLES[case.get('title', 0)],
                  vars_=mesh.VARS[:nv],
                  names=NAMES[case.get('names', 0)] if max(case['zones']) < 3 else None)
    if extra == 'isolated':
        m['points'].append([9.0, 9.0, 9.0])
        m['zones'][-1]['order'] = mesh.zone_nodes(m['zones'][-1]) + [len(m['points']) - 1]
    elif case.get('rev'):
        for z in m['zones']:
            z['order'] = list(reversed(mesh.zone_nodes(z)))
    shift = {'near': 2e-13, 'close': 4e-10, 'far': 1e-8}.get(extra, 0.0)
    axis = case.get('title', 0)
    text = zone_text(m, shift, axis)
    if extra == 'comments':
        ls = text.split('\n')
        out = []
        for i, l in enumerate(ls):
            if l.startswith('ZONE T='):
                out += ['# ZONE T="no"', '#']
            out.append(l)
        text = '\n'.join(out)
    with env.scratch() as d:
        p = os.path.join(d, 'a.dat')
        with open(p, 'w') as f:
            f.write(text)
        g = gsu.Grid()
        if extra == 'used':
            q = os.path.join(d, 'b.dat')
            f2, p2 = mesh.octa()
            mesh.write_dat(mesh.make(f2, [0, 1, 2, 3, 4, 5, 6, 7], p2, title='other',
                                     vars_=['T', 'Foo']), q)
            g.load(q)
            g.decompose_farhat(count=3, fz_names=['zone1'])
            g.mark_all_fixed_nodes()
        if case['merge']:
            g.load(p)
        else:
            g.load(p, is_merge_same_nodes=False)
    # Expected classes of nodes.
    cls = {}
    faces = []
    for zi, z in enumerate(m['zones']):
        for f, row in zip(z['faces'], m['data'][zi]):
            t = []
            for v in f:
                q = moved(m['points'][v], shift, axis, zi)
                if case['merge']:
                    c = tuple(round(x, 10) + 0.0 for x in q)
                else:
                    c = (zi, v)
                cls[c] = q
                t.append(c)
            faces.append((zi, t, row))
    n_iso = 1 if extra == 'isolated' else 0
    require((g.Name or '') == (m['title'] or ''), 'title {0!r} is read as {1!r}', m['title'],
            g.Name, key='title')
    require([z.Name for z in g.Zones] == [z['name'] for z in m['zones']],
            'zones {0} are read as {1}', [z['name'] for z in m['zones']],
            [z.Name for z in g.Zones], key='zone-names')
    require(len(g.Nodes) == len(cls) + n_iso, 'file describes {0} nodes, grid has {1}',
            len(cls) + n_iso, len(g.Nodes), key='nodes-count')
    require(len(g.Faces) == len(faces), '{0} faces', len(g.Faces), key='faces-count')
    mesh.check_valid(g, isolated_ok=bool(n_iso))
    by_id = {f.GloId: f for f in g.Faces}
    fwd, back = {}, {}
    for i, (zi, t, row) in enumerate(faces):
        f = by_id[i]
        require(f.Zone is g.Zones[zi], 'face {0} is in zone {1}', i, f.Zone.Name, key='face-zone')
        got = {k: v for k, v in f.Data.items()}
        require(got == dict(zip(m['vars'], row)), 'face {0}: data {1}, file {2}', i, got,
                dict(zip(m['vars'], row)), key='data')
        for c, nd in zip(t, f.Nodes):
            require(fwd.setdefault(c, id(nd)) == id(nd) and back.setdefault(id(nd), c) == c,
                    'face {0}: corners are not the nodes of the file', i, key='corners')
            pt = mesh.p3(nd)
            require(max(abs(a - b) for a, b in zip(pt, cls[c])) < 1e-11,
                    'face {0}: corner at {1}, file has {2}', i, pt, cls[c], key='coords')
    ne = len({frozenset(p) for _, t, _ in faces for p in itertools.combinations(t, 2)})
    require(len(g.Edges) == ne, '{0} edges instead of {1}', len(g.Edges), ne, key='edges-count')
    require(all(f['T'] == f.Data.get('T', 0.0) and f['NoSuch'] == 0.0 for f in g.Faces),
            'access to face data')
    if extra == 'used':
        g.mark_all_fixed_nodes()
        want = len({id(nd) for e in g.Edges if len(e.Faces) == 1 for nd in e.Nodes})
        require(g.number_of_border_nodes == want,
                'border nodes of a reused grid: {0} instead of {1}', g.number_of_border_nodes,
                want, key='stale')
    R.outcome((len(g.Nodes), len(g.Edges), len(g.Faces), len(g.Zones)))


def moved(p, shift, axis, zi):
    q = list(p)
    q[(axis + zi) % 3] += shift * zi
    return q


def zone_text(m, shift, axis):
    if not shift:
        return mesh.dat_text(m)
    # Every zone is written with its own small offset.
    pts = m['points']
    out, head = [], None
    m2 = dict(m, points=list(pts), zones=[])
    off = 0
    points = []
    for zi, z in enumerate(m['zones']):
        base = len(points)
        for p in pts:
            points.append(moved(p, shift, axis, zi))
        z2 = dict(z, faces=[[v + base for v in f] for f in z['faces']])
        if 'order' in z:
            z2['order'] = [v + base for v in z['order']]
        m2['zones'].append(z2)
    m2['points'] = points
    return mesh.dat_text(m2)


def describe(tier):
    return {
        'rule': 'One case = one generated file (or one damaged file) loaded by the real Grid and compared, corner by corner, with the description it was generated from; a case is non-trivial when the file is accepted and compared, or refused as it has to be.  States are distinct case descriptions.',
        'bounds': 'meshes: all 105 edge-manifold triangle complexes on at most 6 vertices plus 10 structured ones (<= 12 faces); all zone assignments to at most 3 zones for <= 4 faces (quick) / 6 faces (thorough), 3 patterns beyond; both merge modes; two orders of faces/nodes; all patterns of private node copies per face corner for <= 2 (3) faces; 6 name sets x 5 titles x 4 variable counts x 7 file variants (zones that repeat nodes exactly, within 1e-12, off by 4e-10 or 1e-8 along each axis, comments, isolated nodes, used grids); every single-line damage (drop, duplicate, junk line, last token lost, a fourth corner of a face, a count one too small or too great) of 5 files; all orders of 3 faces on one edge.',
        'assumptions': ['Coordinates of distinct nodes differ by at least 4e-10, of merged ones by less than 1e-11 (the rounding boundary in between is not explored).', '0 used as a 1-based node index is not among the damages.']}
