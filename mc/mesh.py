"""
Small meshes as plain data, their files, and an independent reading of files and grids.

A mesh is a dict:
    title  : str
    points : [[x, y, z], ...]            global points
    zones  : [{'name': str, 'faces': [[a, b, c], ...]}, ...]   indices into points
    vars   : [name, ...]                 face variables (after X, Y, Z)
    data   : [[[v for var] for face] for zone]   values (optional: default_data is used)
Every zone writes its own copy of the nodes it uses, in order of first use (or 'order' if given).
"""
import itertools
import json
import os

from .core import Violation, require

VARS = ['GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
CRY_VARS = ['X', 'Y', 'Z', 'GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2',
            'TauX', 'TauY', 'TauZ', 'RecoveryFactor']

# Points in general position: no three on a line, no four in a plane, all distances different,
# no coordinate shared.
GENERAL = [[0.0, 0.5, 0.25], [1.0, 0.0, 0.5], [0.375, 1.25, 0.125], [0.75, 0.875, 1.5],
           [-0.5, 1.0, 1.125], [0.25, -0.75, 1.875], [1.625, 1.5, 0.0], [-1.0, -0.25, -0.5],
           [2.0, -1.0, 1.0]]


def shell_of(faces):
    return sorted({v for f in faces for v in f})


def var_value(gf, j, name):
    """Distinct value for face number gf (global order) and variable j; some zeros and negative ones."""
    if name == 'GloId':
        return float(gf)
    kind = (gf * 3 + j) % 7
    if kind == 4:
        return 0.0
    if kind == 5:
        return -((gf + 1) * 8.0 + j * 0.5)
    return (gf + 1) * 8.0 + j * 0.5 + (gf % 3) * 0.0625


def make(faces, zones=None, points=None, title='t', vars_=None, names=None, data=None):
    """
    faces: list of triples; zones: zone index of each face (default all 0).
    Faces keep their order inside a zone.  Returns a mesh.
    """
    vars_ = list(VARS if vars_ is None else vars_)
    points = [list(map(float, p)) for p in (points or GENERAL)]
    zones = zones or [0] * len(faces)
    nz = max(zones) + 1
    zs = []
    for z in range(nz):
        zs.append({'name': names[z] if names else 'zone{0}'.format(z),
                   'faces': [list(f) for f, k in zip(faces, zones) if k == z]})
    m = {'title': title, 'points': points, 'zones': zs, 'vars': vars_}
    m['data'] = data or default_data(m)
    return m


def default_data(m):
    res, gf = [], 0
    for z in m['zones']:
        rows = []
        for _ in z['faces']:
            rows.append([var_value(gf, j, v) for j, v in enumerate(m['vars'])])
            gf += 1
        res.append(rows)
    return res


def zone_nodes(z):
    if 'order' in z:
        return list(z['order'])
    seen = []
    for f in z['faces']:
        for v in f:
            if v not in seen:
                seen.append(v)
    return seen


def dat_text(m, eol='\n'):
    out = ['# crys-gsu']
    if m.get('title') is not None:
        out.append('TITLE="{0}"'.format(m['title']))
    names = ['X', 'Y', 'Z'] + m['vars']
    out.append('VARIABLES={0}'.format(', '.join('"{0}"'.format(v) for v in names)))
    for zi, z in enumerate(m['zones']):
        nd = zone_nodes(z)
        loc = {v: i + 1 for i, v in enumerate(nd)}
        out += ['ZONE T="{0}"'.format(z['name']), 'NODES={0}'.format(len(nd)),
                'ELEMENTS={0}'.format(len(z['faces'])), 'DATAPACKING=BLOCK',
                'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-{0}]=CELLCENTERED)'.format(len(names))]
        for i in range(3):
            out.append(' '.join(repr(float(m['points'][v][i])) for v in nd) + ' ')
        for j in range(len(m['vars'])):
            out.append(' '.join(repr(float(r[j])) for r in m['data'][zi]) + ' ')
        for f in z['faces']:
            out.append(' '.join(str(loc[v]) for v in f))
    return eol.join(out) + eol


def write_dat(m, path):
    with open(path, 'w', newline='\n') as f:
        f.write(dat_text(m))
    return path


def load_grid(m, d, merge=True, name='in.dat'):
    """Write the mesh in directory d and let the code under test read it."""
    import gsu
    p = write_dat(m, os.path.join(d, name))
    g = gsu.Grid()
    if merge:
        g.load(p)
    else:
        g.load(p, is_merge_same_nodes=False)
    return g


# -- independent reading of a .dat file --------------------------------------------------------------

class FormatError(Violation):
    pass


def parse_dat(path):
    """Strict reader of the grid format (what the solver and Tecplot expect)."""
    with open(path) as f:
        lines = f.read().split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    pos = 0
    title, names, zones = None, None, []

    def take():
        nonlocal pos
        if pos >= len(lines):
            raise FormatError('{0}: unexpected end of file'.format(os.path.basename(path)))
        pos += 1
        return lines[pos - 1]

    def field(prefix):
        s = take()
        if not s.startswith(prefix):
            raise FormatError('expected {0}, got {1!r}'.format(prefix, s[:60]))
        return s[len(prefix):]

    while pos < len(lines):
        s = take()
        if s.startswith('#') or not s.strip():
            continue
        if s.startswith('TITLE='):
            title = s[6:].strip().strip('"')
        elif s.startswith('VARIABLES='):
            names = [t.strip().strip('"') for t in s[10:].replace('",', '"\0').split('\0')]
        elif s.startswith('ZONE T='):
            zname = s[7:].strip()
            if not (zname.startswith('"') and zname.endswith('"')):
                raise FormatError('zone name {0!r}'.format(zname))
            zname = zname[1:-1]
            n = int(field('NODES='))
            e = int(field('ELEMENTS='))
            field('DATAPACKING=BLOCK')
            field('ZONETYPE=FETRIANGLE')
            loc = field('VARLOCATION=')
            if loc != '([4-{0}]=CELLCENTERED)'.format(len(names)):
                raise FormatError('VARLOCATION {0}'.format(loc))
            xyz = [[float(t) for t in take().split()] for _ in range(3)]
            if any(len(c) != n for c in xyz):
                raise FormatError('zone {0}: {1} nodes declared, {2} coordinates'
                                  .format(zname, n, [len(c) for c in xyz]))
            data = {}
            for v in names[3:]:
                data[v] = [float(t) for t in take().split()]
                if len(data[v]) != e:
                    raise FormatError('zone {0}: {1} values of {2} for {3} faces'
                                      .format(zname, len(data[v]), v, e))
            faces = []
            for _ in range(e):
                t = [int(x) for x in take().split()]
                if len(t) != 3 or any(x < 1 or x > n for x in t):
                    raise FormatError('zone {0}: connectivity {1} of {2} nodes'.format(zname, t, n))
                faces.append([x - 1 for x in t])
            zones.append({'name': zname, 'points': [list(p) for p in zip(*xyz)], 'faces': faces,
                          'data': data})
        else:
            raise FormatError('unexpected line {0!r}'.format(s[:80]))
    return {'title': title, 'vars': (names or [])[3:], 'names': names, 'zones': zones}


def tri_of(z, i):
    return tuple(tuple(z['points'][v]) for v in z['faces'][i])


def rnd(p, d=9):
    return tuple(round(float(c), d) + 0.0 for c in p)


def rot_min(t):
    """Triangle up to rotation (keeps the orientation)."""
    t = tuple(t)
    return min(t, t[1:] + t[:1], t[2:] + t[:2])


# -- oracle for a grid in memory ---------------------------------------------------------------------

def ident(xs):
    return {id(x) for x in xs}


def check_valid(g, zones=True, isolated_ok=False, unique_edges=True, cross_ok=True):
    """
    Structural validity of a grid, by identity of objects.  Raises Violation.
    """
    for kind, xs in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces)):
        require(len(ident(xs)) == len(xs), '{0} listed twice in the grid', kind, key='dup')
        ids = sorted(x.GloId for x in xs)
        require(ids == list(range(len(xs))),
                '{0} identifiers are not 0..{1}: {2}', kind, len(xs) - 1, ids[:40],
                key='{0}-ids'.format(kind))
    nodes, edges, faces = ident(g.Nodes), ident(g.Edges), ident(g.Faces)
    node_faces = {id(n): set() for n in g.Nodes}
    node_edges = {id(n): set() for n in g.Nodes}
    edge_faces = {id(e): set() for e in g.Edges}
    pairs = {}
    for e in g.Edges:
        require(len(e.Nodes) == 2 and len(ident(e.Nodes)) == 2, 'edge {0} has {1} nodes', e.GloId,
                len(ident(e.Nodes)), key='edge-nodes')
        require(ident(e.Nodes) <= nodes, 'edge {0} uses a node that is not in the grid', e.GloId,
                key='edge-foreign-node')
        for n in e.Nodes:
            node_edges[id(n)].add(id(e))
        k = frozenset(ident(e.Nodes))
        if unique_edges:
            require(k not in pairs, 'two edges join the same nodes', key='edge-double')
        pairs.setdefault(k, []).append(id(e))
        require(len(e.Faces) in (1, 2), 'edge {0} has {1} faces', e.GloId, len(e.Faces),
                key='edge-faces')
        require(len(ident(e.Faces)) == len(e.Faces), 'edge lists a face twice', key='edge-face-dup')
    for f in g.Faces:
        require(len(f.Nodes) == 3 and len(ident(f.Nodes)) == 3, 'face {0} has {1} distinct nodes',
                f.GloId, len(ident(f.Nodes)), key='face-nodes')
        require(ident(f.Nodes) <= nodes, 'face uses a node that is not in the grid',
                key='face-foreign-node')
        require(len(f.Edges) == 3 and len(ident(f.Edges)) == 3, 'face {0} has {1} distinct edges',
                f.GloId, len(ident(f.Edges)), key='face-edges')
        require(ident(f.Edges) <= edges, 'face uses an edge that is not in the grid',
                key='face-foreign-edge')
        want = {frozenset((id(a), id(b))) for a, b in itertools.combinations(f.Nodes, 2)}
        got = {frozenset(ident(e.Nodes)) for e in f.Edges}
        require(want == got, 'edges of face {0} do not join its nodes', f.GloId,
                key='face-edge-nodes')
        for n in f.Nodes:
            node_faces[id(n)].add(id(f))
        for e in f.Edges:
            edge_faces[id(e)].add(id(f))
    for n in g.Nodes:
        require(len(n.Edges) == len(ident(n.Edges)) and ident(n.Edges) == node_edges[id(n)],
                'edges of node {0} are not those that use it', n.GloId, key='node-edges')
        require(len(n.Faces) == len(ident(n.Faces)) and ident(n.Faces) == node_faces[id(n)],
                'faces of node {0} are not those that use it', n.GloId, key='node-faces')
        if not isolated_ok:
            require(n.Faces, 'node {0} belongs to no face', n.GloId, key='node-isolated')
    for e in g.Edges:
        require(ident(e.Faces) == edge_faces[id(e)], 'faces of edge {0} are not those that use it',
                e.GloId, key='edge-face-link')
    if zones:
        check_zones(g)


def check_zones(g):
    zs = ident(g.Zones)
    require(len(zs) == len(g.Zones), 'a zone is listed twice', key='zone-dup')
    owner = {}
    for z in g.Zones:
        for f in z.Faces:
            require(id(f) not in owner, 'face in two zones', key='zone-face-twice')
            owner[id(f)] = z
            require(f.Zone is z, 'face listed in a zone it is not linked to', key='zone-face-link')
        require(len(z.Nodes) == len(ident(z.Nodes)), 'zone lists a node twice', key='zone-node-dup')
        require(len(z.Edges) == len(ident(z.Edges)), 'zone lists an edge twice',
                key='zone-edge-dup')
        require(ident(z.Nodes) == {id(n) for f in z.Faces for n in f.Nodes},
                'nodes of zone {0} are not the nodes of its faces', z.Name, key='zone-nodes')
        require(ident(z.Edges) == {id(e) for f in z.Faces for e in f.Edges},
                'edges of zone {0} are not the edges of its faces', z.Name, key='zone-edges')
    require(set(owner) == ident(g.Faces), 'faces in zones are not the faces of the grid',
            key='zone-cover')


def euler(g):
    return len(g.Nodes) - len(g.Edges) + len(g.Faces)


def p3(n):
    p = n.P
    return (float(p.X), float(p.Y), float(p.Z))


def grid_triangles(g):
    return [tuple(p3(n) for n in f.Nodes) for f in g.Faces]


def snapshot(g):
    """Everything observable about a grid (identity free)."""
    ni = {id(n): i for i, n in enumerate(g.Nodes)}
    ei = {id(e): i for i, e in enumerate(g.Edges)}
    fi = {id(f): i for i, f in enumerate(g.Faces)}
    zi = {id(z): i for i, z in enumerate(g.Zones)}
    q = lambda d, x: d.get(id(x), 'foreign')
    return {
        'name': g.Name,
        'nodes': [(n.GloId, p3(n), sorted(str(q(ei, e)) for e in n.Edges),
                   sorted(str(q(fi, f)) for f in n.Faces)) for n in g.Nodes],
        'edges': [(e.GloId, [q(ni, n) for n in e.Nodes], [q(fi, f) for f in e.Faces])
                  for e in g.Edges],
        'faces': [(f.GloId, [q(ni, n) for n in f.Nodes], [q(ei, e) for e in f.Edges],
                   q(zi, f.Zone), sorted((k, repr(v)) for k, v in f.Data.items()))
                  for f in g.Faces],
        'zones': [(z.Name, sorted(str(q(ni, n)) for n in z.Nodes),
                   sorted(str(q(ei, e)) for e in z.Edges), sorted(str(q(fi, f)) for f in z.Faces))
                  for z in g.Zones],
    }


def canon(g):
    """
    Canonical form of a grid for state hashing: everything above without list order and without
    the numbering of edges (which no file of the system carries).
    """
    fs = sorted((f.GloId, tuple(n.GloId for n in f.Nodes), f.Zone.Name if f.Zone else None)
                for f in g.Faces)
    ns = sorted((n.GloId, rnd(p3(n))) for n in g.Nodes)
    return repr((fs, ns))


# -- small complexes ---------------------------------------------------------------------------------

_COMPLEXES = None


def complexes(nmax, fmin=1, fmax=99, connected=None):
    """
    All sets of triangles on at most nmax (<= 6) vertices in which no edge has more than two
    triangles, up to renumbering of the vertices (see tools/gen_complexes.py).
    """
    global _COMPLEXES
    if _COMPLEXES is None:
        here = os.path.dirname(os.path.abspath(__file__))
        _COMPLEXES = json.load(open(os.path.join(here, 'complexes.json')))
    res = []
    for c in _COMPLEXES:
        nv = len({v for f in c for v in f})
        if nv <= nmax and fmin <= len(c) <= fmax:
            if connected is None or is_connected(c) == connected:
                res.append(c)
    return res


def is_connected(faces):
    """Connected through edges."""
    faces = [set(f) for f in faces]
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j, f in enumerate(faces):
            if j not in seen and len(f & faces[i]) == 2:
                seen.add(j)
                todo.append(j)
    return len(seen) == len(faces)


def orient(faces):
    """Orient consistently where possible; returns (faces, is_orientable)."""
    faces = [list(f) for f in faces]
    ok = True
    done = set()

    def dirs(f):
        return {(f[0], f[1]), (f[1], f[2]), (f[2], f[0])}
    for s in range(len(faces)):
        if s in done:
            continue
        done.add(s)
        todo = [s]
        while todo:
            i = todo.pop()
            for j in range(len(faces)):
                sh = set(faces[i]) & set(faces[j])
                if i == j or len(sh) != 2:
                    continue
                same = bool(dirs(faces[i]) & dirs(faces[j]))
                if j not in done:
                    if same:
                        faces[j] = [faces[j][0], faces[j][2], faces[j][1]]
                    done.add(j)
                    todo.append(j)
                elif same:
                    ok = False
    return faces, ok


def strip(n):
    """Strip of n triangles."""
    return [[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(n)]


def fan(n, closed):
    """n triangles around vertex 0."""
    m = n if closed else n + 1
    return [[0, 1 + i, 1 + (i + 1) % m] for i in range(n)]


def rect(nx, ny):
    """nx x ny cells, two triangles each; points on the integer lattice in z = 0."""
    idx = lambda i, j: j * (nx + 1) + i
    faces = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            faces += [[a, b, c], [a, c, d]]
    pts = [[float(i), float(j), 0.0] for j in range(ny + 1) for i in range(nx + 1)]
    return faces, pts


def tetra():
    return [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]], [[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]


def octa():
    f = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
    p = [[1., 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
    return f, p


def cube():
    p = [[float(i), float(j), float(k)] for k in (0, 1) for j in (0, 1) for i in (0, 1)]
    q = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    f = []
    for a, b, c, d in q:
        f += [[a, b, c], [a, c, d]]
    return f, p


def band(n, rings=1):
    """Cylinder side: n segments, open at both ends."""
    import math
    pts, faces = [], []
    for j in range(rings + 1):
        for i in range(n):
            a = 2 * math.pi * i / n
            pts.append([round(math.cos(a), 6), round(math.sin(a), 6), float(j)])
    for j in range(rings):
        for i in range(n):
            a, b = j * n + i, j * n + (i + 1) % n
            c, d = b + n, a + n
            faces += [[a, b, c], [a, c, d]]
    return faces, pts


def relabel(faces, pts, perm):
    return [[perm[v] for v in f] for f in faces], [pts[perm.index(i)] for i in range(len(pts))]
