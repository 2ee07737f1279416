"""
Atomic edits of a grid: alphabet, execution on the real code, and a boring reference model.

Model: a mesh is a multiset of faces (oriented triangle of points, zone name, data).  An edit
replaces the faces around the edited face or edge:
    divide   face          -> three faces around the new point
    cut      inner edge    -> each of its two faces is halved
    cut1     border edge   -> its face is halved
    cut2     edge, p1, p2  -> each of its faces is cut into three
    flip     face          -> (collapse_face) the longest edge is swapped for the other diagonal
    squeeze  inner edge    -> (collapse_edge) its two faces vanish, both ends move to the middle
Edits that cannot be applied are refused (False) and change nothing.

A new point can also be asked for where a node is already (third member of an edit: the node, or
None for the usual point).  Then this node is used, unless a new edge would join nodes that are
joined already or a node with itself: such an edit is refused.
"""
from . import mesh
from .core import require, Violation

OPS_FACE = ('divide', 'flip')
OPS_EDGE = ('cut', 'cut1', 'cut2', 'squeeze')


def lerp(a, b, t):
    return tuple(a[i] + (b[i] - a[i]) * t for i in range(3))


def face_list(g):
    return sorted(g.Faces, key=lambda f: f.GloId)


def edge_key(e):
    return tuple(sorted(n.GloId for n in e.Nodes))


def edge_list(g):
    return sorted(g.Edges, key=edge_key)


def menu(g, ops=OPS_FACE + OPS_EDGE):
    """All edits of this grid, named by the identifiers of nodes (independent of list order)."""
    res = []
    for f in face_list(g):
        k = sorted(n.GloId for n in f.Nodes)
        res += [[o, k] for o in OPS_FACE if o in ops]
    for e in edge_list(g):
        res += [[o, list(edge_key(e))] for o in OPS_EDGE if o in ops]
    return res


def menu_at(g, pairs):
    """The edits that put a new point on an existing node (all nodes)."""
    res = []
    ids = sorted(n.GloId for n in g.Nodes)
    for f in face_list(g):
        k = sorted(n.GloId for n in f.Nodes)
        res += [['divide', k, [v]] for v in ids]
    for e in edge_list(g):
        k = list(edge_key(e))
        res += [['cut' if len(e.Faces) == 2 else 'cut1', k, [v]] for v in ids]
        # Corners of the faces are tried one at a time.
        far = [v for v in ids if all(v != n.GloId for f in e.Faces for n in f.Nodes)]
        res += [['cut2', k, at] for v in ids for at in ([v, None], [None, v])]
        # Both points in one place.
        res += [['cut2', k, ['same', 'same']]]
        res += [['cut2', k, [v, w]] for v in far for w in far if pairs]
    return res


def pick(g, key):
    xs = g.Faces if len(key) == 3 else g.Edges
    for x in xs:
        if sorted(n.GloId for n in x.Nodes) == list(key):
            return x
    raise Violation('the grid lost {0}'.format(key), key='lost')


def apply(g, op, key, at=None):
    """Run one edit on the real code; returns what it returned."""
    import geom
    x = pick(g, key)
    pts = {n.GloId: mesh.p3(n) for n in g.Nodes} if at else {}
    if op == 'divide':
        p = [sum(mesh.p3(n)[i] for n in x.Nodes) / 3.0 for i in range(3)]
        if at:
            p = pts[at[0]]
        return g.divide_face(x, geom.Vect(*p))
    if op == 'flip':
        return g.collapse_face(x)
    # The cut points are in the order of the nodes of the edge.
    a, b = (mesh.p3(n) for n in x.Nodes)
    if at and op in ('cut', 'cut1'):
        p = geom.Vect(*pts[at[0]])
        return g.cut_edge(x, p) if op == 'cut' else g.cut_single_edge(x, p)
    if at and at[0] == 'same':
        p = lerp(a, b, 0.5)
        return g.cut_edge_with_two_nodes(x, geom.Vect(*p), geom.Vect(*p))
    if at and op == 'cut2':
        to = dict(zip(key, at))
        ps = [lerp(a, b, t) if to[n.GloId] is None else pts[to[n.GloId]]
              for n, t in zip(x.Nodes, (0.25, 0.75))]
        return g.cut_edge_with_two_nodes(x, geom.Vect(*ps[0]), geom.Vect(*ps[1]))
    if op == 'cut':
        return g.cut_edge(x, geom.Vect(*lerp(a, b, 0.5)))
    if op == 'cut1':
        return g.cut_single_edge(x, geom.Vect(*lerp(a, b, 0.5)))
    if op == 'cut2':
        return g.cut_edge_with_two_nodes(x, geom.Vect(*lerp(a, b, 0.25)),
                                         geom.Vect(*lerp(a, b, 0.75)))
    if op == 'squeeze':
        return g.collapse_edge(x)
    raise ValueError(op)


# -- reference model ---------------------------------------------------------------------------------

def faces_of(g):
    """(nodes as ids, zone name, data) of every face by identifier, and points of nodes by id."""
    pts = {n.GloId: mesh.p3(n) for n in g.Nodes}
    fs = {f.GloId: (tuple(n.GloId for n in f.Nodes), f.Zone.Name,
                    tuple(sorted(f.Data.items()))) for f in g.Faces}
    return pts, fs


def subst(t, a, b):
    return tuple(b if v == a else v for v in t)


def nbrs(fs, v):
    return {u for t, _, _ in fs.values() if v in t for u in t} - {v}


def place(pts, fs, p, v, k, corners):
    """
    The node for new point p (on node v, if it is given) that edges join with the corners: its
    name, or None if there can be no such edges.
    """
    if v is None:
        same = [u for u in pts if mesh.rnd(pts[u], 8) == mesh.rnd(p, 8)]
        if not same:
            pts['p', k] = p
            return 'p', k
        v = same[0]
    if v in corners or nbrs(fs, v) & set(corners):
        return None
    return v


def model(pts, fs, op, key, at=None, side=None):
    """
    Returns None if the edit has to be refused, else dict(pts, fs, touched, removed):
    fs maps identifier or ('new', k) to face; 'touched' are the identifiers that were replaced.
    Where a face has several longest edges the answer is {'tie': [answer for each of them]}.
    """
    key = tuple(key)
    pts, fs = dict(pts), dict(fs)
    n0, at = len(pts), at or [None, None]
    if op == 'divide':
        i = [k for k, f in fs.items() if sorted(f[0]) == sorted(key)][0]
        t, z, d = fs[i]
        c = tuple(sum(pts[v][k] for v in t) / 3.0 for k in range(3))
        n = place(pts, fs, c, at[0], 0, t)
        if n is None:
            return None
        fs.pop(i)
        new = [((t[0], t[1], n), z, d), ((t[1], t[2], n), z, d), ((t[2], t[0], n), z, d)]
        return {'pts': pts, 'fs': fs, 'new': new, 'old': [i], 'dn': len(pts) - n0, 'de': 3, 'df': 2}
    if op == 'flip':
        i = [k for k, f in fs.items() if sorted(f[0]) == sorted(key)][0]
        t, z, d = fs[i]
        es = [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
        ln = [sum((pts[a][k] - pts[b][k]) ** 2 for k in range(3)) for a, b in es]
        longest = [e for e, x in zip(es, ln) if x > max(ln) * (1 - 1e-9)]
        if side is None and len(longest) > 1:
            return {'tie': [model(pts, fs, op, key, at, e) for e in longest]}
        a, b = side or longest[0]
        js = [k for k, f in fs.items() if k != i and a in f[0] and b in f[0]]
        if not js:
            return None
        j = js[0]
        t2, z2, d2 = fs[j]
        c = [v for v in t if v not in (a, b)][0]
        e = [v for v in t2 if v not in (a, b)][0]
        if e in nbrs(fs, c) or c == e:
            return None
        del fs[i], fs[j]
        # (a b c) + (b a e)  ->  (a e c) + (e b c); which child follows which parent is not fixed.
        new = [(subst(t, b, e), None, None), (subst(t, a, e), None, None)]
        return {'pts': pts, 'fs': fs, 'new': new, 'old': [i, j], 'dn': 0, 'de': 0, 'df': 0,
                'bag': [(z, d), (z2, d2)]}
    a, b = key
    js = [k for k, f in fs.items() if a in f[0] and b in f[0]]
    if op in ('cut', 'squeeze') and len(js) != 2:
        return None
    if op == 'cut1' and len(js) != 1:
        return None
    if op in ('cut', 'cut1'):
        n = place(pts, fs, lerp(pts[a], pts[b], 0.5), at[0], 0, {v for j in js for v in fs[j][0]})
        if n is None:
            return None
        new = []
        for j in js:
            t, z, d = fs.pop(j)
            new += [(subst(t, a, n), z, d), (subst(t, b, n), z, d)]
        return {'pts': pts, 'fs': fs, 'new': new, 'old': js, 'dn': len(pts) - n0, 'de': 1 + len(js),
                'df': len(js)}
    if op == 'cut2' and at[0] == 'same':
        return None
    if op == 'cut2':
        corners = {v for j in js for v in fs[j][0]}
        n = place(pts, fs, lerp(pts[a], pts[b], 0.25), at[0], 0, corners)
        m = place(pts, fs, lerp(pts[a], pts[b], 0.75), at[1], 1, corners)
        if n is None or m is None or n == m or n in nbrs(fs, m):
            return None
        new = []
        for j in js:
            t, z, d = fs.pop(j)
            new += [(subst(t, b, n), z, d), (subst(subst(t, a, n), b, m), z, d),
                    (subst(t, a, m), z, d)]
        return {'pts': pts, 'fs': fs, 'new': new, 'old': js, 'dn': len(pts) - n0, 'de': 2 + 2 * len(js),
                'df': 2 * len(js)}
    if op == 'squeeze':
        opp = {v for j in js for v in fs[j][0]} - {a, b}
        if len(opp) != 2 or nbrs(fs, a) & nbrs(fs, b) != opp:
            return None
        rest = {k: f for k, f in fs.items() if k not in js}
        # Each vanishing face has a neighbour across one of the edges that fall together ...
        for c in opp:
            if not any(c in f[0] and (a in f[0] or b in f[0]) for f in rest.values()):
                return None
        # ... and no two faces become the same.
        m = ('p', 0)
        pts[m] = lerp(pts[a], pts[b], 0.5)
        if any(mesh.rnd(pts[v], 8) == mesh.rnd(pts[m], 8) for v in pts if v not in (a, b, m)):
            return None
        fs2 = {k: (subst(subst(f[0], a, m), b, m), f[1], f[2]) for k, f in rest.items()}
        keys = [tuple(sorted(map(str, f[0]))) for f in fs2.values()]
        if len(set(keys)) != len(keys):
            return None
        if any(f[0].count(m) > 1 for f in fs2.values()):
            return None
        return {'pts': pts, 'fs': fs2, 'new': [], 'old': js, 'dn': -1, 'de': -3, 'df': -2}
    raise ValueError(op)


# Points are compared after rounding; where a point is on the boundary of a cell of the first lattice
# the second one decides.
OFFSETS = (0.3718e-8, 0.8139e-8)


def tri_key(pts, t, off=OFFSETS[0]):
    return mesh.rot_min(tuple(mesh.rnd([x + off for x in pts[v]], 8) for v in t))


def compare(g, before, m, op):
    try:
        compare_by(g, before, m, op, lambda pts, t: tri_key(pts, t, OFFSETS[0]))
    except Violation:
        compare_by(g, before, m, op, lambda pts, t: tri_key(pts, t, OFFSETS[1]))


def compare_by(g, before, m, op, tri_key):
    """The grid after the edit against the model."""
    pts0, fs0 = before
    pts, fs = faces_of(g)
    require(len(pts) == len(pts0) + m['dn'], '{0}: {1} nodes became {2}', op, len(pts0), len(pts),
            key='count-nodes')
    require(len(fs) == len(fs0) + m['df'], '{0}: {1} faces became {2}', op, len(fs0), len(fs),
            key='count-faces')
    want = sorted((tri_key(m['pts'], f[0]), f[1], f[2]) for f in m['fs'].values())
    if 'bag' not in m:
        want = sorted(want + [(tri_key(m['pts'], f[0]), f[1], f[2]) for f in m['new']])
        got = sorted((tri_key(pts, f[0]), f[1], f[2]) for f in fs.values())
        report(want, got, op)
    else:
        nt = sorted(tri_key(m['pts'], f[0]) for f in m['new'])
        got = [(tri_key(pts, f[0]), f[1], f[2]) for f in fs.values()]
        got_new = [x for x in got if x[0] in nt]
        got_old = sorted(x for x in got if x[0] not in nt)
        report(sorted((t, '', ()) for t in nt), sorted((x[0], '', ()) for x in got_new), op)
        report(want, got_old, op)
        require(sorted(x[1:] for x in got_new) == sorted(m['bag']),
                '{0}: zones and data of the two new faces are {1}, the old two had {2}', op,
                [x[1:] for x in got_new], m['bag'], key='flip-data')
    # Faces that the edit did not replace keep their identifiers (as long as these are valid).
    for k, f in m['fs'].items():
        if k < len(fs):
            require(k in fs and tri_key(pts, fs[k][0]) == tri_key(m['pts'], f[0]),
                    '{0}: face {1} outside of the edit changed its identifier', op, k,
                    key='id-moved')


def report(want, got, op):
    if want == got:
        return
    extra = [x for x in got if x not in want]
    lost = [x for x in want if x not in got]
    key = 'faces'
    flat = lambda xs: sorted((sorted(x[0]), x[1], x[2]) for x in xs)
    if flat(want) == flat(got):
        key = 'orientation'
    elif sorted(x[0] for x in want) == sorted(x[0] for x in got):
        key = 'inherit'
    raise Violation('{0}: {1}: expected {2}, got {3}'.format(op, key, lost[:3], extra[:3]), key=key)
