"""The space of edit histories shared by C05 (validity) and C06 (geometry, data, zones)."""
import itertools

from mc import mesh, edits, env
from mc.core import require, Violation
from checks import grids


_MESHES = None


def start_meshes():
    """[(faces, points)] of all starting meshes; the first 105 are the small complexes."""
    global _MESHES
    if _MESHES is None:
        res = []
        for c in mesh.complexes(6):
            res.append((mesh.orient(c)[0], mesh.GENERAL))
        bump = lambda pts: [[x, y * (1 + 0.11 * x), 0.37 * x * x - 0.23 * y * y + 0.11 * x * y]
                            for x, y, z in pts]
        for f, p in (mesh.octa(), mesh.cube(), mesh.band(4)):
            res.append((f, [[x + 0.03 * y, y * 1.13 + 0.07 * z, z * 1.31 - 0.05 * x]
                            for x, y, z in p]))
        for nx, ny in ((2, 2), (3, 2), (3, 3)):
            f, p = mesh.rect(nx, ny)
            res.append((f, bump(p)))
        # The usual new points of some faces and edges are nodes of other faces.
        pts = [list(p) for p in mesh.GENERAL]
        pts[3] = [sum(p[i] for p in pts[:3]) / 3.0 for i in range(3)]
        pts[4] = list(edits.lerp(pts[0], pts[1], 0.5))
        pts[5] = list(edits.lerp(pts[0], pts[2], 0.25))
        res += [(f, pts) for f, _ in res[:105]]
        # Faces with several longest edges.
        f, p = mesh.rect(2, 2)
        res += [mesh.octa(), mesh.tetra(), (f, [[x + 0.5 * y, y * 0.75 ** 0.5, 0.0] for x, y, z in p]),
                (f, [[x + 0.5 * y, y, 0.0] for x, y, z in p])]
        _MESHES = res
    return _MESHES


OCTA, CUBE, BAND, RECT22, RECT32, RECT33 = range(105, 111)


def colourings(n, limit):
    """All ways to spread n faces over at most 2 zones (face 0 in zone 0), n small; else a few."""
    if n <= limit:
        return [[0] + list(bits) for bits in itertools.product((0, 1), repeat=n - 1)]
    # All of one zone, alternating, halves, three zones.
    return [[0] * n, [i % 2 for i in range(n)], [int(i >= n // 2) for i in range(n)],
            [i % 3 for i in range(n)]]


def shards(tier, part):
    res = []

    def add(i, col, depth, ops=None, at=False, **more):
        res.append(dict({'mesh': i, 'zones': col, 'depth': depth, 'ops': ops, 'at': at}, **more))
    for i, (fs, pts) in enumerate(start_meshes()):
        n = len(fs)
        for col in colourings(n, 3 if tier == 'quick' else 4):
            if i < 105:
                if n <= 3 or tier != 'quick' or col in colourings(n, 3)[:2]:
                    add(i, col, 1, at='pairs')
                if n <= (2 if tier == 'quick' else 3):
                    add(i, col, 2, at='single')
            elif i >= 111:
                add(i, col, 1 if tier == 'quick' else 2)
        if i in (RECT32, RECT33) and (tier != 'quick' or i == RECT32):
            # Far nodes may belong to either zone already.
            for col in colourings(n, 3)[1:]:
                add(i, col, 1, at='pairs')
        # Loaded without merging of nodes: each zone has nodes of its own.
        if i < 111:
            for col in colourings(n, 3)[1:]:
                deep = n <= 3 if tier == 'quick' else n <= 5
                add(i, col, 2 if deep else 1, apart=True)
        if i >= 111:
            continue
        if tier == 'quick':
            depth = 3 if n <= 1 else 2 if n <= 5 else 1
            lim = 3
        else:
            depth = 4 if n <= 1 else 3 if n <= 3 else 2
            lim = 5
        for col in colourings(n, lim):
            add(i, col, depth)
    # Deeper histories of few kinds of edits on larger meshes.
    deep = [(OCTA, ['squeeze', 'flip'], 2), (OCTA, ['squeeze', 'divide'], 2),
            (RECT22, ['squeeze', 'cut1'], 3), (RECT22, ['squeeze', 'divide'], 2),
            (BAND, ['squeeze', 'flip'], 2), (RECT32, ['squeeze', 'cut2'], 2),
            (RECT33, ['squeeze'], 3), (1, None, 3)]
    if tier != 'quick':
        deep = [(OCTA, None, 2), (CUBE, ['squeeze', 'flip', 'divide'], 3), (RECT22, None, 3),
                (BAND, None, 2), (RECT32, ['squeeze', 'cut2', 'cut1'], 3),
                (RECT33, ['squeeze', 'flip'], 3), (1, None, 4)]
    for i, ops, depth in deep:
        n = len(start_meshes()[i][0])
        for col in colourings(n, 2)[-3:]:
            add(i, col, depth, ops)
    # One shard per first edit where the tree is big, heavy ones first.
    out = []
    for s in res:
        n = len(s['zones'])
        w = 9 * (2 * n + 6 * n) ** s['depth'] if s['at'] else (2 * n + 6 * n) ** s['depth'] if s['ops'] is None else (3 * n) ** s['depth']
        parts = 8 if w > 2000 else 1
        for k in range(parts):
            out.append((w / parts, dict(s, part=[k, parts])))
    out.sort(key=lambda x: -x[0])
    return marches(tier) + [s for _, s in out]


def marches(tier):
    """Long histories: step k is edit number a k + b k^2 (modulo the number of edits there are)."""
    quick = tier == 'quick'
    res = []
    for i, col in grids.large():
        n = len(col)
        if quick and (n > 300 or max(col) == 0):
            continue
        res.append({'mesh': i, 'zones': col, 'march': [[a, 1, 12 if quick else 60] for a in
                                                       ((7, 23) if quick else (1, 7, 23, 101))]})
        if max(col):
            res.append(dict(res[-1], apart=True))
    some = [0, 1, 5, 20, 60] + list(range(105, 111)) + list(range(216, 220))
    for i in some if quick else [*range(105)] + some:
        n = len(start_meshes()[i][0])
        for col in colourings(n, 1)[1::2]:
            for b in (0, 1):
                res.append({'mesh': i, 'zones': col, 'march': [[a, b, 30 if quick else 60] for a in
                                                               ((1, 5, 11) if quick else (1, 2, 3, 5, 7, 11, 17, 31))]})
                if b and max(col):
                    res.append(dict(res[-1], apart=True))
    return res


def build(case, d):
    fs, pts = (start_meshes()[case['mesh']] if case['mesh'] < grids.BASE else grids.get(case['mesh'])[1:])
    g = mesh.load_grid(mesh.make(fs, case['zones'], pts), d, merge=not case.get('apart'))
    if case['mesh'] % 2:
        # Values that only some faces have.
        for k, f in enumerate(g.Faces):
            if k % 2:
                f['Mark'] = 0.5 * k
    return g


def run_shard(shard, R):
    if 'march' in shard:
        for m in shard['march']:
            R.state((shard['mesh'], tuple(shard['zones']), 'march', tuple(m), shard.get('apart')))
            R.step(m[2])
            R.case(dict({k: shard[k] for k in ('mesh', 'zones', 'apart') if k in shard}, march=m))
        return
    base = {k: shard[k] for k in ('mesh', 'zones', 'at', 'apart') if k in shard}
    ops = shard['ops']
    keep = lambda menu: [o for o in menu if ops is None or o[0] in ops]
    seen = set()
    first = R.case(dict(base, history=[]))
    if first is None:
        return
    frontier = [([], keep(first))]
    k, parts = shard['part']
    for depth in range(shard['depth']):
        nxt = []
        for hist, menu in frontier:
            if depth == 0:
                menu = menu[k::parts]
            for op in menu:
                h = hist + [op]
                if shard['at'] and depth == shard['depth'] - 1 and all(len(o) < 3 for o in h):
                    continue
                res = R.case(dict(base, history=h))
                R.step()
                if res is None:
                    continue
                if res == 'refused':
                    R.count('refused edits')
                    continue
                key = res['state']
                if key in seen:
                    continue
                seen.add(key)
                R.state((shard['mesh'], tuple(shard['zones']), shard.get('apart'), key))
                nxt.append((h, keep(res['menu'])))
        frontier = nxt


def run_case(case, R, part):
    with env.scratch() as d:
        g = build(case, d)
        if 'march' in case:
            a, b, n = case['march']
            for k in range(n):
                ops = edits.menu(g)
                op = ops[(a * k + b * k * k) % len(ops)]
                try:
                    step(g, op, R, part)
                except Violation as v:
                    raise Violation('step {0} of {1}: {2}'.format(k, n, v), key=v.key)
            return True
        hist = case['history']
        if not hist:
            mesh.check_valid(g)
            return menu(g, case)
        for op in hist[:-1]:
            edits.apply(g, *op)
        if step(g, hist[-1], R, part) == 'refused':
            return 'refused'
        return {'state': full(g), 'menu': menu(g, case)}


def step(g, op, R, part):
    """One edit of the real grid, judged."""
    op, key, at = (op + [None])[:3]
    before = edits.faces_of(g)
    snap = mesh.snapshot(g)
    chi = mesh.euler(g)
    want = edits.model(before[0], before[1], op, key, at)
    ret = edits.apply(g, op, key, at)
    R.outcome((op, ret, want is None, at is None))
    if want and 'tie' in want:
        # The longest edge is not unique: any of them may be chosen.
        want = chosen(g, before, want['tie'], ret, op)
    if want is None:
        if part == 'valid':
            require(ret is False, '{0} {1} cannot be applied but is not refused ({2})', op, key,
                    ret, key='not-refused-' + op)
            require(mesh.snapshot(g) == snap, 'refused {0} {1} changed the grid', op, key,
                    key='refused-changed')
        return 'refused'
    require(ret is not False, '{0} {1} was refused', op, key, key='wrongly-refused')
    if part == 'valid':
        mesh.check_valid(g)
        chi += want['dn'] - want['de'] + want['df']
        require(mesh.euler(g) == chi,
                '{0}: Euler characteristic {1} became {2}', op, chi, mesh.euler(g), key='euler')
        check_lookup(g)
        check_gone(g, before[0])
    else:
        edits.compare(g, before, want, op)
    return 'done'


def chosen(g, before, wants, ret, op):
    for w in wants:
        if w is None and ret is False:
            return None
        if w is not None and ret is not False:
            try:
                edits.compare(g, before, w, op)
                return w
            except Violation:
                pass
    raise Violation('{0} of a face with several longest edges is right for none of them ({1})'.format(op, ret),
                    key='tie')


def menu(g, case):
    """The next edits: in 'at' spaces one edit of the history is on an existing node."""
    if not case.get('at'):
        return edits.menu(g)
    res = [] if any(len(o) > 2 for o in case['history']) else edits.menu_at(g, case['at'] == 'pairs')
    return res + edits.menu(g)


def check_lookup(g):
    """Nodes are found by their coordinates (this is what merging of nodes relies on)."""
    import gsu
    import geom
    for n in g.Nodes:
        q = gsu.Node(geom.Vect(*mesh.p3(n)))
        r = g.find_near_node(q)
        require(r is not None and mesh.rnd(mesh.p3(r)) == mesh.rnd(mesh.p3(n)),
                'node {0} is not found by its coordinates', n.GloId, key='lookup')
    require(g.find_near_node(gsu.Node(geom.Vect(77.0, 0.0, 0.0))) is None, 'phantom node found')


def check_gone(g, pts):
    """Where an edit has removed a node, there is none."""
    import gsu
    import geom
    now = {mesh.rnd(mesh.p3(n), 9) for n in g.Nodes}
    for p in pts.values():
        if mesh.rnd(p, 9) not in now:
            require(g.find_near_node(gsu.Node(geom.Vect(*p))) is None, 'a node is found at {0} where there is none',
                    p, key='lookup-gone')


def full(g):
    """
    Concrete state: list orders matter for what the code does next (Faces[-1] and the like), so
    nothing is abstracted except object identities.
    """
    s = mesh.snapshot(g)
    return repr((s['nodes'], s['edges'], s['faces'], s['zones']))


def describe(tier, part):
    return {
        'rule': 'Breadth-first search over histories of atomic edits of the real Grid: every '
                'transition replays its history on a fresh grid and checks the last edit'
                + (' (full validity of the mesh, refusal without side effects, Euler '
                   'characteristic, lookup of nodes).' if part == 'valid' else
                   ' against a reference model of the surface, data, zones and orientation.'),
        'bounds': '105 small complexes (<= 6 vertices) and 6 structured meshes (octahedron, cube, '
                  'band, rectangles) in general position; six kinds of edits on every face and '
                  'edge; all 2-zone colourings for few faces, 4 patterns otherwise; at depth 1 (2 '
                  'for <= 2 faces, thorough: 3) one edit puts its points on any existing node (also of the 3x2 rectangle), or both into one place; the same without merging of nodes (depth 1-2, and long histories); long histories of 12..60 '
                  'edits (also on grids of 54..264 (1080) faces in 13 zones); depth '
                  + ('3 for 1 face, 2 for <= 5 faces, 1 beyond, 2-3 for chosen subsets of edits on '
                     'the structured meshes.' if tier == 'quick' else
                     '4 for 1 face, 3 for <= 3 faces, 2 beyond, 3 for chosen subsets.'),
        'assumptions': ['Where the longest edge is not unique any of them may be chosen.',
                        'New points of a grid loaded without merging of nodes are not put on existing nodes '
                        '(there are several in one place).']}
