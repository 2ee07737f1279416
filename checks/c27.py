"""C27: refining splits faces at the points where the surface meets itself and changes nothing else."""
import builtins
import collections
import itertools
import json
import os
from fractions import Fraction as Q

from mc import exact, mesh, env, cli
from mc.core import require

VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta']
PLACES = [(0, 1.0), (1, 1.0), (2, 1e-3)]


def shards(tier):
    deep = tier != 'quick'
    n = len(exact.classes())
    res = [{'kind': 'pair', 'a': a, 'step': 1 if deep else 11} for a in range(n)]
    res += [{'kind': 'wing', 'a': a, 'step': 3 if deep else 67} for a in range(n)]
    res += [{'kind': 'stack', 'a': a, 'step': 1 if deep else 9} for a in range(0, n)]
    res += [{'kind': 'sheet', 'k': k, 'deep': deep} for k in range(6)]
    return res + [{'kind': 'files'}]


def valid(fs):
    """A mesh: no face twice, no edge with three faces."""
    if len({frozenset(f) for f in fs}) < len(fs):
        return False
    e = collections.Counter(frozenset(x) for f in fs for x in itertools.combinations(f, 2))
    return max(e.values()) <= 2


def run_shard(s, R):
    cl, ts = exact.classes(), exact.triangles()
    k = s['kind']
    if k == 'pair':
        # One triangle of each class with every triangle.
        t = cl[s['a']]
        for i in range(s['a'] % s['step'], len(ts), s['step']):
            go(R, [t, ts[i]], i)
    elif k == 'wing':
        # Two faces with a common edge and a third one anywhere.
        t = cl[s['a']]
        for i, p in enumerate(exact.LAT):
            for e in range(3):
                u, v = t[e], t[(e + 1) % 3]
                w = (v, u, p)
                if p in t or not exact.area2(w):
                    continue
                for j in range((i + 9 * e + s['a']) % (s['step'] * 9), len(ts), s['step'] * 9):
                    go(R, [t, w, ts[j]], i + j)
    elif k == 'stack':
        # Several triangles that cut one.
        t = cl[s['a']]
        for i in range(s['a'] % s['step'], len(ts), s['step'] * 5):
            go(R, [t] + [ts[(i + 101 * m * m + 37 * m) % len(ts)] for m in range(3)], i)
    elif k == 'sheet':
        # Many faces, one or two of them touched from above: inside, on a side, at a corner.
        fs = [tuple((4 * x, 4 * y, 0) for x, y in t) for a in range(6) for b in range(6)
              for t in (((a, b), (a + 1, b), (a + 1, b + 1)), ((a, b), (a + 1, b + 1), (a, b + 1)))]
        spots = [(3, 1), (2, 2), (2, 0), (0, 4)]
        for j in range(s['k'], 36, 6 if s['deep'] else 18):
            x, y = 4 * (j // 6), 4 * (j % 6)
            for i, (dx, dy) in enumerate(spots):
                p = (x + dx, y + dy, 0)
                spikes = [(p, (p[0] + 1, p[1], 5), (p[0], p[1] + 1, 5))]
                if i % 2:
                    q = ((x + 13) % 24, (y + 7) % 24, 0)
                    spikes.append(((q[0], q[1], -3), (q[0] + 2, q[1], -3), q))
                tt = fs[:j] + spikes + fs[j:]
                n = len(tt)
                o = [list(range(n)), list(range(n))[::-1], [v * 5 % n for v in range(n)] if n % 5 else
                     [v * 7 % n for v in range(n)]][(i + j) % 3]
                one(R, {'faces': tt, 'order': o, 'zones': (i + j) % 3, 'place': PLACES[j % 3], 'turn': 0})
    else:
        for f in range(3):
            R.step()
            R.state(f)
            R.case({'fault': f})


def go(R, tt, i):
    fs = [tuple(tuple(p) for p in t) for t in tt]
    if not valid(fs):
        return
    n = len(fs)
    orders = list(itertools.permutations(range(n)))
    if n > 2:
        orders = [orders[(i * 7 + k * 5) % len(orders)] for k in range(2)]
    for k, o in enumerate(orders):
        one(R, {'faces': fs, 'order': o, 'zones': (i + k) % 3, 'place': PLACES[(i + i // 3) % 3], 'turn': (i + k) % 4})


def one(R, c):
    R.step()
    R.state(json.dumps(c))
    R.case(c)


def run_case(c, R):
    if 'fault' in c:
        return fault(c, R)
    import refine
    fs = [tuple(tuple(p) for p in t) for t in c['faces']]
    # Corner order of the faces.
    fs = [t if not (c['turn'] + i) % 2 else (t[1], t[0], t[2]) for i, t in enumerate(fs)]
    frame, scale = c['place']
    n = len(fs)
    pts = sorted({p for t in fs for p in t})
    zones = [0] * n if c['zones'] == 0 else list(range(n)) if c['zones'] == 1 else [int(i > 0) for i in range(n)]
    faces = [[pts.index(p) for p in t] for t in fs]
    m = mesh.make(faces, zones, [exact.put(p, frame, scale) for p in pts], vars_=VARS, title='g')
    for z, rows in zip(m['zones'], m['data']):
        for f, r in zip(z['faces'], rows):
            r[0] = float(faces.index(f))
    zname = {i: m['zones'][zones[i]]['name'] for i in range(n)}
    # Where the surface meets itself.
    cuts = [set() for _ in fs]
    for i, j in itertools.combinations(range(n), 2):
        if any(max(p[k] for p in fs[i]) < min(p[k] for p in fs[j]) or max(p[k] for p in fs[j]) < min(p[k] for p in fs[i])
               for k in range(3)):
            continue
        x = exact.corners(fs[i], fs[j])
        cuts[i] |= x
        cuts[j] |= x
    cuts = [{p for p in s if exact.place(t, p) > 1} for t, s in zip(fs, cuts)]
    taken, held = {}, []

    def ident(x):
        r = builtins.id(x)
        if r not in taken:
            i = getattr(getattr(x, 'BackRef', None), 'GloId', -1)
            held.append(x)
            taken[r] = c['order'][i] if 0 <= i < n else r
        return taken[r]

    with env.scratch() as d:
        src, out = mesh.write_dat(m, os.path.join(d, 'i.dat')), os.path.join(d, 'o.dat')
        keep = open(src).read()
        refine.id = ident          # every order in which triangles can lie in memory
        try:
            with env.quiet():
                refine.refine_grid(src, out)
        finally:
            del refine.id
        require(open(src).read() == keep, 'the input was changed', key='input')
        res = mesh.parse_dat(out)
        judge(c, fs, pts, zname, cuts, m, res, frame, scale)
        import gsu
        g = gsu.Grid()
        g.load(out)
        mesh.check_valid(g, cross_ok=False)
    new = sum(len(z['faces']) for z in res['zones']) - n
    R.outcome((n, tuple(sorted(len(x) for x in cuts if x)), new))
    return True


def judge(c, fs, pts, zname, cuts, m, res, frame, scale):
    n = len(fs)
    known = {p: exact.put(p, frame, scale) for p in set(pts) | set().union(*cuts)}

    def which(p):
        for e, q in known.items():
            if max(abs(a - b) for a, b in zip(p, q)) <= 1e-7 * scale:
                return e
        require(False, 'node {0} is neither an old node nor a point where faces meet', p, key='node')
    require(res['title'] == m['title'] and res['vars'] == m['vars'], 'head', key='head')
    require([z['name'] for z in res['zones']] == [z['name'] for z in m['zones']], 'zones', key='zones')
    pieces = [[] for _ in fs]
    for z, zm in zip(res['zones'], m['zones']):
        for k in range(len(z['faces'])):
            i = int(z['data']['T'][k])
            require(zname[i] == z['name'], 'a piece of face {0} in zone {1}', i, z['name'], key='zone-of-piece')
            row = [r for rows in m['data'] for r in rows if r[0] == float(i)][0]
            require([z['data'][v][k] for v in VARS] == row, 'data of a piece of face {0}', i, key='data')
            pieces[i].append(tuple(which(p) for p in mesh.tri_of(z, k)))
    joined = {frozenset(e) for x in pieces for q in x for e in itertools.combinations(q, 2)}
    near = [[j for j in range(n) if j == i or len(set(fs[i]) & set(fs[j])) == 2] for i in range(n)]

    def refused(i):
        """A point is a node that is joined already with corners of the face (or across its side)."""
        corners = {p for j in near[i] for q in pieces[j] for p in q} | set(fs[i]) | cuts[i]
        return any(frozenset((p, q)) in joined for p in cuts[i] for q in corners if p != q)

    for i, t in enumerate(fs):
        nrm = exact.cross(exact.sub(t[1], t[0]), exact.sub(t[2], t[0]))
        total = Q(0)
        require(pieces[i], 'face {0} is lost', i, key='lost')
        for q in pieces[i]:
            require(all(exact.place(t, p) for p in q), 'piece {0} leaves face {1} {2}', q, i, t, key='outside')
            a = exact.dot(nrm, exact.cross(exact.sub(q[1], q[0]), exact.sub(q[2], q[0])))
            require(a > 0, 'piece {0} of face {1} is turned over or empty', q, i, key='turned')
            total += Q(a)
        require(total == exact.dot(nrm, nrm), 'pieces of face {0} cover {1} of {2}', i, total, exact.dot(nrm, nrm),
                key='area')
        used = {p for q in pieces[i] for p in q} - set(t)
        if not cuts[i]:
            require(len(pieces[i]) == 1 and mesh.rot_min(pieces[i][0]) == mesh.rot_min(t),
                    'face {0} meets nothing and is changed', i, key='untouched')
        if not used and refused(i):
            continue
        if len(cuts[i]) == 1:
            p = next(iter(cuts[i]))
            require(used == {p}, 'face {0} meets the surface at {1} only and is divided at {2}', i, p, used,
                    key='single')
            require(len(pieces[i]) == exact.place(t, p), 'face {0} became {1} faces', i, len(pieces[i]), key='single')
        if len(cuts[i]) == 2:
            side = [s for s in itertools.combinations(t, 2) if all(exact.area2((s[0], s[1], p)) == 0 for p in cuts[i])]
            if side:
                require(refused(i) or used == cuts[i] and len(pieces[i]) == 3, 'two points on a side of face {0} made {1}', i,
                        pieces[i], key='double')


def fault(c, R):
    with env.scratch() as d:
        import refine
        m = mesh.make(mesh.octa()[0], None, mesh.octa()[1], vars_=VARS, title='g')
        src, out = mesh.write_dat(m, os.path.join(d, 'i.dat')), os.path.join(d, 'o.dat')
        if c['fault'] == 0:
            try:
                with env.quiet():
                    refine.refine_grid(src + 'x', out)
            except Exception:
                pass
            else:
                require(False, 'missing file accepted', key='missing')
            require(not os.path.exists(out), 'a result without a source', key='missing')
        else:
            # A surface that does not meet itself stays as it is.
            if c['fault'] == 2:
                x = cli.run('refine.py', [src, out])
                require(not x.failed, 'command line failed: {0} {1}', x.exc, x.code, key='failed')
            else:
                with env.quiet():
                    refine.refine_grid(src, out)
            r = mesh.parse_dat(out)
            require([mesh.tri_of(r['zones'][0], i) for i in range(8)] ==
                    [tuple(tuple(map(float, m['points'][v])) for v in f) for f in m['zones'][0]['faces']],
                    'a surface without intersections was changed', key='clean')
    R.outcome('file')
    return True


def describe(tier):
    return {'rule': 'one lattice triangle of each class with every (quick: each 11th) lattice triangle, pairs with a '
                    'common edge cut by a third one, stacks of four; sheets of 72 faces touched at one or two points; every order in which the faces can be taken; '
                    'pieces are traced back to their faces in exact arithmetic',
            'bounds': {'lattice': '3x3x3', 'faces': '2-4, 73-74', 'places': 'three frames, units 1 and 1e-3'},
            'assumptions': ['what happens at faces with several points (other than two on one side) is left to the '
                            'tool, as long as pieces cover the face and cut only at the points']}
