"""C19: a cloud of triangles answers as its triangles one by one."""
import itertools

from mc import exact, mesh
from mc.core import require

PLACES = [(0, 1.0), (1, 1.0), (2, 1e-3)]
BIG = list(itertools.product(range(-1, 4), repeat=3))


def shards(tier):
    n = len(exact.classes())
    deep = tier != 'quick'
    res = [{'kind': 'pairs', 'a': a, 'deep': deep} for a in range(n)]
    # Clouds with deep trees of boxes.
    res = [{'kind': 'deep', 'step': k, 'leaf': leaf, 'place': p} for k in (1, 2, 3) for leaf in (None, 1, 2)
           for p in range(3) if deep or (k + (leaf or 0)) % 3 == p] + res
    res += [{'kind': 'windows', 'a': a, 'deep': deep} for a in range(n)]
    res += [{'kind': 'closed', 'name': x, 'place': p, 'half': h} for x in CLOSED for p in PLACES
            for h in range(5)]
    return res


def octa():
    """Surfaces with integer corners."""
    return [(t[0], t[1], t[2]) for t in (
        ((3, 1, 1), (1, 3, 1), (1, 1, 3)), ((1, 3, 1), (-1, 1, 1), (1, 1, 3)),
        ((-1, 1, 1), (1, -1, 1), (1, 1, 3)), ((1, -1, 1), (3, 1, 1), (1, 1, 3)),
        ((1, 3, 1), (3, 1, 1), (1, 1, -1)), ((-1, 1, 1), (1, 3, 1), (1, 1, -1)),
        ((1, -1, 1), (-1, 1, 1), (1, 1, -1)), ((3, 1, 1), (1, -1, 1), (1, 1, -1)))]


def tetra():
    a, b, c, d = (-1, -1, -1), (3, -1, 0), (0, 3, -1), (1, 1, 3)
    return [(a, c, b), (a, b, d), (b, c, d), (c, a, d)]


def cube():
    res = []
    for k in range(3):
        for v in (0, 2):
            q = []
            for x, y in ((0, 0), (2, 0), (2, 2), (0, 2)):
                p = [x, y]
                p.insert(k, v)
                q.append(tuple(p))
            res += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return res


CLOSED = {'octa': octa, 'tetra': tetra, 'cube': cube}


def run_shard(s, R):
    n = len(exact.classes())
    if s['kind'] == 'pairs':
        for b in range(s['a'], n):
            for pl in PLACES if s['deep'] else [PLACES[(s['a'] + b) % 3]]:
                go(R, {'kind': 'sets', 'x': [s['a'], b], 'y': [b], 'place': pl, 'leaf': 1,
                       'few': not s['deep']})
    elif s['kind'] == 'deep':
        x = list(range(0, n, s['step']))
        x = [x[i * 17 % len(x)] for i in range(len(x))] if len(x) % 17 else x[::-1]
        go(R, {'kind': 'sets', 'x': x, 'y': [1, n // 2, n - 1], 'place': PLACES[s['place']], 'leaf': s['leaf'],
               'few': True})
    elif s['kind'] == 'windows':
        for size in (1, 3, 4, 5, 6, 7, 8):
            for leaf in (1, 2, 3) if s['deep'] else (1 + (size + s['a']) % 3,):
                x = [(s['a'] + 7 * i) % n for i in range(size)]
                y = [(s['a'] + 3 + 5 * i) % n for i in range(1 + size // 2)]
                for rev in (False, True) if s['deep'] else (s['a'] % 2 == 1,):
                    go(R, {'kind': 'sets', 'x': x[::-1] if rev else x, 'y': y, 'place': PLACES[size % 3],
                           'leaf': leaf, 'few': False})
    else:
        go(R, dict(s))


def go(R, c):
    R.state(str(c))
    R.case(c)


_hit, _cut = {}, {}
SEGS = [(p, q) for p in exact.LAT for q in exact.LAT if p != q]


def hits(k):
    """Segments (by index) which meet triangle k: square of the way to it."""
    if k not in _hit:
        t = exact.classes()[k]
        _hit[k] = {}
        for i, (p, q) in enumerate(SEGS):
            pts = exact.meet(t, p, q)[1]
            if pts:
                _hit[k][i] = min(exact.dot(exact.sub(x, p), exact.sub(x, p)) for x in pts)
    return _hit[k]


def cut(a, b):
    if (a, b) not in _cut:
        _cut[a, b] = len(exact.corners(exact.classes()[a], exact.classes()[b])) > 0
    return _cut[a, b]


def run_case(c, R):
    import geom
    frame, unit = c['place']

    def make(t):
        return geom.Triangle(*(geom.Vect(*exact.put(p, frame, unit)) for p in t))
    if c['kind'] == 'closed':
        return closed(c, R, make)
    old = geom.TrianglesCloud.MaxListTrianglesCount
    if c['leaf']:
        geom.TrianglesCloud.MaxListTrianglesCount = c['leaf']
    try:
        xs, ys = ([make(exact.classes()[k]) for k in c[w]] for w in 'xy')
        num = {id(t): k for t, k in zip(xs + ys, c['x'] + c['y'])}
        X, Y = geom.TrianglesCloud(list(xs)), geom.TrianglesCloud(list(ys))
        for i, (p, q) in enumerate(SEGS):
            if c['few'] and i % 9 != sum(c['x']) % 9:
                continue
            got = X.first_intersection_with_segment(
                geom.Segment(geom.Vect(*exact.put(p, frame, unit)), geom.Vect(*exact.put(q, frame, unit))))
            R.step()
            want = [k for k in c['x'] if i in hits(k)]
            require((got is None) == (not want), 'segment {0}-{1} meets {2} of the cloud {3}, answer is {4}',
                    p, q, want, c['x'], str(got), key='segment')
            if got is not None:
                require(any(got is t for t in xs) and num[id(got)] in want,
                        'segment {0}-{1} meets {2}, answer is {3}', p, q, want, str(got), key='segment')
                way = {k: hits(k)[i] for k in want}
                require(way[num[id(got)]] == min(way.values()), 'segment {0}-{1} meets {2} first, answer '
                        'is {3}', p, q, min(way, key=way.get), num[id(got)], key='first')
            R.outcome(len(want))
        pairs(X, Y, xs, ys, num, R)
        pairs(Y, X, ys, xs, num, R)
        if len(xs) < 9:
            pairs(X, X, xs, xs, num, R)
    finally:
        geom.TrianglesCloud.MaxListTrianglesCount = old
    return True


def pairs(X, Y, xs, ys, num, R):
    res = X.intersection_with_triangles_cloud(Y)
    require(len(res) % 2 == 0, 'records come in pairs', key='pairs')
    got = sorted((id(res[i][0]), id(res[i + 1][0])) for i in range(0, len(res), 2))
    want = sorted((id(a), id(b)) for a in xs for b in ys if a is not b and cut(num[id(a)], num[id(b)]))
    R.step()
    name = lambda ps: [(num[a], num[b]) for a, b in ps]
    require(got == want, 'clouds cross in {0} instead of {1}', name(got), name(want), key='clouds')
    for i in range(0, len(res), 2):
        a, b = res[i][0], res[i + 1][0]
        pts = a.intersection_with_triangle(b)
        for r in res[i:i + 2]:
            require(len(r[1]) == len(pts) and all(p == q for p, q in zip(r[1], pts)),
                    'points of a crossing', key='points')


def closed(c, R, make):
    """No segment passes from one side of a closed surface to another one."""
    import geom
    frame, unit = c['place']
    ts = CLOSED[c['name']]()
    cloud = geom.TrianglesCloud([make(t) for t in ts])
    pos = {p: geom.Vect(*exact.put(p, frame, unit)) for p in BIG}
    for i, p in enumerate(BIG):
        if i % 5 != c['half']:
            continue
        for q in BIG:
            if p == q:
                continue
            want = any(exact.meet(t, p, q)[1] for t in ts)
            got = cloud.first_intersection_with_segment(geom.Segment(pos[p], pos[q]))
            R.step()
            R.outcome(('closed', want))
            require((got is not None) == want, 'segment {0}-{1} and closed surface {2}: {3}', p, q,
                    c['name'], str(got), key='closed')
    return True


def describe(tier):
    return {
        'rule': 'One state = one or two clouds; all segments of the lattice (a ninth of them for pairs '
                'when quick) and all pairs of triangles are compared with exact answers for single '
                'triangles.',
        'bounds': 'All pairs of classes of triangles of the 3x3x3 lattice; clouds of 1 and 3 to 8 of them '
                  'with leaves of 1 to 3 triangles, in both orders (quick: one of these); clouds of all, every second and every '
                  'third class with leaves of 1, 2 and the usual count; three closed surfaces with all '
                  'segments of the 5x5x5 lattice; 3 rational frames, units 1 and 1e-3.',
        'assumptions': ['Triangles and segments are not degenerate.']}
