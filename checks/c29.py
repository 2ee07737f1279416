"""C29: vectors, boxes and triangles obey geometry."""
import itertools
import math
from fractions import Fraction as Q

from mc import exact
from mc.core import require

LAT = list(itertools.product(range(-2, 3), repeat=3))
PLACES = [(0, 1.0), (1, 1.0), (2, 1e-3), (1, 1e3), (0, 1e-3), (2, 1.0)]
UNITS = [1.0, 1e-3, 1e4, 0.1]


def boxes():
    iv = [(a, b) for a in range(3) for b in range(a, 3)]
    return list(itertools.product(iv, repeat=3))


def shards(tier):
    deep = tier != 'quick'
    n = len(exact.classes())
    return [{'kind': 'vect', 'i': i, 'deep': deep} for i in range(len(LAT))] + \
           [{'kind': 'on', 'i': i, 'deep': deep} for i in range(0, len(exact.LAT))] + \
           [{'kind': 'box', 'i': i, 'deep': deep} for i in range(0, 216, 1 if deep else 5)] + \
           [{'kind': 'tri', 'i': i, 'deep': deep} for i in range(n)] + \
           [{'kind': 'equal', 'i': i, 'deep': deep} for i in range(n)] + \
           [{'kind': 'sort', 'i': i, 'deep': deep} for i in range(12)]


def run_shard(s, R):
    k, i = s['kind'], s['i']

    def go(c):
        R.step()
        R.state(repr(c))
        R.case(c)
    if k == 'vect':
        for j, b in enumerate(LAT):
            for u in UNITS if s['deep'] else [UNITS[(i + j) % 4]]:
                go({'v': [LAT[i], b], 'unit': u})
    elif k == 'on':
        for q in exact.LAT:
            if q != exact.LAT[i]:
                for u in UNITS if s['deep'] else UNITS[:2]:
                    go({'on': [exact.LAT[i], q], 'unit': u})
    elif k == 'box':
        for j, b in enumerate(boxes()):
            go({'box': [boxes()[i], b], 'turn': (i + j) % 8})
    elif k == 'tri':
        for o in range(6):
            for pl in range(len(PLACES)):
                go({'tri': exact.classes()[i], 'order': o, 'place': pl})
    elif k == 'equal':
        ts = exact.triangles()
        for j in range(0 if s['deep'] else i % 5, len(ts), 1 if s['deep'] else 5):
            go({'equal': [exact.classes()[i], ts[j]], 'place': (i + j) % 6})
        go({'equal': [exact.classes()[i], exact.classes()[i]], 'place': i % 6})
    elif k == 'sort':
        ts = exact.triangles()
        pool = [ts[(i * 191 + 157 * m * m) % len(ts)] for m in range(5 if s['deep'] else 4)]
        pool += [tuple(pool[0])]
        for n in range(len(pool) + 1):
            for w in itertools.permutations(range(len(pool)), n):
                for axis in range(3):
                    go({'sort': [pool[x] for x in w], 'axis': axis})


def near(x, y, tol, what, *a):
    x = x.coords_tuple() if hasattr(x, 'coords_tuple') else x
    xs, ys = (x, y) if isinstance(y, (tuple, list)) else ([x], [y])
    require(len(xs) == len(ys) and all(abs(p - q) <= tol for p, q in zip(xs, ys)),
            what + ': {0} instead of {1} for ' + repr(a), list(xs), list(ys), key=what)


def run_case(c, R):
    return {'v': vect, 'on': on, 'box': box, 'tri': tri, 'equal': equal, 'sort': sort}[next(iter(c))](c, R)


def vect(c, R):
    import geom
    V = geom.Vect
    ea, eb = c['v']
    u = c['unit']
    a, b = V(*(u * x for x in ea)), V(*(u * x for x in eb))
    k1, k2 = u * 20 * 1e-15, u * u * 60 * 1e-15
    dot, cr = exact.dot(ea, eb), exact.cross(ea, eb)
    n2 = exact.dot(ea, ea)
    near(a + b, [u * (x + y) for x, y in zip(ea, eb)], k1, 'sum', c)
    near(a - b, [u * (x - y) for x, y in zip(ea, eb)], k1, 'difference', c)
    for k in (0, 1, -3, 0.5, 2.0):
        near(a * k, [u * k * x for x in ea], k1, 'product', c, k)
        near(k * a, [u * k * x for x in ea], k1, 'product', c, k)
        if k:
            near(a / k, [u * x / k for x in ea], k1, 'quotient', c, k)
    near(a * b, u * u * dot, k2, 'dot product', c)
    near(V.dot_product(a, b), u * u * dot, k2, 'dot product', c)
    near(V.cross_product(a, b), [u * u * x for x in cr], k2, 'cross product', c)
    near(V.middle_point(a, b), [u * (x + y) / 2 for x, y in zip(ea, eb)], k1, 'middle', c)
    near(a.mod2(), u * u * n2, k2, 'square of length', c)
    near(a.mod(), u * math.sqrt(n2), k1, 'length', c)
    d = exact.sub(ea, eb)
    near(a.dist_to(b), u * math.sqrt(exact.dot(d, d)), k1, 'distance', c)
    if n2:
        near(a.orth(), [x / math.sqrt(n2) for x in ea], 1e-14, 'orth', c)
        if any(eb):
            cos = dot / math.sqrt(n2 * exact.dot(eb, eb))
            near(V.angle_cos(a, b), cos, 1e-14, 'cosine', c)
            # By another formula, exact at both ends.
            ang = math.atan2(math.sqrt(exact.dot(cr, cr)), dot)
            near(float(V.get_angle_in_rad(a, b)), ang, 1e-7, 'angle', c)
            near(float(V.get_angle_in_deg(a, b)), math.degrees(ang), 1e-5, 'angle in degrees', c)
    # Order and equality.
    require((a == b) == (ea == eb) and (a != b) == (ea != eb), 'equality of {0} {1}', ea, eb, key='eq')
    require((a < b) == (ea < eb), 'order of {0} {1}', ea, eb, key='lt')
    near_b = V(*(x + s * 3e-11 for x, s in zip(b.coords_tuple(), (1, -1, 1))))
    require((a == near_b) == (ea == eb), 'equality of near points {0} {1}', ea, eb, key='eq')
    require((a < near_b) == (ea < eb), 'order of near points {0} {1}', ea, eb, key='lt')
    for e in (0.5, 1.5, 2.5, 10):
        x = exact.dot(d, d) - e * e
        require(bool(a.is_near(b, u * e)) == (x < 0), 'nearness', key='near')
    # Coordinates.
    w = [u * x for x in ea]
    for got in (a.coords_tuple(), a.coords_list(), list(a.coords_as_np()), [a.X, a.Y, a.Z], [a[i] for i in range(3)],
                V.from_iterable(w).coords_list(), V.from_iterable(tuple(w)).coords_tuple(), V.from_iterable(a)):
        near(tuple(got), tuple(w), 0, 'coordinates', c)
    z = V(*w)
    z.X, z.Y, z.Z = eb
    near(z, tuple(eb), 0, 'coordinates set', c)
    for i in range(3):
        z[i] = w[i]
        near(z, tuple(w[:i + 1]) + tuple(eb[i + 1:]), 0, 'coordinates set', c)
    for dg in (0, 2, 10):
        w3 = [x / 3 for x in w]
        z = V(*w3)
        near(z.rounded_coords_tuple(dg), tuple(round(x, dg) for x in w3), 0, 'rounded', c)
        near(z, tuple(w3), 0, 'rounding changed the point', c)
        z.round_vect(dg)
        near(z, tuple(round(x, dg) for x in w3), 0, 'rounded', c)
    # Operations leave operands alone.
    near(a, tuple(w), 0, 'operand', c)
    near(b, tuple(u * x for x in eb), 0, 'operand', c)
    R.outcome(('v', n2, dot))
    return True


def on(c, R):
    import geom
    p, q = c['on']
    V = lambda e: geom.Vect(*(c['unit'] * x for x in e))
    n = 0
    for r in exact.LAT:
        d, e = exact.sub(q, p), exact.sub(r, p)
        t = Q(exact.dot(d, e), exact.dot(d, d))
        w = not any(exact.cross(d, e)) and 0 <= t <= 1
        require(bool(geom.Vect.point_on_vector(V(p), V(q), V(r))) == w, '{0} on [{1}, {2}]', r, p, q, key='on')
        n += w
    R.outcome(('on', n))
    return True


def box(c, R):
    import geom
    V = geom.Vect
    (a, b), t = c['box'], c['turn']

    def mk(i):
        # Two opposite corners, any of the four pairs, and points inside.
        pts = [V(*(float(x[(t >> k) & 1]) for k, x in enumerate(i))),
               V(*(float(x[1 - ((t >> k) & 1)]) for k, x in enumerate(i)))]
        return pts
    pa, pb = mk(a), mk(b)
    ba, bb = geom.Box.from_points(pa), geom.Box(pb)
    for bx, i in ((ba, a), (bb, b)):
        require((bx.MinX, bx.MaxX, bx.MinY, bx.MaxY, bx.MinZ, bx.MaxZ) == tuple(float(x) for iv in i for x in iv),
                'box of {0}', i, key='box')
    w = all(x[0] <= y[1] and y[0] <= x[1] for x, y in zip(a, b))
    for x, y in ((ba, bb), (bb, ba)):
        require(bool(x.is_potential_intersect_with_box(y)) == w, 'boxes {0} {1}', a, b, key='boxes')
    for p in itertools.product((0, 0.5, 1, 2), repeat=3):
        require(bool(ba.is_point_inside(V(*map(float, p)))) == all(x[0] <= v <= x[1] for x, v in zip(a, p)),
                'point {0} in {1}', p, a, key='inside')
    # Segment between opposite corners of the second box: a meeting must not be missed.
    s = geom.Segment(*pb)
    ends = [tuple(map(int, p.coords_tuple())) for p in pb]
    lo, hi = Q(0), Q(1)
    ok = True
    for k in range(3):
        d = ends[1][k] - ends[0][k]
        if d == 0:
            ok = ok and a[k][0] <= ends[0][k] <= a[k][1]
        else:
            t0, t1 = sorted((Q(a[k][0] - ends[0][k], d), Q(a[k][1] - ends[0][k], d)))
            lo, hi = max(lo, t0), min(hi, t1)
    ok = ok and lo <= hi
    require(not ok or ba.is_intersect_with_segment(s), 'segment {0} meets box {1}', ends, a, key='segment')
    require(w or not ba.is_intersect_with_segment(s), 'segment {0} is far from box {1}', ends, a, key='far')
    require(s.a() is pb[0] and s.b() is pb[1], 'ends of a segment', key='segment')
    # Box of triangles.
    ts = [geom.Triangle(pa[0], pa[1], pb[0]), geom.Triangle(pb[1], pb[0], pb[0])]
    bt = geom.Box.from_triangles(ts)
    require((bt.MinX, bt.MaxX, bt.MinY, bt.MaxY, bt.MinZ, bt.MaxZ) ==
            tuple(f(x[i], y[i]) for x, y in zip(a, b) for i, f in ((0, min), (1, max))), 'box of triangles', key='box')
    R.outcome(('box', w, ok))
    return True


def tri(c, R):
    import geom
    frame, unit = c['place']if isinstance(c['place'], list) else PLACES[c['place']]
    e = [tuple(c['tri'][k]) for k in exact.ORDERS[c['order']]]
    ps = [exact.put(p, frame, unit) for p in e]
    t = geom.Triangle(*(geom.Vect(*p) for p in ps))
    n = exact.cross(exact.sub(e[1], e[0]), exact.sub(e[2], e[0]))
    n2 = exact.dot(n, n)
    near(t.area(), math.sqrt(n2) / 2 * unit * unit, 1e-12 * unit * unit, 'area', c)
    o = exact.put((0, 0, 0), frame, 1.0)
    rn = tuple(x - y for x, y in zip(exact.put(n, frame, 1.0), o))
    near(t.normal_orth(), [x / math.sqrt(n2) for x in rn], 1e-11, 'normal', c)
    near(t.centroid(), exact.put(tuple(Q(sum(x), 3) for x in zip(*e)), frame, unit), 1e-13 * unit * 10, 'centroid', c)
    require([p.coords_tuple() for p in (t.a(), t.b(), t.c())] == ps, 'corners', key='corners')
    s2 = [exact.dot(exact.sub(p, q), exact.sub(p, q)) for p, q in itertools.combinations(e, 2)]
    near(t.min_side(), math.sqrt(min(s2)) * unit, 1e-13 * unit * 10, 'shortest side', c)
    ang = []
    for i in range(3):
        x, y = exact.sub(e[(i + 1) % 3], e[i]), exact.sub(e[(i + 2) % 3], e[i])
        z = exact.cross(x, y)
        ang.append(math.degrees(math.atan2(math.sqrt(exact.dot(z, z)), exact.dot(x, y))))
    for lim in list(range(1, 181)) + [max(ang) - 1e-4, max(ang) + 1e-4, sorted(ang)[1] + 1e-4]:
        if abs(lim - max(ang)) > 1e-5:
            require(bool(t.all_corners_smaller(lim)) == (max(ang) < lim), 'angles {0} below {1}', ang, lim,
                    key='angles')
    if frame == 0 and any(exact.dot(exact.sub(e[(i + 1) % 3], e[i]), exact.sub(e[(i + 2) % 3], e[i])) == 0
                          for i in range(3)):
        # A right angle has no rounding: it is not smaller than itself.
        require(not t.all_corners_smaller(90) and t.all_corners_smaller(91), 'right angle {0}', e, key='angles')
    for p in exact.LAT:
        w = exact.dot(n, exact.sub(p, e[0])) == 0
        require(bool(t.point_in_one_plane(geom.Vect(*exact.put(p, frame, unit)))) == w,
                'point {0} in the plane of {1}: {2}', p, e, not w, key='plane')
    q = t.is_good()
    require(math.isfinite(q) and q > 0, 'quality {0}', q, key='quality')
    R.outcome(('tri', n2))
    return True


def equal(c, R):
    import geom
    frame, unit = PLACES[c['place']]
    a, b = ([exact.put(tuple(p), frame, unit) for p in t] for t in c['equal'])
    w = sorted(map(tuple, c['equal'][0])) == sorted(map(tuple, c['equal'][1]))
    T = lambda ps: geom.Triangle(*(geom.Vect(*p) for p in ps))
    plane = [all(exact.dot(exact.cross(exact.sub(s[1], s[0]), exact.sub(s[2], s[0])), exact.sub(p, s[0])) == 0
                 for p in map(tuple, r))
             for s, r in ((list(map(tuple, c['equal'][0])), c['equal'][1]),
                          (list(map(tuple, c['equal'][1])), c['equal'][0]))]
    for (x, y), p in zip(((T(a), T(b)), (T(b), T(a))), plane):
        require(bool(x.in_one_plane(y)) == p, 'triangles {0} in one plane: {1}', c['equal'], not p, key='plane')
    for o in exact.ORDERS:
        x, y = T(a), T([b[k] for k in o])
        require(bool(x == y) == w and bool(y == x) == w, 'equality of {0}', c['equal'], key='equal')
    R.outcome(('equal', w, plane[0]))
    return True


def sort(c, R):
    import geom
    ax = c['axis']
    ts = [geom.Triangle(*(geom.Vect(*map(float, p)) for p in t)) for t in c['sort']]
    key = {id(t): sum(p[ax] for p in e) for t, e in zip(ts, c['sort'])}
    held = list(ts)
    res = geom.Triangle.sorting_by_the_selected_axis(list(ts), ax)
    require(sorted(map(id, res)) == sorted(map(id, held)), 'triangles lost', key='sort')
    ks = [key[id(t)] for t in res]
    require(ks == sorted(ks), 'order along axis {0}: {1}', ax, ks, key='sort')
    R.outcome(('sort', len(ts)))
    return True


def describe(tier):
    return {'rule': 'One state = operands of a geometric query: pairs of lattice vectors, point and segment, pairs of '
                    'boxes, a triangle in a place, order of corners and unit, pairs and lists of triangles; results '
                    'are compared with exact arithmetic.',
            'bounds': {'vectors': '5x5x5', 'triangles': '3x3x3 lattice, three frames, units 1e-3, 1, 1e3',
                       'boxes': 'all boxes of the 3x3x3 lattice', 'lists': '<= 6 triangles'},
            'assumptions': ['Vectors are equal when they differ by less than 1e-10.']}
