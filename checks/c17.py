"""C17: points and segments against a triangle."""
from fractions import Fraction as Q

from mc import exact
from mc.core import require

SCALES = (1.0, 1e-4, 1e3)
# Linear maps of the lattice that make thin triangles and segments almost along planes; False when
# points off the plane are too near to it to be told from points in it.
MAPS = [(((1, 0, 0), (0, 1, 0), (0, 0, Q(1, 2 ** 7))), True),
        (((1, 0, 0), (0, Q(1, 2 ** 8), 0), (0, 0, 1)), True),
        (((1, 0, 3), (0, 1, 100), (0, 0, 1)), True),
        (((1, 0, 0), (0, 1, 0), (0, 0, Q(1, 2 ** 16))), False),
        (((Q(1, 2 ** 15), 0, 0), (0, 1, 0), (0, 0, 1)), False)]


def shards(tier):
    deep = tier != 'quick'
    ts = exact.triangles() if deep else exact.classes()
    return [{'t': t, 'k': k, 'deep': deep} for k, t in enumerate(ts)] + \
        [{'flat': k, 'deep': deep} for k in range(0, len(exact.flat_classes(5)))]


def run_shard(s, R):
    if 'flat' in s:
        # Segments in the plane of the triangle.
        k = s['flat']
        for i in range(18) if s['deep'] else (k, k + 7):
            turn, frame, scale = i % 3, i // 3 % 3, SCALES[i // 2 % 3]
            R.state(('flat', k, turn, frame, scale))
            R.case({'t': exact.flat(5, turn)[exact.flat_classes(5)[k]], 'o': i % 6, 'frame': frame,
                    'scale': scale, 'flat': turn})
            for m in (i % 5,) if s['deep'] else (0, 1, 2):
                R.state(('flat', k, turn, 'map', m))
                R.case({'t': exact.flat(5, turn)[exact.flat_classes(5)[k]], 'o': i % 6, 'frame': 0,
                        'scale': 1.0, 'flat': turn, 'map': [m, frame]})
        return
    for m in range(len(MAPS)):
        for axis in range(3) if s['deep'] else [(s['k'] + m) % 3]:
            R.state((s['t'], 'map', m, axis))
            R.case({'t': s['t'], 'o': (s['k'] + m) % 6, 'frame': 0, 'scale': 1.0, 'map': [m, axis]})
    R.state((s['t'], 'tiny'))
    R.case({'t': s['t'], 'o': s['k'] % 6, 'frame': s['k'] % 3, 'scale': 1e-7})
    for frame in range(len(exact.FRAMES)):
        for scale in SCALES:
            orders = range(6) if not s['deep'] else (s['k'] % 6, (s['k'] + 3) % 6)
            for o in orders:
                R.state((s['t'], o, frame, scale))
                R.case({'t': s['t'], 'o': o, 'frame': frame, 'scale': scale})


def vect(p):
    import geom
    return geom.Vect(*p)


_oracle = {}


def run_case(c, R):
    import geom
    tri = tuple(tuple(p) for p in c['t'])
    key = (tri, c.get('flat'))
    if key not in _oracle:
        _oracle.clear()
        lat = exact.plane(5, c['flat']) if 'flat' in c else exact.LAT
        _oracle[key] = (lat, [(p, q, *exact.meet(tri, p, q)) for p in lat for q in lat
                              if p != q],
                        [(p, exact.place(tri, p)) for p in lat + middle(tri)])
    lat, segs, places = _oracle[key]
    rows, off, axis = (*MAPS[c['map'][0]], c['map'][1]) if 'map' in c else (None, True, 0)

    def put(p):
        if rows:
            p = tuple(sum(r[k] * p[k] for k in range(3)) for r in rows)
            p = p[axis:] + p[:axis]
        return exact.put(p, c['frame'], c['scale'])

    pos = {p: put(p) for p in lat}
    T = geom.Triangle(*(vect(pos[tri[k]]) for k in exact.ORDERS[c['o']]))
    tol = 1e-8 * c['scale']
    for p, q, kind, pts in segs:
        got = T.intersection_with_segment(geom.Segment(vect(pos[p]), vect(pos[q])))
        want = [put(x) for x in pts]
        R.step()
        R.outcome((kind, len(pts)))
        require(exact.same_points(got, want, tol), 'segment {0}-{1} ({2}) meets the triangle {3} at '
                '{4} instead of {5}', p, q, kind, tri, [str(x) for x in got], want,
                key='{0}-{1}'.format(kind, len(want)))
    for p, where in places:
        if not off and not where:
            continue
        got = T.point_in_triangle(vect(put(p)))
        R.step()
        R.outcome(('point', where))
        require(got == where, 'point {0} in triangle {1}: class {2} instead of {3}', p, tri, got,
                where, key='point-{0}'.format(where))
    return True


def middle(tri):
    """Points of sides and of the inside of the triangle."""
    a, b, c = tri
    res = []
    for i in range(7):
        for j in range(7 - i):
            k = 6 - i - j
            res.append(tuple(Q(i * x + j * y + k * z, 6) for x, y, z in zip(a, b, c)))
    return res


def describe(tier):
    return {
        'rule': 'One state = one triangle (with an order of corners, a position in space and a unit); '
                'all 702 directed segments and 27 + 28 points of the lattice are tried inside.',
        'bounds': 'Triangles of the 3x3x3 lattice: one of each class under symmetries of the cube in all '
                  'orders of corners (thorough: all triangles, 2 orders), and of the 5x5 lattice of a plane '
                  '(segments and points of this lattice; 2, thorough: 18 positions); 3 rational frames, units '
                  '1, 1e-4, 1e3 (and 1e-7 once); five more linear maps of the lattice (axes 2^-7, 2^-8, 2^-15, 2^-16 as '
                  'long, shear 100) in coordinate frames.',
        'assumptions': ['Triangles and segments are not degenerate.']}
