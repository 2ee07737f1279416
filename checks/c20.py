"""C20: drops fly by the law of drag up to the first thing that ends the flight."""
import itertools
import json

from mc import exact, flight
from mc.core import require

LAT = [(float(x), float(y), float(z)) for x in (0, 2) for y in (0, 1, 2) for z in (0, 2)]
FIELDS = {
    'still': lambda p: (0.0, 0.0, 0.0),
    'wind': lambda p: (10.0, 0.0, 0.0),
    'shear': lambda p: (8.0 * p[1], 0.0, 0.0),
    'turn': lambda p: (-20.0 * (p[1] - 1), 20.0 * (p[0] - 1), 0.5),
    'meet': lambda p: tuple(5.0 * (1 - x) for x in p),
}
SURFACES = {
    'none': [((9., 9., 9.), (9., 8., 9.), (9., 8., 8.))],
    'wall': [((1.5, 0., 0.), (1.5, 2., 0.), (1.5, 0., 2.)), ((1.5, 2., 0.), (1.5, 2., 2.), (1.5, 0., 2.))],
    'walls': [((1.5, 0., 0.), (1.5, 2., 0.), (1.5, 0., 2.)), ((1.5, 2., 0.), (1.5, 2., 2.), (1.5, 0., 2.)),
              ((1.25, 0., 0.), (1.25, 2., 0.), (1.25, 0., 2.)), ((1.25, 2., 0.), (1.25, 2., 2.), (1.25, 0., 2.)),
              ((1.75, 0., 0.), (1.75, 2., 0.1), (1.75, 0., 2.))],
    'skew': [((2., 0., -1.), (0.3, 3., 1.), (1.7, 0., 4.)), ((1.9, 0.1, 0.), (1.8, 2., 0.1), (2., 1., 2.))],
}
STARTS = [(0.3, 0.4, 0.45), (1.1, 1.2, 0.9), (0.05, 1.7, 1.3), (1.9, 0.6, 1.8), (0.0, 0.7, 0.3),
          (2.5, 1.0, 1.0)]
SPEEDS = [(0.0, 0.0, 0.0), (10.0, 0.0, 0.0), (3.0, 5.0, -2.0), (-40.0, 1.0, 7.0), (90.0, 20.0, 10.0)]
# Drops which hardly move: steps of 1e-11 and longer.
SLOW = [(1e-8, 0.0, 0.0), (0.0, -3e-7, 1e-8), (2e-6, 1e-6, 0.0), (1e-4, 1e-5, -1e-5), (-1e-3, 0.0, 0.0)]
SLOW_STARTS = [(0.3, 0.4, 0.45), (1.4999999, 0.4, 0.45), (1.50001, 0.4, 0.45), (1.9999999, 0.7, 0.3),
               (1.2499998, 0.3, 1.0)]


def shards(tier):
    deep = tier != 'quick'
    res = [{'kind': 'fly', 'field': f, 'surface': s, 'start': i, 'deep': deep}
           for f in FIELDS for s in SURFACES for i in range(len(STARTS))]
    res += [{'kind': 'step', 'v': v} for v in range(len(SPEEDS))]
    res += [{'kind': 'slow', 'surface': x} for x in SURFACES]
    res += [{'kind': 'near', 'n': n, 'deep': deep} for n in range(1, 9)]
    return res


def run_shard(s, R):
    if s['kind'] == 'fly':
        for v, d, dt, limit in itertools.product(SPEEDS, (1e-5, 2e-3), (1e-3, 0.02, 0.2),
                                                 (0, 1, 2, 3, 30) if not s['deep'] else (0, 1, 2, 3, 7, 30, 200)):
            go(R, {'kind': 'fly', 'field': s['field'], 'surface': s['surface'],
                   'start': STARTS[s['start']], 'v': v, 'd': d, 'dt': dt, 'limit': limit})
    elif s['kind'] == 'slow':
        for st, v, d, dt, limit in itertools.product(SLOW_STARTS, SLOW, (1e-5, 2e-3), (1e-3, 0.1), (1, 4, 40)):
            go(R, {'kind': 'fly', 'field': 'still', 'surface': s['surface'], 'start': st, 'v': v, 'd': d,
                   'dt': dt, 'limit': limit, 'slow': True})
    elif s['kind'] == 'step':
        for air in SPEEDS + [(0.0, -5.0, 0.25)]:
            for p in STARTS[:2]:
                for d in (1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 1e-2):
                    for dt in (1e-6, 1e-3, 0.5):
                        go(R, {'kind': 'step', 'p': p, 'v': SPEEDS[s['v']], 'air': air, 'd': d, 'dt': dt})
    else:
        go(R, {'kind': 'near', 'n': s['n'], 'deep': s['deep']})


def go(R, c):
    R.step()
    R.state(json.dumps(c))
    R.case(c)


def space(field):
    import drops
    import geom
    ds = [(geom.Vect(*p), geom.Vect(*v)) for p, v in field]
    return drops.Space(ds, [p.coords_tuple() for p, v in ds]), ds


def run_case(c, R):
    import geom
    V = lambda p: geom.Vect(*p)
    if c['kind'] == 'near':
        return near(c, R)
    if c['kind'] == 'step':
        sp, _ = space([((0., 0., 0.), (0., 0., 0.))])
        want = flight.step(tuple(c['p']), tuple(c['v']), tuple(c['air']), c['d'], c['dt'])
        got = sp.fly_step(V(c['p']), V(c['v']), V(c['air']), c['d'], c['dt'])
        for what, g, w in zip(('position', 'velocity'), got, want):
            require(close(g.coords_tuple(), w), '{0} after a step is {1} instead of {2}', what, str(g), w,
                    key='step-' + what)
        R.outcome('step')
        return True
    field = [(p, FIELDS[c['field']](p)) for p in LAT]
    tris = SURFACES[c['surface']]
    try:
        diag, hit, pts = flight.fly(field, tris, tuple(c['start']), tuple(c['v']), c['d'], c['dt'],
                                    c['limit'])
    except flight.Unclear:
        R.count('depends on rounding')
        return True
    sp, _ = space(field)
    ts = [geom.Triangle(*(V(p) for p in t)) for t in tris]
    for i, t in enumerate(ts):
        t.BackRef = ('face', i)
    got = sp.fly(V(c['start']), V(c['v']), c['d'], c['dt'], geom.TrianglesCloud(list(ts)), c['limit'])
    require(len(got) == 3 and got[0] == diag, 'flight ends with {0} instead of {1}', got[0], diag,
            key='diagnosis')
    require(got[1] == (None if hit is None else ('face', hit)), 'drop hits {0} instead of {1}', got[1],
            hit, key='face')
    tr = got[2]
    require(tr.points_count() == len(pts) == len(tr.Points) and tr.segments_count() == len(pts) - 1,
            'trajectory has {0} points instead of {1}', tr.points_count(), len(pts), key='trajectory')
    for a, b in zip(tr.Points, pts):
        require(close(a.coords_tuple(), b), 'trajectory goes through {0} instead of {1}', str(a), b,
                key='trajectory')
        if c.get('slow'):
            ways = [[x - y for x, y in zip(q, c['start'])] for q in (a.coords_tuple(), b)]
            require(all(abs(x - y) <= 1e-6 * max(map(abs, ways[1])) + 1e-14 for x, y in zip(*ways)),
                    'drop moved by {0} instead of {1}', *ways, key='trajectory')
    R.outcome((diag, min(len(pts), 5)))
    return True


def close(a, b):
    return all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(a, b))


def near(c, R):
    """The nearest point, for all sets of points of a cube in all orders."""
    n = c['n']
    pts = list(itertools.product((0.0, 1.0), repeat=3))
    asks = [(x, y, z) for x in (-0.7, 0.2, 0.9, 1.5) for y in (0.3, 0.6, 1.2) for z in (-0.1, 0.4, 0.75)]
    for sub in itertools.combinations(range(8), n):
        for order in (sub, sub[::-1], sub[n // 2:] + sub[:n // 2]):
            field = [(pts[i], (float(i), 0., 0.)) for i in order]
            sp, ds = space(field)
            import geom
            for p in asks:
                R.step()
                want = min(field, key=lambda e: sum((x - y) ** 2 for x, y in zip(e[0], p)))
                got = sp.find_nearest(geom.Vect(*p))
                require(got[0].coords_tuple() == want[0] and got[1].coords_tuple() == want[1],
                        'data of {0} are taken at {1} instead of {2}', str(got[0]), p, want[0],
                        key='nearest')
            lo = [min(q[k] for q, v in field) for k in range(3)]
            hi = [max(q[k] for q, v in field) for k in range(3)]
            for p in asks + pts:
                want = all(a <= x <= b for a, x, b in zip(lo, p, hi))
                require(sp.inside(geom.Vect(*p)) == want, 'point {0} inside of {1}-{2}: {3}', p, lo, hi,
                        not want, key='inside')
    R.outcome(('near', n))
    return True


def describe(tier):
    return {
        'rule': 'One case = one flight (or one step, or all questions for the nearest data of sets of '
                'points); way, end and face are compared with a model of the flight.',
        'bounds': '5 air fields, 4 surfaces, 6 starting points, 5 velocities, 2 diameters, 3 steps of '
                  'time, limits of points 0 to 30 (thorough: 200); single steps on both sides of the '
                  'change of the drag law; 5 drops that hardly move; all sets of corners of a cube for the nearest data.',
        'assumptions': ['Flights that depend on rounding (through a side of a triangle, equally far '
                        'data) are counted, not compared; sides are the matter of C17 and C19.']}
