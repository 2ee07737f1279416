"""C18: the common part of two triangles."""
from mc import exact
from mc.core import require

# (frame, unit) pairs: all of them for each class when thorough.
PLACES = [(0, 1.0), (1, 1.0), (2, 1e-3), (1, 1e3), (0, 1e-3), (2, 1.0)]


def shards(tier):
    deep = tier != 'quick'
    n = 5 if deep else 4
    return [{'k': k, 'i': i, 'deep': deep} for k in range(len(exact.classes())) for i in range(4)] + \
        [{'flat': n, 'k': k} for k in range(len(exact.flat_classes(n)))]


def run_shard(s, R):
    if 'flat' in s:
        # Pairs in one plane.
        n, k = s['flat'], s['k']
        for j in range(len(exact.flat(n))):
            turn = (j + k) % 3
            R.step()
            R.state((n, k, j))
            R.case({'a': exact.flat(n, turn)[exact.flat_classes(n)[k]], 'b': exact.flat(n, turn)[j],
                    'o': [(k + j) % 6, (j // 6) % 6], 'place': PLACES[(j // 3 + k) % 6]})
        return
    ts = exact.triangles()
    for j in range(s['i'], len(ts), 4):
        places = PLACES if s['deep'] else [PLACES[(j // 4 + s['k']) % 6]]
        for pl in places:
            R.step()
            R.state((s['k'], j, pl))
            R.case({'a': exact.classes()[s['k']], 'b': ts[j], 'o': [(s['k'] + j) % 6, (j // 6) % 6],
                    'place': pl})


_last = {}


def run_case(c, R):
    import geom
    a, b = (tuple(tuple(p) for p in t) for t in (c['a'], c['b']))
    if (a, b) not in _last:
        _last.clear()
        _last[a, b] = exact.corners(a, b)
    want = _last[a, b]
    frame, unit = c['place']
    ta, tb = (geom.Triangle(*(geom.Vect(*exact.put(t[k], frame, unit)) for k in exact.ORDERS[o]))
              for t, o in zip((a, b), c['o']))
    pts = [exact.put(p, frame, unit) for p in want]
    for x, y in ((ta, tb), (tb, ta)):
        got = x.intersection_with_triangle(y)
        require(exact.same_points(got, pts, 1e-8 * unit), 'common part of {0} and {1} has corners '
                '{2} instead of {3}', a, b, [str(p) for p in got], pts,
                key='corners-{0}'.format(len(pts)))
    require(ta.intersection_with_triangle(ta) == [], 'triangle and itself', key='self')
    R.outcome(len(pts))
    return True


def describe(tier):
    return {
        'rule': 'One state = two triangles in one position in space, one unit; corners of their common '
                'part are compared with exact rational ones, in both directions.',
        'bounds': 'Pairs of triangles of the 3x3x3 lattice, the first of each class under symmetries of '
                  'the cube, the second any; pairs in one plane: of the 4x4 (thorough: 5x5) lattice, the '
                  'first of each class under symmetries of the square, the second any; orders of corners vary with the pair; one of 6 (thorough: '
                  'all 6) pairs of rational frame and unit (1, 1e-3, 1e3).',
        'assumptions': ['Triangles are not degenerate.', 'Points agree up to 1e-8 of the unit.']}
