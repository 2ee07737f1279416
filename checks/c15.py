"""C15: the volume formulas of growing ice are exact."""
import itertools
from fractions import Fraction as Q

from mc.core import require

GRID = [(x, y) for x in range(3) for y in range(3)]
# Orthonormal rational frames (rows: two axes of the plane and the normal).
FRAMES = [((1, 0, 0), (0, 1, 0), (0, 0, 1), 1), ((0, 1, 0), (0, 0, 1), (1, 0, 0), 1),
          ((0, 0, -1), (0, -1, 0), (-1, 0, 0), 1), ((2, -2, 1), (1, 2, 2), (-2, -1, 2), 3),
          ((6, 2, 3), (-3, 6, 2), (-2, -3, 6), 7)]

# Unit of length: the formulas hold for surfaces of any size.
UNITS = (1.0, 2.0 ** -20, 2.0 ** 13)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def tris():
    """Non-degenerate triangles of the 3x3 lattice, all orders of corners."""
    for t in itertools.permutations(GRID, 3):
        (ax, ay), (bx, by), (cx, cy) = t
        if (bx - ax) * (cy - ay) - (by - ay) * (cx - ax) > 0:
            yield t


def place(f, p):
    """Point of plane coordinates (u, v, height) in the frame."""
    u, v, n, d = FRAMES[f]
    return tuple((Q(u[k]) * p[0] + Q(v[k]) * p[1] + Q(n[k]) * p[2]) / d for k in range(3))


def shards(tier):
    # Corners start at a lattice point: orders of corners matter, positions of the whole do not.
    ts = [t for t in tris() if min(x for x, y in t) == 0 and min(y for x, y in t) == 0]
    deep = tier != 'quick'
    res = [{'kind': 'coef', 't': t, 'f': f, 'deep': deep} for t in ts for f in range(len(FRAMES))
           if deep or (ts.index(t) + f) % 5 == 0]
    res += [{'kind': 'moved', 't': t, 'f': f, 'deep': deep} for t in ts for f in range(len(FRAMES))
            if deep or (ts.index(t) + f) % 5 == 0]
    for i, s in enumerate(res):
        s['unit'] = UNITS[i // 2 % 3]
    res += [{'kind': 'tet', 'a': a} for a in range(27)]
    return res


def run_shard(shard, R):
    R.step()
    R.state(str(shard))
    R.case(shard)


def vect(p, unit=1.0):
    import geom
    return geom.Vect(*(float(x) * unit for x in p))


def close(x, want, scale):
    return isinstance(x, (int, float)) and abs(x - float(want)) <= 1e-11 * scale


def run_case(c, R):
    import geom
    if c['kind'] == 'tet':
        pts = list(itertools.product(range(3), repeat=3))
        a = pts[c['a']]
        va = [vect(p) for p in pts]
        for b, cc, d in itertools.product(range(27), repeat=3):
            if not c['a'] <= b:
                continue
            want = Q(abs(dot(sub(a, pts[d]), cross(sub(pts[b], pts[d]), sub(pts[cc], pts[d])))), 6)
            got = geom.utils.tetrahedron_volume(va[c['a']], va[b], va[cc], va[d])
            require(close(got, want, 8), 'volume of tetrahedron {0} is {1} instead of {2}',
                    (a, pts[b], pts[cc], pts[d]), got, float(want), key='tetrahedron')
            R.step()
        return True
    base = [place(c['f'], (x, y, 0)) for x, y in c['t']]
    unit = c['unit']
    vb = [vect(p, unit) for p in base]
    n = place(c['f'], (0, 0, 1))
    if c['kind'] == 'coef':
        # Directions with any positive slope and length.
        dirs = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in ((1, 2) if c['deep'] else (1,))]
        if not c['deep']:
            dirs += [(0, 0, 2), (1, 0, 3)]
        dirs += [(1, 0, Q(1, 8)), (0, -1, Q(1, 64))]
        pd = [place(c['f'], d) for d in dirs]
        vd = [vect(p) for p in pd]
        vn = vect(n)
        for i, j, k in itertools.product(range(len(dirs)), repeat=3):
            # Corners of the layer at height t are p + u t with u = d / (d, n).
            (x1, y1), (x2, y2), (x3, y3) = c['t']
            u = [(Q(d[0], d[2]), Q(d[1], d[2])) for d in (dirs[i], dirs[j], dirs[k])]
            e, g = (u[1][0] - u[0][0], u[1][1] - u[0][1]), (u[2][0] - u[0][0], u[2][1] - u[0][1])
            p, q = (x2 - x1, y2 - y1), (x3 - x1, y3 - y1)
            # Area of the layer: s0 + s1 t + s2 t^2, the volume is its integral.
            s0 = Q(p[0] * q[1] - p[1] * q[0], 2)
            s1 = (p[0] * g[1] - p[1] * g[0] + e[0] * q[1] - e[1] * q[0]) / 2
            s2 = (e[0] * g[1] - e[1] * g[0]) / 2
            got = geom.utils.prizmatoid_volume_coefs(*vb, vd[i], vd[j], vd[k], vn)
            R.step()
            for name, x, want in zip('abc', got, (s0, s1 / 2, s2 / 3)):
                power = {'a': 2, 'b': 1, 'c': 0}[name]
                require(isinstance(x, (int, float)) and close(x / unit ** power, want, 8), 'coefficient {0} is {1} instead of {2}: {3}', name, str(x),
                        float(want), (c['t'], dirs[i], dirs[j], dirs[k]), key='coef-' + name)
        return True
    shifts = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in ((0, 1, 2) if c['deep'] else (0, 1))]
    for ds in itertools.product(shifts, repeat=3):
        flat = [(x, y, 0) for x, y in c['t']]
        top = [(p[0] + d[0], p[1] + d[1], d[2]) for p, d in zip(flat, ds)]
        vols = volumes(flat, top)
        if vols is None:
            R.count('folded')
            continue
        got = geom.utils.displaced_triangle_volume(*vb, *(vect(place(c['f'], p), unit) for p in top))
        R.step()
        R.count('compared')
        require(isinstance(got, (int, float)) and any(close(got / unit ** 3, v, 8) for v in vols),
                'volume swept from {0} to {1} is {2} instead of {3}', flat, top, got,
                sorted(float(v) for v in vols), key='moved')
    return True


def det(a, b, c):
    return dot(a, cross(b, c))


def volumes(p, q):
    """
    Volumes of the body between two triangles, one for each choice of diagonals on the three sides
    (all the same when the sides are flat); None if the surface folds.
    """
    a, b, c = p
    na, nb, nc = q
    if len({na, nb, nc}) < 3 or any(x == y for i, x in enumerate(p) for j, y in enumerate(q) if i != j):
        return None
    # Seen from above, the corners keep their order all the way.
    def area(t):
        x, y, z = (tuple(Q(u) + t * (v - u) for u, v in zip(s, e)) for s, e in zip(p, q))
        return (y[0] - x[0]) * (z[1] - x[1]) - (y[1] - x[1]) * (z[0] - x[0])
    f0, f1, f2 = area(Q(0)), area(Q(1, 2)), area(Q(1))
    k2, k1 = 2 * (f0 + f2 - 2 * f1), 4 * f1 - f2 - 3 * f0
    at = -k1 / (2 * k2) if k2 else Q(0)
    if min(f0, f2) <= 0 or (0 < at < 1 and area(at) <= 0):
        return None
    signs = set()
    for t in ((a, b, c, na), (a, b, c, nb), (a, b, c, nc), (na, nb, nc, a), (na, nb, nc, b),
              (na, nb, nc, c), (a, b, na, nc), (a, b, nb, nc), (b, c, nb, na), (b, c, nc, na),
              (c, a, nc, nb), (c, a, na, nb)):
        v = det(sub(t[1], t[0]), sub(t[2], t[0]), sub(t[3], t[0]))
        if t[:3] != (a, b, c):
            v = -v
        if v or len(set(t)) == 4:
            signs.add((v > 0) - (v < 0))
    if not signs <= {1} and not signs <= {-1}:
        return None
    # Closed surface, oriented outwards; diagonals of sides.
    core = [(a, c, b), (na, nb, nc)]
    sides = [[((x, y, ny), (x, ny, nx)), ((x, y, nx), (y, ny, nx))]
             for x, y, nx, ny in ((a, b, na, nb), (b, c, nb, nc), (c, a, nc, na))]
    res = set()
    for ch in itertools.product((0, 1), repeat=3):
        ts = core + [t for s, k in zip(sides, ch) for t in s[k]]
        res.add(abs(Q(sum(det(*t) for t in ts), 6)))
    return res


def describe(tier):
    return {
        'rule': 'One state = one triangle in one frame; all moves of its corners are enumerated '
                'inside and every volume is compared with exact rational arithmetic.',
        'bounds': 'Triangles of the 3x3 lattice in 5 frames (a fifth of the pairs when quick), '
                  'directions of growth over {-1,0,1}^2 x {1,2} (quick: 11 directions) and two almost along the plane, per corner; '
                  'moves over {-1,0,1}^2 x {0,1,2} (quick: {0,1}) per corner; tetrahedra over the '
                  '3x3x3 lattice; units of length 2^-20, 1 and 2^13.',
        'assumptions': ['Moves that fold the body have no volume of their own and are skipped.',
                        'Where sides are not flat any choice of their diagonals is accepted.']}
