"""Exact geometry of triangles and segments over the lattice (integers and rationals)."""
import functools
import itertools
from fractions import Fraction as Q

LAT = list(itertools.product(range(3), repeat=3))


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def at(p, q, t):
    return tuple(x + t * (y - x) for x, y in zip(p, q))


def inside(tri, n, p):
    """Place of a point of the plane: -1 outside, else the number of sides it is not on."""
    a, b, c = tri
    s = [dot(cross(n, sub(v, u)), sub(p, u)) for u, v in ((a, b), (b, c), (c, a))]
    if min(s) < 0:
        return -1
    return sum(x > 0 for x in s)


def place(tri, p):
    """0 - not in the triangle, 1 - vertex, 2 - side, 3 - inner."""
    n = cross(sub(tri[1], tri[0]), sub(tri[2], tri[0]))
    if dot(n, sub(p, tri[0])) != 0:
        return 0
    return max(0, inside(tri, n, p))


def meet(tri, p, q):
    """Ends of the common part of a triangle and a segment: 0, 1 or 2 points (and its kind)."""
    a, b, c = tri
    n = cross(sub(b, a), sub(c, a))
    sp, sq = dot(n, sub(p, a)), dot(n, sub(q, a))
    if sp == 0 and sq == 0:
        lo, hi = Q(0), Q(1)
        d = sub(q, p)
        for u, v in ((a, b), (b, c), (c, a)):
            m = cross(n, sub(v, u))
            f0, f1 = dot(m, sub(p, u)), dot(m, d)
            if f1 == 0:
                if f0 < 0:
                    return 'plane', []
            elif f1 > 0:
                lo = max(lo, Q(-f0) / f1)
            else:
                hi = min(hi, Q(-f0) / f1)
        if lo > hi:
            return 'plane', []
        return 'plane', [at(p, q, lo)] if lo == hi else [at(p, q, lo), at(p, q, hi)]
    if (sp > 0 and sq > 0) or (sp < 0 and sq < 0):
        return 'side', []
    x = at(p, q, Q(sp) / (sp - sq))
    k = inside(tri, n, x)
    if k < 0:
        return 'past', []
    return ('through' if k == 3 and sp and sq else 'touch'), [x]


def corners(t1, t2):
    """Corner points of the common part of two triangles (a set of exact points)."""
    res = set()
    for s, t in ((t1, t2), (t2, t1)):
        for i in range(3):
            res.update(tuple(Q(x) for x in p) for p in meet(s, t[i], t[(i + 1) % 3])[1])
    return res


def area2(t):
    n = cross(sub(t[1], t[0]), sub(t[2], t[0]))
    return dot(n, n)


@functools.lru_cache(None)
def triangles():
    """Non-degenerate triangles of the lattice (corners in ascending order)."""
    return [t for t in itertools.combinations(LAT, 3) if area2(t)]


@functools.lru_cache(None)
def classes():
    """One triangle for each class under the 48 symmetries of the cube."""
    seen, res = set(), []
    for t in triangles():
        images = []
        for perm in itertools.permutations(range(3)):
            for flips in itertools.product((False, True), repeat=3):
                images.append(tuple(sorted(tuple((2 - p[perm[k]]) if flips[k] else p[perm[k]]
                                                 for k in range(3)) for p in t)))
        r = min(images)
        if r not in seen:
            seen.add(r)
            res.append(t)
    return res


def plane(n, turn=0):
    """The n x n lattice in a coordinate plane."""
    res = []
    for x, y in itertools.product(range(n), repeat=2):
        p = (x, y, 0)
        res.append(p[turn:] + p[:turn])
    return res


@functools.lru_cache(None)
def flat(n, turn=0):
    """Triangles of the n x n lattice in a coordinate plane."""
    return [t for t in itertools.combinations(plane(n, turn), 3) if area2(t)]


@functools.lru_cache(None)
def flat_classes(n):
    """Numbers in flat() of one triangle for each class under the 8 symmetries of the square."""
    seen, res = set(), []
    for i, t in enumerate(flat(n)):
        r = min(tuple(sorted(((q[::-1] if swap else q) + (0,)) for q in
                             ((n - 1 - x if fx else x, n - 1 - y if fy else y) for x, y, _ in t)))
                for fx in (0, 1) for fy in (0, 1) for swap in (0, 1))
        if r not in seen:
            seen.add(r)
            res.append(i)
    return res


ORDERS = list(itertools.permutations(range(3)))
# Rational rotations and translations; then the units.
FRAMES = [(((1, 0, 0), (0, 1, 0), (0, 0, 1)), 1, (0, 0, 0)),
          (((2, -2, 1), (1, 2, 2), (-2, -1, 2)), 3, (1, -2, 5)),
          (((6, 2, 3), (-3, 6, 2), (-2, -3, 6)), 7, (0, 0, 0))]


def put(p, frame=0, scale=1.0):
    """Floating coordinates of an exact point."""
    m, d, o = FRAMES[frame]
    return tuple(float((m[0][k] * p[0] + m[1][k] * p[1] + m[2][k] * p[2]) / Q(d) + o[k]) * scale
                 for k in range(3))


def same_points(got, want, tol):
    """Got points are the wanted ones, each once."""
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if max(abs(g[k] - w[k]) for k in range(3)) <= tol:
                left.remove(w)
                break
        else:
            return False
    return True
