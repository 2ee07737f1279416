"""Model of the flight of a drop, over plain tuples."""
import math

from .tong import add, cross, dot, mul, norm, sub

AIR_DENSITY, WATER_DENSITY, AIR_VISCOSITY = 1.292, 1000.0, 1.736e-5


class Unclear(Exception):
    """The answer depends on rounding: the case is not compared."""


def nearest(field, p):
    ds = sorted((norm(sub(q, p)), i) for i, (q, v) in enumerate(field))
    if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-9 and field[ds[0][1]][1] != field[ds[1][1]][1]:
        raise Unclear('two nearest points')
    return field[ds[0][1]]


def inside(field, p):
    for k in range(3):
        xs = [q[k] for q, v in field]
        for lim in (min(xs), max(xs)):
            if p[k] != lim and abs(p[k] - lim) < 1e-9:
                raise Unclear('border of the space')
        if not min(xs) <= p[k] <= max(xs):
            return False
    return True


def drag(v, air, d):
    """Acceleration of a drop (d - diameter) with velocity v."""
    w = sub(air, v)
    s = norm(w)
    if s == 0.0:
        return (0.0, 0.0, 0.0)
    re = s * d / AIR_VISCOSITY
    if abs(re - 350) < 1e-6:
        raise Unclear('limit of Reynolds number')
    if re <= 350:
        cd = 24 / re * (1 + 0.166 * re ** 0.33)
    else:
        cd = 0.178 * re ** 0.217
    # Force 1/2 rho cd A s^2 over the mass of the ball.
    force = 0.5 * AIR_DENSITY * cd * math.pi * d * d / 4 * s * s
    mass = WATER_DENSITY * math.pi * d ** 3 / 6
    return mul(w, force / mass / s)


def step(p, v, air, d, dt):
    return add(p, mul(v, dt)), add(v, mul(drag(v, air, d), dt))


def meets(t, p, q):
    """Part of the way from p to q where it meets the triangle, None if it does not."""
    a, b, c = t
    n = cross(sub(b, a), sub(c, a))
    size = norm(n)
    d = sub(q, p)
    sp, sq = dot(n, sub(p, a)) / size, dot(n, sub(q, a)) / size
    tiny = 1e-9 * (1 + norm(d))
    if abs(sp) < tiny or abs(sq) < tiny:
        # Ends in the plane: only clear if it is far from the triangle.
        if abs(sp) < tiny and abs(sq) < tiny:
            raise Unclear('in the plane')
    if (sp > tiny and sq > tiny) or (sp < -tiny and sq < -tiny):
        return None
    k = sp / (sp - sq)
    x = add(p, mul(d, k))
    w = [dot(n, cross(sub(e, s), sub(x, s))) / size ** 2 for s, e in ((a, b), (b, c), (c, a))]
    if min(w) < -1e-7:
        return None
    if min(w) < 1e-7 or abs(sp) < tiny or abs(sq) < tiny:
        raise Unclear('side of a triangle')
    return k


def fly(field, tris, p, v, d, dt, limit):
    """(diagnosis, index of the triangle, points)"""
    pts = [tuple(p)]
    while True:
        p = pts[-1]
        if len(pts) > limit:
            return 'N', None, pts
        if not inside(field, p):
            return 'O', None, pts
        q, v = step(p, v, nearest(field, p)[1], d, dt)
        way = norm(sub(p, q))
        if 1e-16 < way < 1e-14:
            raise Unclear('stop')
        if way < 1e-15:
            return 'S', None, pts
        pts.append(q)
        hits = sorted((k, i) for k, i in ((meets(t, p, q), i) for i, t in enumerate(tris))
                      if k is not None)
        if hits:
            if len(hits) > 1 and (hits[1][0] - hits[0][0]) * way < 1e-9:
                raise Unclear('two triangles at once')
            return 'C', hits[0][1], pts
