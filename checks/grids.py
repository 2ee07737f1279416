"""Starting meshes shared by the checks on loading, decomposition and export."""
import itertools

from mc import mesh

_POOL = None
_BIG = None
# Indices of the large meshes start here.
BASE = 1000


def pool():
    """
    [(label, faces, points)]: all 105 small complexes in general position, then meshes whose
    coordinates coincide (planar, on lattice lines, closed, several parts).
    """
    global _POOL
    if _POOL is None:
        res = []
        for i, c in enumerate(mesh.complexes(6)):
            res.append(('c%d' % i, mesh.orient(c)[0], mesh.GENERAL))
        s3 = lambda pts: [[3.0 * x for x in p] for p in pts]
        for nx, ny in ((1, 1), (2, 1), (2, 2), (3, 2)):
            f, p = mesh.rect(nx, ny)
            res.append(('rect%d%d' % (nx, ny), f, s3(p)))
        f, p = mesh.rect(2, 1)
        res.append(('vertical', f, [[0.0, y, x] for x, y, z in s3(p)]))
        f, p = mesh.tetra()
        res.append(('tetra', f, s3(p)))
        f, p = mesh.octa()
        res.append(('octa', f, s3(p)))
        f, p = mesh.cube()
        res.append(('cube', f, s3(p)))
        f, p = mesh.band(3)
        res.append(('band3', f, p))
        # Faces with one and the same centre in every coordinate: nothing to split by.
        res.append(('stack', [[0, 1, 2], [3, 4, 5], [6, 7, 8]],
                    [[3., 0, 0], [0, 3, 0], [0, 0, 3], [1, 1, 1], [2, 0, 1], [0, 2, 1],
                     [-1., 2, 2], [2, -1, 2], [2, 2, -1]]))
        _POOL = res
    return _POOL


def colourings(n, zmax):
    """All zone assignments of n faces with exactly zones 0..k-1 used, k <= zmax (first use in
    order)."""
    res = []

    def rec(pre, top):
        if len(pre) == n:
            res.append(list(pre))
            return
        for z in range(min(top + 1, zmax)):
            rec(pre + [z], max(top, z + 1))
    rec([], 0)
    return res


def big():
    """Meshes beyond counts at which an order of strings, a depth of recursion or a width of a
    field shows: more than 10 zones, 100 and 1000 faces."""
    global _BIG
    if _BIG is None:
        off = lambda pts: [[3.0 * x + 0.011 * y * y, 3.0 * y + 0.007 * x * x, 0.05 * x * y + z]
                           for x, y, z in pts]
        res = []
        for label, (f, p) in (('strip', mesh.rect(540, 1)), ('sheet', mesh.rect(11, 12)),
                              ('tube', mesh.band(14, 4))):
            res.append((label, f, off(p) if label != 'tube' else [[3.0 * x for x in q] for q in p]))
        # Parts that share nothing, nodes numbered backward.
        f, p = mesh.rect(9, 1)
        p = off(p)
        k = len(p)
        fs = f + [[v + k for v in t] for t in f] + [[v + 2 * k for v in t] for t in f]
        ps = p + [[x + 1, y - 50, z] for x, y, z in p] + [[x - 2, y, z + 70] for x, y, z in p]
        res.append(('parts', [[len(ps) - 1 - v for v in t] for t in fs], ps[::-1]))
        _BIG = res
    return _BIG


def get(i):
    return big()[i - BASE] if i >= BASE else pool()[i]


def large(kmax=13, labels=None):
    """[(index, zones)] of large meshes, in one zone, in kmax runs and interleaved."""
    res = []
    for i, (label, fs, pts) in enumerate(big()):
        if labels and label not in labels:
            continue
        n = len(fs)
        res += [(BASE + i, [0] * n), (BASE + i, [j * kmax // n for j in range(n)]),
                (BASE + i, [j * 5 % kmax for j in range(n)])]
    return res
