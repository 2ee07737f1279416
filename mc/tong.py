"""
Model of the remesher (Tong's algorithm), written over plain tuples from its requirements:
  02 direction of growth of a node: mean of the normals of its faces
  03 smoothing of normals          04 ice of a step: rest of ice / rest of steps
  05 height from volume            06 smoothing of heights conserves ice
  07 nodes move along directions   08 what a step did not grow is grown later
"""
import math

import numpy as np

EPS = 1e-10


class Degenerate(Exception):
    """The surface has no direction of growth somewhere (outside of the bounded space)."""


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def mul(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a, lim=1e-2):
    n = norm(a)
    if n < lim:
        raise Degenerate('no direction')
    return mul(a, 1 / n)


def total(xs):
    r = (0.0, 0.0, 0.0)
    for x in xs:
        r = add(r, x)
    return r


def tet(a, b, c, d):
    return abs(dot(sub(a, d), cross(sub(b, d), sub(c, d)))) / 6


DEFAULTS = dict(nsteps_min=0, nsteps_max=10, nsteps_hi_side_fact=0.1, nsteps_ignore_part=0.05,
                nsmooth_steps=0, nsmooth_s=10.0, nsmooth_k=0.15, hsmooth_steps=0,
                hsmooth_alfa=0.2, hsmooth_beta=0.1, rest_volume_redistr=True, nss_steps=0,
                nss_epsilon=0.01, nss_st=0.2, nss_fix_nodes=True, pseudo_2d_oz=False)


class Model:
    def __init__(self, points, faces, hi, length=1.0, **opts):
        self.flat = 1e-4 * length ** 2
        self.P = [tuple(p) for p in points]
        self.F = [tuple(f) for f in faces]
        self.o = dict(DEFAULTS, **opts)
        self.target = [self.area(f) * h for f, h in zip(self.F, hi)]
        self.rest = list(self.target)
        self.actual = [0.0] * len(self.F)
        self.nf = [[i for i, f in enumerate(self.F) if v in f] for v in range(len(self.P))]
        by = {}
        for i, f in enumerate(self.F):
            for a, b in ((0, 1), (1, 2), (2, 0)):
                by.setdefault(frozenset((f[a], f[b])), []).append(i)
        self.edges = by
        self.border = {v for e, fs in by.items() if len(fs) == 1 for v in e}
        self.hi = list(hi)

    def tri(self, f):
        return [self.P[v] for v in f]

    def n2(self, f):
        a, b, c = self.tri(f)
        return cross(sub(b, a), sub(c, a))

    def area(self, f):
        return norm(self.n2(f)) / 2

    def nsteps_bounds(self):
        return self.o['nsteps_min'], self.o['nsteps_max']

    def step_counts(self, ignore):
        """
        The largest need within the limit among those which may be ignored, else the limit; where a
        need is decided by rounding, both counts.
        """
        lo, hi = self.nsteps_bounds()
        res = []
        for k in (1 - 1e-9, 1.0, 1 + 1e-9):
            need = self.steps_needed(k)
            fit = [x for x in need[:ignore] if x <= hi] if need[ignore] <= hi else []
            res.append(max(lo, fit[0] if fit else hi))
        return range(min(res), max(res) + 1)

    def steps_needed(self, k):
        """Numbers of steps each face needs, the largest first."""
        o = self.o
        need = []
        for f, h in zip(self.F, self.hi):
            a, b, c = self.tri(f)
            side = min(norm(sub(a, b)), norm(sub(b, c)), norm(sub(c, a)))
            need.append(int(k * h / (side * o['nsteps_hi_side_fact'])) + 1)
        return sorted(need, reverse=True)

    def run(self, nsteps):
        o = self.o
        if o['pseudo_2d_oz']:
            z0 = [p[2] for p in self.P]
            cols = {}
            for v, p in enumerate(self.P):
                cols.setdefault(p[:2], []).append(v)
            cols = [sorted(c, key=lambda v: z0[v]) for c in cols.values()]
        for k in range(nsteps, 0, -1):
            self.step(k)
            if o['pseudo_2d_oz']:
                for c in cols:
                    m = self.P[c[len(c) // 2]]
                    for v in c:
                        self.P[v] = (m[0], m[1], z0[v])

    def step(self, k):
        o = self.o
        F, P = self.F, self.P
        chunk = [r / k for r in self.rest]
        if not o['rest_volume_redistr']:
            # Every step grows its part of the target whatever the steps before it did.
            self.rest = [r - c for r, c in zip(self.rest, chunk)]
        area = [self.area(f) for f in F]
        if min(area) < self.flat:
            raise Degenerate('flat face')
        fn = [mul(self.n2(f), 1 / (2 * a)) for f, a in zip(F, area)]
        nd = [unit(total(fn[i] for i in fs), 0.05 * len(fs)) for fs in self.nf]
        fd = list(fn)
        for _ in range(o['nsmooth_steps']):
            new = []
            for i, f in enumerate(F):
                w = [max(o['nsmooth_s'] * (1 - dot(fd[i], nd[v])), o['nsmooth_k']) for v in f]
                new.append(mul(total(mul(nd[v], x) for v, x in zip(f, w)), 1 / sum(w)))
            fd = new
            nd = [mul(total(mul(fd[i], 1 / area[i]) for i in fs), 1 / sum(1 / area[i] for i in fs))
                  for fs in self.nf]
            if min(norm(d) for d in nd) < 0.05:
                raise Degenerate('no direction')
        h = self.heights(chunk, area, fn, nd)
        for _ in range(o['hsmooth_steps']):
            top = max(h)
            new = list(chunk)
            for fs in self.edges.values():
                if len(fs) == 2:
                    i, j = fs
                    if h[i] < h[j]:
                        i, j = j, i
                    a = chunk[i] / h[i] if h[i] != 0 else area[i]
                    dv = o['hsmooth_beta'] * a * min(h[i] - h[j], o['hsmooth_alfa'] * top)
                    new[i] -= dv
                    new[j] += dv
            chunk = new
            h = self.heights(chunk, area, fn, nd)
        hn = [sum(h[i] for i in fs) / len(fs) for fs in self.nf]
        new = [add(p, mul(d, x)) for p, d, x in zip(P, nd, hn)]
        for i, f in enumerate(F):
            a, b, c = (P[v] for v in f)
            na, nb, nc = (new[v] for v in f)
            v = tet(a, b, c, nc) + tet(a, b, nb, nc) + tet(a, na, nb, nc)
            self.actual[i] += v
            if o['rest_volume_redistr']:
                self.rest[i] = max(0.0, self.rest[i] - v)
        self.P = new
        before = [self.area(f) for f in F]
        for _ in range(o['nss_steps']):
            self.nss(o['nss_epsilon'], o['nss_st'], o['nss_fix_nodes'])
        if min(before) < self.flat:
            raise Degenerate('flat face')
        self.rest = [r * self.area(f) / b for r, f, b in zip(self.rest, F, before)]

    def heights(self, chunk, area, fn, nd):
        res = []
        for i, f in enumerate(self.F):
            h = chunk[i] / area[i]
            if chunk[i] > EPS:
                d = [dot(fn[i], nd[v]) for v in f]
                if min(abs(x) for x in d) < 0.02:
                    raise Degenerate('direction along the face')
                u = [mul(nd[v], 1 / x) for v, x in zip(f, d)]
                a, b, c = self.tri(f)
                # Area of the layer at height t: A + 2 B t + ..., its integral: A h + B h^2.
                A = area[i]
                B = dot(fn[i], add(cross(sub(b, a), sub(u[2], u[0])),
                                   cross(sub(u[1], u[0]), sub(c, a)))) / 4
                if abs(abs(B) - EPS) < EPS / 2:
                    raise Degenerate('nearly straight growth')
                if abs(B) > EPS:
                    D = A * A + 4 * B * chunk[i]
                    if abs(D) < 1e-6 * A * A:
                        raise Degenerate('multiple root')
                    if D > 0:
                        # Smallest non-negative root, in the numerically good form.
                        h = 2 * chunk[i] / (A + math.sqrt(D))
            res.append(h)
        if min(res) < 0:
            # Faces may lose more than they have when heights are smoothed, nodes must not.
            low = min(sum(res[i] for i in fs) / len(fs) for fs in self.nf if any(res[i] for i in fs))
            if low < 1e-12 * max(res):
                raise Degenerate('negative height')
        return res

    def nss(self, eps, st, fix, P=None):
        """One step of null-space smoothing."""
        X = np.array(self.P)
        new = X.copy()
        for v, fs in enumerate(self.nf):
            if fix and v in self.border:
                continue
            A = np.zeros((3, 3))
            d = np.zeros(3)
            for i in fs:
                t = X[list(self.F[i])]
                n = np.cross(t[1] - t[0], t[2] - t[0])
                a = np.linalg.norm(n)
                if a < 2 * self.flat:
                    raise Degenerate('flat face')
                n /= a
                A += a / 2 * np.outer(n, n)
                d += t.mean(axis=0) - X[v]
            d /= len(fs)
            w, V = np.linalg.eigh(A)
            r = w / w[-1]
            if any(abs(x - eps) < 1e-5 * eps for x in r):
                raise Degenerate('rank is not clear')
            N = V[:, r <= eps]
            new[v] = X[v] + st * N @ (N.T @ d)
        self.P = [tuple(float(x) for x in p) for p in new]
