"""Decompositions: alphabet, execution on the real Grid and reference answers."""
import itertools

from . import mesh
from .core import require, Violation


class Scripted:
    """Replacement of random.randint / random.random: answers from a script of choices."""

    def __init__(self, script):
        self.script = list(script)
        self.calls = 0

    def randint(self, a, b):
        self.calls += 1
        if self.script:
            v = self.script.pop(0)
        else:
            v = 0
        return a + v % (b - a + 1)


# What hierarchical splits may go by: (function given to the grid, the same of the centre).
SIGNS = {
    'x': (lambda f: f.get_center()[0], lambda c: c[0]),
    'y': (lambda f: f.get_center()[1], lambda c: c[1]),
    'z': (lambda f: f.get_center()[2], lambda c: c[2]),
    's': (lambda f: f.get_center()[0] + 2.0 * f.get_center()[1], lambda c: c[0] + 2.0 * c[1]),
}


def apply(g, op, **kw):
    """op: ['mono'] | ['random', n, script] | ['linear', n] | ['hier', levels, fixed[, signs]]
    | ['farhat', n, fixed]."""
    import random
    k = op[0]
    if k == 'mono':
        g.decompose_mono(**kw)
    elif k == 'random':
        s = Scripted(op[2])
        # Every source of an integer choice in module random goes to the script.
        names = ('randint', 'randrange', 'choice')
        saved = {n: getattr(random, n) for n in names}
        random.randint = s.randint
        random.randrange = lambda a, b=None, *r: s.randint(0, a - 1) if b is None \
            else s.randint(a, b - 1)
        random.choice = lambda xs: xs[s.randint(0, len(xs) - 1)]
        try:
            g.decompose_random(count=op[1], **kw)
        finally:
            for n in names:
                setattr(random, n, saved[n])
    elif k == 'linear':
        g.decompose_linear(count=op[1], **kw)
    elif k == 'hier':
        if len(op) > 3:
            kw['extract_signs_funs'] = [SIGNS[a][0] for a in op[3]]
        g.decompose_hierarchical(levels=op[1], fixed_zones=list(op[2]), **kw)
    elif k == 'farhat':
        g.decompose_farhat(count=op[1], fz_names=list(op[2]), **kw)
    else:
        raise ValueError(op)


def layout(g):
    """[(zone name, sorted face ids)] in zone order."""
    return [(z.Name, sorted(f.GloId for f in z.Faces)) for z in g.Zones]


def centre(f):
    ps = [mesh.p3(n) for n in f.Nodes]
    return tuple((ps[0][i] + ps[1][i] + ps[2][i]) / 3.0 for i in range(3))


def crossing(g, left, right):
    left, right = set(left), set(right)
    r = 0
    for e in g.Edges:
        ids = [f.GloId for f in e.Faces]
        if len(ids) == 2 and ((ids[0] in left and ids[1] in right)
                              or (ids[1] in left and ids[0] in right)):
            r += 1
    return r


def check_geometry_untouched(g, before):
    """Decomposition changes nothing but zones."""
    now = frozen(g)
    for k in before:
        require(now[k] == before[k], 'decomposition changed {0} of the grid', k, key='side-effect')


def frozen(g):
    s = mesh.snapshot(g)
    return {'nodes': s['nodes'], 'edges': s['edges'],
            'faces': [(f[0], f[1], f[2], f[4]) for f in s['faces']]}


def check(g, op, before_layout, before_fixed=()):
    """What the decomposition promises; the structural part is mesh.check_valid."""
    k = op[0]
    lay = layout(g)
    n = len(g.Faces)
    sizes = [len(fs) for _, fs in lay]
    require(sorted(i for _, fs in lay for i in fs) == list(range(n)),
            '{0}: faces of zones are not all faces of the grid, each once: {1}', op, lay,
            key='partition')
    require([z.Id for z in g.Zones] == list(range(len(g.Zones))),
            '{0}: zones are not numbered in order: {1}', op, [z.Id for z in g.Zones], key='ids')
    fixed = []
    if k in ('hier', 'farhat'):
        fixed = [(nm, fs) for nm, fs in before_layout if nm in op[2]]
        for nm, fs in fixed:
            require((nm, fs) in lay, '{0}: fixed zone {1} changed: {2}', op, nm, lay, key='fixed')
    own = list(lay)
    for x in fixed:
        own.remove(x)
    require(len({nm for nm, _ in own}) == len(own), '{0}: new zones share a name: {1}', op,
            [nm for nm, _ in own], key='names')
    if len({nm for nm, _ in fixed}) == len(fixed):
        require(len({nm for nm, _ in lay}) == len(lay), '{0}: a new zone has the name of a fixed one: {1}', op,
                [nm for nm, _ in lay], key='names')
    if k == 'mono':
        require(len(lay) == 1, 'mono: {0} zones', len(lay), key='count')
    elif k == 'random':
        require(len(lay) == op[1], '{0}: {1} zones', op, len(lay), key='count')
    elif k == 'linear':
        require(len(lay) == op[1], '{0}: {1} zones', op, len(lay), key='count')
        require(max(sizes) - min(sizes) <= 1, '{0}: sizes {1}', op, sizes, key='balance')
        flat = [i for _, fs in lay for i in fs]
        require(flat == list(range(n)), '{0}: zones are not consecutive runs of faces: {1}', op,
                lay, key='runs')
    elif k == 'farhat':
        require(len(own) == op[1], '{0}: {1} new zones', op, len(own), key='count')
        sz = [len(fs) for _, fs in own]
        require(max(sz) - min(sz) <= 1, '{0}: sizes {1}', op, sz, key='balance')
    elif k == 'hier':
        check_hier(g, op, own)
        require(len(own) <= 2 ** (op[1] - 1), '{0}: {1} zones', op, len(own), key='count')


def farhat_grows(g, op, before_layout):
    """
    Farhat zones grow from a face through neighbours: inside a zone every face but the first of
    each connected piece of what was free is a neighbour of an earlier one.  Checked as: for each
    zone in order, if the faces that were still free form one connected set, the zone is connected.
    """
    lay = layout(g)
    fixed = {nm for nm, _ in before_layout if nm in op[2]}
    nb = {f.GloId: set() for f in g.Faces}
    for e in g.Edges:
        if len(e.Faces) == 2:
            a, b = e.Faces[0].GloId, e.Faces[1].GloId
            nb[a].add(b)
            nb[b].add(a)

    def conn(s):
        s = set(s)
        if not s:
            return True
        st = [next(iter(s))]
        seen = set(st)
        while st:
            for y in nb[st.pop()] & s - seen:
                seen.add(y)
                st.append(y)
        return seen == s
    free = set(nb)
    for nm, fs in lay:
        if nm in fixed:
            free -= set(fs)
    for nm, fs in lay:
        if nm in fixed:
            continue
        if conn(free):
            require(conn(fs), '{0}: zone {1} of {2} is not connected', op, nm, sorted(free),
                    key='farhat-connected')
        free -= set(fs)


def check_hier(g, op, own):
    """Every split follows the median of a coordinate of centres and cuts the fewest edges."""
    cen = {f.GloId: centre(f) for f in g.Faces}
    zones = {nm: fs for nm, fs in own}
    # Names are those of the binary tree of splits: a root and letters l, r.
    roots = {nm.rstrip('lr') for nm in zones}
    require(len(roots) == 1, '{0}: names {1}', op, list(zones), key='names')
    root = roots.pop()

    def candidates(fs):
        res = []
        for ax in op[3] if len(op) > 3 else 'xyz':
            v = {i: SIGNS[ax][1](cen[i]) for i in fs}
            signs = sorted(v.values())
            blade = signs[len(signs) // 2]
            left = [i for i in fs if v[i] < blade]
            right = [i for i in fs if v[i] >= blade]
            if left and right:
                res.append((sorted(left), sorted(right), crossing(g, left, right)))
        return res

    def under(prefix):
        return sorted(i for nm, fs in zones.items() if nm.startswith(prefix) for i in fs)

    def walk(nm, level):
        fs = under(nm)
        if nm in zones:
            # Not split: only if the last level is reached or there is nothing to split by.
            require(level == op[1] or len(fs) < 2 or not candidates(fs),
                    '{0}: zone {1} {2} is not split', op, nm, fs, key='hier-unsplit')
            return
        require(level < op[1], '{0}: zone {1} is split too deep', op, nm, key='hier-depth')
        l, r = under(nm + 'l'), under(nm + 'r')
        require(l and r, '{0}: empty part of {1}: {2} {3}', op, nm, l, r, key='hier-empty')
        cand = candidates(fs)
        match = [c for c in cand if c[0] == l and c[1] == r]
        require(match, '{0}: {1} is split into {2} and {3}, not along a median', op, nm, l, r,
                key='hier-median')
        require(match[0][2] == min(c[2] for c in cand),
                '{0}: {1} is split with {2} cut edges instead of {3}', op, nm, match[0][2],
                min(c[2] for c in cand), key='hier-metric')
        walk(nm + 'l', level + 1)
        walk(nm + 'r', level + 1)
    walk(root, 1)


def menu(names, nfaces, tier, full=True):
    """All decompositions tried on a grid with these zone names."""
    subs = [[]]
    uniq = sorted(set(names))
    if len(uniq) <= 3:
        subs = [list(c) for r in range(len(uniq) + 1) for c in itertools.combinations(uniq, r)]
    else:
        subs += [[u] for u in uniq[:3]] + [uniq[:2], uniq]
    ops = [['mono']]
    for n in (1, 2, 3):
        if nfaces <= (4 if tier == 'quick' else 6) and n > 1 and full:
            ops += [['random', n, list(s)] for s in itertools.product(range(n), repeat=nfaces)]
        else:
            ops += [['random', n, [(i * 7 + 3) % n for i in range(nfaces)]]]
        # Answers on and beyond the last zone: the range that is asked for matters.
        ops += [['random', n, [n] * nfaces], ['random', n, [(n - 1) * (i % 2) + i % 3 for i in range(nfaces)]]]
    ops += [['linear', n] for n in range(1, nfaces + 2)]
    for s in subs:
        ops += [['hier', l, s] for l in (1, 2, 3, 4)]
        if s == []:
            ops += [['hier', 3, s, signs] for signs in ('x', 'zy', 's', 'szyx')]
        ops += [['farhat', n, s] for n in range(1, nfaces + 2)]
    return ops


def menu_large(names, nfaces):
    """Decompositions of large grids: counts of zones with two digits, deep hierarchies, fixed
    zones whose names begin alike."""
    ops = [['mono'], ['random', 13, [(i * 7 + i // 11) % 13 for i in range(nfaces)]],
           ['linear', 12], ['hier', 5, []], ['farhat', 12, []]]
    if len(names) == 1:
        # Nothing of the old zones stays: one old zone is enough.
        ops += [['linear', 101], ['hier', 7, []], ['farhat', 30, []], ['hier', 4, [], 's'], ['hier', 5, [], 'zx']]
    else:
        ops = ops[3:]
        for fz in (names[1:2], names[10:12], names[:10], names[-1:] + names[2:3]):
            ops += [['hier', 5, fz], ['farhat', 11, fz]]
    return ops
