"""C03: every decomposition is a partition with the promised sizes; fixed zones stay."""
import itertools

from mc import mesh, decomp, env
from mc.core import require
from checks import grids


# New title of the grid: none, another one, an empty one.
NAMES = [None, 'new name', '']


def shards(tier):
    res = []
    for i, (label, fs, pts) in enumerate(grids.pool()):
        n = len(fs)
        cols = [[0] * n] + ([[int(j >= (n + 1) // 2) for j in range(n)],
                             [min(j, 2) for j in range(n)]] if n > 1 else [])
        if n <= 3:
            cols = grids.colourings(n, 3)
        for c in cols:
            deep = 2 if (n <= (3 if tier == 'quick' else 4) or
                         label in ('rect21', 'tetra', 'vertical', 'stack')) else 1
            res.append({'mesh': i, 'zones': c, 'depth': deep, 'tier': tier})
    res.sort(key=lambda s: -(len(s['zones']) * s['depth'] ** 3))
    return [{'mesh': i, 'zones': z, 'depth': 1, 'tier': tier} for i, z in grids.large()] + res


def run_shard(shard, R):
    base = {'mesh': shard['mesh'], 'zones': shard['zones']}
    tier = shard['tier']
    n = len(shard['zones'])
    names = ['zone{0}'.format(z) for z in sorted(set(shard['zones']))]
    seen = set()
    frontier = [([], names)]
    for depth in range(shard['depth']):
        nxt = []
        for hist, nm in frontier:
            large = shard['mesh'] >= grids.BASE
            for op in decomp.menu_large(nm, n) if large \
                    else decomp.menu(nm, n, tier, full=depth == 0):
                h = hist + [op]
                R.step()
                res = R.case(dict(base, history=h, name=NAMES[len(seen) % 3]))
                if res is None or res in seen:
                    continue
                seen.add(res)
                R.state((shard['mesh'], res))
                nxt.append((h, [z for z, _ in eval(res)]))
        frontier = nxt


def run_case(case, R):
    label, fs, pts = grids.get(case['mesh'])
    with env.scratch() as d:
        g = mesh.load_grid(mesh.make(fs, case['zones'], pts), d)
        for op in case['history'][:-1]:
            decomp.apply(g, op)
        op = case['history'][-1]
        before = decomp.layout(g)
        fr = decomp.frozen(g)
        title, name = g.Name, case.get('name')
        decomp.apply(g, op, **({} if name is None else {'new_name': name}))
        require(g.Name == (title if name is None else name), 'title is {0!r}, it was {1!r}, asked for {2!r}',
                g.Name, title, name, key='title')
        decomp.check(g, op, before)
        mesh.check_valid(g)
        if op[0] == 'farhat':
            decomp.farhat_grows(g, op, before)
        decomp.check_geometry_untouched(g, fr)
        lay = decomp.layout(g)
        R.outcome((op[0], tuple(len(x) for _, x in lay)))
        return repr(lay)


def describe(tier):
    return {
        'rule': 'Breadth-first search over decompositions of the real Grid; every transition is one decomposition call whose result is compared with the state before (partition, sizes, fixed zones, order of pieces).',
        'bounds': 'mesh pool of C01; zone assignments all (<= 3 faces) or 3 patterns; mono; random with every scripted choice sequence for few faces; linear and Farhat with counts 1..faces+1; hierarchical with 1..4 levels and with signs by x, y or z, one letter or several; all sets of fixed zones (<= 3 zones) for the last two; depth 2 for small meshes, 1 otherwise.',
        'assumptions': ['The random source is scripted; every sequence of choices of the menu is enumerated.']}
