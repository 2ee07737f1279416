"""C08: breadth-first walk over faces visits every admitted face once, part by part."""
import itertools

from mc import mesh, env
from mc.core import require, Violation
from checks import grids


def shards(tier):
    lim = 8 if tier == 'quick' else 10
    return [{'mesh': grids.BASE + i} for i in range(len(grids.big()))] + \
        [{'mesh': i} for i, p in enumerate(grids.pool()) if len(p[1]) <= lim]


def run_shard(shard, R):
    label, fs, pts = grids.get(shard['mesh'])
    n = len(fs)
    if shard['mesh'] >= grids.BASE:
        full = 2 ** n - 1
        holes = [0] + [sum(1 << i for i in range(o, n, k)) for k, o in
                       ((2, 0), (2, 1), (7, 3), (40, 20), (n, n // 2))]
        # Runs of admitted faces, and every single part missing.
        holes += [(1 << n // 3) - 1, full >> n // 3 << n // 3, full]
        for start in (0, n // 2, n - 1):
            for hole in holes:
                R.step()
                R.state((label, start, hole))
                R.case({'mesh': shard['mesh'], 'start': start, 'keep': full & ~hole})
        return
    for start in range(n):
        for bits in range(2 ** n):
            R.step()
            R.state((label, start, bits))
            R.case({'mesh': shard['mesh'], 'start': start, 'keep': bits})


_cache = {}


def grid_of(i):
    """The walk must not depend on marks left by earlier walks, so grids are shared."""
    if i not in _cache:
        _cache.clear()
        label, fs, pts = grids.get(i)
        with env.scratch() as d:
            _cache[i] = mesh.load_grid(mesh.make(fs, None, pts), d)
    return _cache[i]


def run_case(case, R):
    g = grid_of(case['mesh'])
    fs = g.Faces
    n = len(fs)
    keep = {i for i in range(n) if case['keep'] >> i & 1}
    idx = {id(f): i for i, f in enumerate(fs)}
    path = g.bfs_path(fs[case['start']], lambda f: idx[id(f)] in keep)
    got = [idx[id(f)] for f in path]
    require(sorted(got) == sorted(keep), 'walk visits {0} of admitted {1}', got, sorted(keep),
            key='cover')
    by = {}
    for i, f in enumerate(fs):
        for k in itertools.combinations(sorted(n.GloId for n in f.Nodes), 2):
            by.setdefault(k, []).append(i)
    near = [set() for _ in fs]
    for x in by.values():
        for a, b in itertools.permutations(x, 2):
            near[a].add(b)
    if case['start'] in keep:
        require(got[0] == case['start'], 'walk starts at {0}', got[:1], key='start')
    # Part by part, and inside a part by distance.
    i = 0
    while i < len(got):
        dist = {got[i]: 0}
        todo = [got[i]]
        for a in todo:
            for b in near[a]:
                if b in keep and b not in dist:
                    dist[b] = dist[a] + 1
                    todo.append(b)
        part = got[i:i + len(dist)]
        require(set(part) == set(dist), 'part of {0} is not walked in one go: {1}', got[i], got,
                key='parts')
        ds = [dist[b] for b in part]
        require(ds == sorted(ds), 'walk {0} is not breadth-first (distances {1})', part, ds,
                key='order')
        i += len(dist)
    R.outcome(len(got))


def describe(tier):
    return {
        'rule': 'One case = (mesh, start face, set of admitted faces); the walk is compared with reachability and distances computed by brute force.',
        'bounds': 'all meshes of the pool with <= 8 (10) faces, every start face, every subset of admitted faces; 4 large meshes (54..1080 faces), 3 starts x 9 sets of admitted faces.',
        'assumptions': []}
