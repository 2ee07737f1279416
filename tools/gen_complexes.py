"""
Generates mc/complexes.json: all sets of triangles on at most 6 vertices in which no edge belongs
to more than two triangles, up to renumbering of vertices.
"""
import itertools
import json
import os

N = 6
TRI = list(itertools.combinations(range(N), 3))
PERMS = list(itertools.permutations(range(N)))
IDX = {t: i for i, t in enumerate(TRI)}
MAP = [[IDX[tuple(sorted(p[v] for v in t))] for t in TRI] for p in PERMS]
EDGES = [[i for i, t in enumerate(TRI) if set(e) <= set(t)]
         for e in itertools.combinations(range(N), 2)]


def ok(s):
    return all(sum(1 for i in e if i in s) <= 2 for e in EDGES)


def canon(s):
    return min(tuple(sorted(m[i] for i in s)) for m in MAP)


level = {(0,)}
out = []
while level:
    out += sorted(level)
    nxt = set()
    tried = set()
    for s in level:
        for i in range(len(TRI)):
            if i not in s:
                t = frozenset(s) | {i}
                if t not in tried:
                    tried.add(t)
                    if ok(t):
                        nxt.add(canon(t))
    level = nxt
res = []
for s in out:
    fs = [TRI[i] for i in s]
    seen = {}
    for f in fs:
        for v in f:
            seen.setdefault(v, len(seen))
    res.append([[seen[v] for v in f] for f in fs])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'mc', 'complexes.json'), 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps(c) for c in res) + '\n]\n')
print(len(res))
