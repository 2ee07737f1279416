"""Reading of .cry files (input of the solver), and what their set has to satisfy."""
import os
import re

from .core import Violation, require
from .mesh import CRY_VARS


def parse(path):
    with open(path) as f:
        lines = f.read().split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    pos = 0
    nm = os.path.basename(path)

    def take():
        nonlocal pos
        if pos >= len(lines):
            raise Violation('{0}: unexpected end of file'.format(nm), key='format')
        pos += 1
        return lines[pos - 1]

    def field(prefix):
        s = take()
        if not s.startswith(prefix):
            raise Violation('{0}: expected {1}, got {2!r}'.format(nm, prefix, s[:60]),
                            key='format')
        return s[len(prefix):]

    r = {}
    r['title'] = field('TITLE=').strip('"')
    r['vars'] = [t.strip().strip('"') for t in field('VARIABLES=').split(',')]
    require(r['vars'] == CRY_VARS, '{0}: variables {1}', nm, r['vars'], key='format')
    r['mpi'] = int(field('MPI='))
    n, e = int(field('NODES=')), int(field('EDGES='))
    r['cross'] = int(field('CROSS-EDGES='))
    fc = int(field('FACES='))
    field('NODES COORDINATES:')
    xyz = [[float(t) for t in take().split()] for _ in range(3)]
    require(all(len(c) == n for c in xyz), '{0}: {1} coordinates of {2} nodes', nm,
            [len(c) for c in xyz], n, key='format')
    r['points'] = list(zip(*xyz)) if n else []
    field('FACES DATA:')
    r['ids'] = [int(t) for t in take().split()]
    r['data'] = {}
    for v in CRY_VARS[4:]:
        r['data'][v] = [float(t) for t in take().split()]
        require(len(r['data'][v]) == fc, '{0}: {1} values of {2} for {3} faces', nm,
                len(r['data'][v]), v, fc, key='format')
    require(len(r['ids']) == fc, '{0}: {1} identifiers of {2} faces', nm, len(r['ids']), fc,
            key='format')

    def table(title, rows, width, top):
        field(title)
        res = []
        for _ in range(rows):
            t = [int(x) for x in take().split()]
            require(len(t) == width and all(0 <= x < top for x in t),
                    '{0}: row {1} of {2}, allowed 0..{3}', nm, t, title, top - 1, key='format')
            res.append(t)
        return res
    r['fn'] = table('FACE-NODE CONNECTIVITY LIST:', fc, 3, n)
    r['fe'] = table('FACE-EDGE CONNECTIVITY LIST:', fc, 3, e)
    r['en'] = table('EDGE-NODE CONNECTIVITY LIST:', e, 2, n)
    nb = int(field('MPI-BORDERS='))
    r['borders'] = {}
    for _ in range(nb):
        s = take()
        m = re.match(r'\[(\d+)\](.*)$', s)
        require(m, '{0}: border line {1!r}', nm, s, key='format')
        k = int(m.group(1))
        require(k not in r['borders'], '{0}: border with {1} twice', nm, k, key='border-twice')
        r['borders'][k] = [int(t) for t in m.group(2).split()]
        require(all(0 <= x < e for x in r['borders'][k]), '{0}: border edges {1} of {2}', nm,
                r['borders'][k], e, key='format')
    require(all(not s.strip() for s in lines[pos:]), '{0}: trailing lines', nm, key='format')
    r['nodes'], r['edges'], r['faces'] = n, e, fc
    return r


def check_set(files):
    """Self-consistency of the files of all ranks (no reference to the grid in memory)."""
    where = {}
    pt = lambda r, v: tuple(round(c, 9) + 0.0 for c in r['points'][v])
    edge_at = {}
    for i, r in enumerate(files):
        require(r['mpi'] == i, 'file {0} says rank {1}', i, r['mpi'], key='rank')
        for fid in r['ids']:
            require(fid not in where, 'face {0} is in files {1} and {2}', fid, where.get(fid), i,
                    key='face-twice')
            where[fid] = i
        require({v for t in r['fn'] for v in t} == set(range(r['nodes'])),
                'rank {0}: nodes of the file are not the nodes of its faces', i, key='nodes')
        require({v for t in r['fe'] for v in t} == set(range(r['edges'])),
                'rank {0}: edges of the file are not the edges of its faces', i, key='edges')
        for a, b in r['en']:
            require(a != b, 'rank {0}: edge from node {1} to itself', i, a, key='edge')
        keys = [frozenset(t) for t in r['en']]
        require(len(set(keys)) == len(keys), 'rank {0}: edge twice', i, key='edge-twice')
        for t, es in zip(r['fn'], r['fe']):
            want = {frozenset((t[0], t[1])), frozenset((t[1], t[2])), frozenset((t[0], t[2]))}
            got = {keys[x] for x in es}
            require(want == got, 'rank {0}: face {1} lists edges {2}', i, t,
                    [r['en'][x] for x in es], key='face-edges')
        for x, t in enumerate(r['en']):
            k = frozenset(pt(r, v) for v in t)
            edge_at.setdefault(k, set()).add(i)
    for i, r in enumerate(files):
        ekey = [frozenset(pt(r, v) for v in t) for t in r['en']]
        listed = []
        for j, es in r['borders'].items():
            require(j != i and 0 <= j < len(files), 'rank {0} has a border with {1}', i, j,
                    key='border-self')
            require(es, 'rank {0}: empty border with {1}', i, j, key='border-empty')
            back = files[j]['borders'].get(i)
            require(back is not None, 'rank {0} borders {1} but not the other way', i, j,
                    key='border-oneway')
            bkey = [frozenset(pt(files[j], v) for v in files[j]['en'][x]) for x in back]
            require([ekey[x] for x in es] == bkey,
                    'ranks {0} and {1} list different edges (or in different order) of their '
                    'border', i, j, key='border-order')
            listed += es
        require(len(set(listed)) == len(listed), 'rank {0}: edge in two borders', i,
                key='border-dup')
        require(len(listed) == r['cross'], 'rank {0}: CROSS-EDGES={1}, borders list {2}', i,
                r['cross'], len(listed), key='cross-count')
        want = {x for x, k in enumerate(ekey) if len(edge_at[k]) > 1}
        require(set(listed) == want, 'rank {0}: edges shared with other ranks {1}, listed {2}', i,
                sorted(want), sorted(listed), key='border-set')
    return where
