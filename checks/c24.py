"""C24: structured blocks of Lazurit become triangles with the data of their cells."""
import itertools
import json
import os

from mc import mesh, env, cli
from mc.core import require

NAMES = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
STEM = 'T-15000_'


def shards(tier):
    n = 4 if tier == 'quick' else 6
    res = [{'sizes': [[i, j]]} for i in range(2, n + 1) for j in range(2, n + 1)]
    sz = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3)] if tier == 'quick' else \
        [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (2, 5)]
    res += [{'sizes': [a, b]} for a in sz for b in sz]
    res += [{'sizes': [[i, j]], 'more': m} for i in range(2, n + 3) for j in (2, 3, n) for m in (1, 2, 3)]
    res += [{'sizes': [[2, 3], [5, 3], [3, 2]], 'more': m} for m in (1, 2, 3)]
    res += [{'sizes': [a, b, c]} for a, b, c in itertools.product(sz[:3], repeat=3)]
    res += [{'sizes': [(2, 2 + k % 2) for k in range(n)]} for n in (9, 10, 11, 12)]
    return res + [{'fault': k} for k in range(11)]


def run_shard(s, R):
    if 'fault' in s:
        go(R, {'fault': s['fault']})
        return
    n = len(s['sizes'])
    if 'more' in s:
        # Numbers of any size; closed blocks; names of files with the letter B.
        for per_line, shape, names in itertools.product((3, 1000), list(SHAPES)[:4] if s['more'] != 2 else ['ring'], (0, 1)):
            if shape != 'ring' or n > 1 or s['sizes'][0][0] > 3:
                go(R, {'sizes': s['sizes'], 'per_line': per_line, 'shape': shape, 'other': 0, 'names': names,
                       'fmt': s['more'] - 1, 'stem': 'Body_B-1_B_' if s['more'] == 3 else STEM})
        return
    for per_line in ((1, 3, 5, 1000) if n < 9 else (4,)):
        for shape in list(SHAPES)[:4]:
            for other in (0, 1):
                for names in ((0, 1, 2) if n < 9 else (0,)):
                    go(R, {'sizes': s['sizes'], 'per_line': per_line, 'shape': shape, 'other': other, 'names': names})


def go(R, c):
    R.step()
    R.state(json.dumps(c))
    R.case(c)


# How values are written.
FORMATS = ['{0:15.4f}', '{0: .9E}', '{0:22.15g}']


# Position of node (i, j) of block b; consecutive blocks have one side in common.
SHAPES = {
    'flat': lambda b, i, j, off: (off + i, j, 0.0),
    'roof': lambda b, i, j, off: (off + i, 0.5 * j, 0.25 * (off + i) * j - 0.125 * j * j),
    'apart': lambda b, i, j, off: (i, j, 2.0 * b + 0.5 * i),
    'small': lambda b, i, j, off: (0.001953125 * (off + i), 0.0009765625 * j, -0.001953125 * i * j),
    # The last column is the first one again.
    'ring': lambda b, i, j, off, n: (i % n + 20.0 * b, (i % n) * (n - i % n) + 0.125 * j, 1.0 * j + 0.25 * b),
}


def block_ids(n, names):
    return [k + 1 for k in range(n)] if names == 0 else [3 * k + 7 for k in range(n)] if names == 1 else \
        [n - k for k in range(n)]


def text(values, per_line, head):
    out = list(head)
    for blk in values:
        for k in range(0, len(blk), per_line):
            out.append(' '.join(blk[k:k + per_line]))
    return '\n'.join(out) + '\n'


def write(d, c):
    """Files of the blocks; returns what they describe, block by block."""
    res, off = [], 0
    for b, (ni, nj) in enumerate(c['sizes']):
        bid = block_ids(len(c['sizes']), c['names'])[b]
        more = ([ni - 1 if ni > 3 else 99] if c['shape'] == 'ring' else [])
        pos = {(i, j): SHAPES[c['shape']](b, i, j, off, *more) for i in range(ni) for j in range(nj)}
        off += ni - 1
        cells = {(i, j): [100.0 * (b + 1) + 10 * i + j + 0.0625 * v - 50 * (v > 4) * ((i + j) % 2)
                          for v in range(8)] for i in range(ni - 1) for j in range(nj - 1)}
        fmt = FORMATS[c.get('fmt', 0)]
        if c.get('fmt'):
            # Also values that need all digits, zeros and both signs.
            cells = {n: [x * (1 + 1e-7 * v) * 10.0 ** (-5 * (v + n[0]) % 13 - 9) * (-1) ** (n[0] + v) * ((n[1] + v) % 5 > 0)
                         for v, x in enumerate(r)] for n, r in cells.items()}
            cells = {n: [float(fmt.format(x)) for x in r] for n, r in cells.items()}
        zname = '{0}_Block-{0}_WALL_4_Isotermal_wall'.format(bid)
        dims = 'I={0:6d} J={1:6d} K=     1'.format(ni, nj)
        tail = ' STRANDID=      100004 SOLUTIONTIME=  15000.00000000'
        order_n = [(i, j) for j in range(nj) for i in range(ni)]
        order_c = [(i, j) for j in range(nj - 1) for i in range(ni - 1)]
        with open(os.path.join(d, 'TEC_WALL_Grid_{0}B-{1}.TEC'.format(c.get('stem', STEM), bid)), 'w') as f:
            f.write(text([['{0: .9E}'.format(pos[n][k]) for n in order_n] for k in range(3)], c['per_line'],
                         ['FILETYPE = GRID', 'VARIABLES = X Y Z', 'ZONE T="{0}"'.format(zname), dims,
                          'ZONETYPE = Ordered, DATAPACKING = BLOCK', tail]))
        with open(os.path.join(d, 'TEC_WALL_Solution_{0}B-{1}.TEC'.format(c.get('stem', STEM), bid)), 'w') as f:
            f.write(text([[fmt.format(cells[n][k]) for n in order_c] for k in range(8)], c['per_line'],
                         ['FILETYPE = SOLUTION', 'VARIABLES = Tw Hw Hi HTC Beta TauX TauY TauZ',
                          'ZONE T="{0}"'.format(zname), dims,
                          'ZONETYPE = Ordered, DATAPACKING = BLOCK, VARLOCATION=([1-8]=CELLCENTERED)', tail]))
        res.append((bid, (ni, nj), pos, cells))
    if c['other']:
        for n in ('readme.txt', 'TEC_WALL_Grid.plt', 'grid.dat'):
            with open(os.path.join(d, n), 'w') as f:
                f.write('nothing\n')
    return res


def run_case(c, R):
    if 'fault' in c:
        return fault(c, R)
    with env.scratch() as d:
        src, out = os.path.join(d, 'in'), os.path.join(d, 'o.dat')
        os.makedirs(src)
        blocks = write(src, c)
        keep = {f: open(os.path.join(src, f)).read() for f in os.listdir(src)}
        r = cli.run('convert/lazurit_to_crystal.py', [src, out])
        require(not r.failed, 'failed: {0!r} {1}', r.exc, r.code, key='failed')
        require({f: open(os.path.join(src, f)).read() for f in os.listdir(src)} == keep, 'input changed', key='input')
        require(sorted(os.listdir(d)) == ['in', 'o.dat'], 'files {0}', os.listdir(d), key='files')
        judge(blocks, mesh.parse_dat(out), bool(c.get('fmt')))
        import gsu
        g = gsu.Grid()
        g.load(out)
        mesh.check_valid(g)
        pts = {tuple(float('{0:.9E}'.format(x)) for x in p) for _, _, pos, _ in blocks for p in pos.values()}
        require(len(g.Nodes) == len(pts), '{0} nodes for {1} points', len(g.Nodes), len(pts), key='seams')
        R.outcome((len(blocks), len(g.Faces), len(g.Nodes)))
    return True


def judge(blocks, res, exact):
    require(sorted(z['name'] for z in res['zones']) == sorted('B-{0}'.format(b) for b, _, _, _ in blocks),
            'zones {0}', [z['name'] for z in res['zones']], key='zones')
    zs = {z['name']: z for z in res['zones']}
    for n in NAMES:
        require(n in res['vars'], 'no variable {0}', n, key='variables')
    for bid, (ni, nj), pos, cells in blocks:
        z = zs['B-{0}'.format(bid)]
        require(len(z['faces']) == 2 * len(cells), '{0} faces for {1} cells', len(z['faces']), len(cells), key='faces')
        # Which cell a triangle belongs to is told by its corners.
        where = {}
        for n, p in pos.items():
            where.setdefault(mesh.rnd(p), []).append(n)
        got = {}
        for k in range(len(z['faces'])):
            t = [where.get(mesh.rnd(p)) for p in mesh.tri_of(z, k)]
            require(all(t), 'face {0} has a corner that is no node of the block', k, key='corner')
            # Where the block meets itself a point has two names.
            t = next((x for x in itertools.product(*t) if all(max(y[a] for y in x) - min(y[a] for y in x) == 1
                                                              for a in (0, 1))), [x[0] for x in t])
            i, j = min(x for x, _ in t), min(y for _, y in t)
            require(len(set(t)) == 3 and max(x for x, _ in t) == i + 1 and max(y for _, y in t) == j + 1,
                    'face {0} joins nodes {1}', k, t, key='shape')
            got.setdefault((i, j), []).append((t, {n: z['data'][n][k] for n in NAMES}))
        for cell, vals in cells.items():
            fs = got.get(cell, [])
            require(len(fs) == 2, 'cell {0} has {1} triangles', cell, len(fs), key='cover')
            i, j = cell
            miss = [({(i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)} - set(t)).pop() for t, _ in fs]
            require(abs(miss[0][0] - miss[1][0]) == 1 and abs(miss[0][1] - miss[1][1]) == 1,
                    'triangles of cell {0} overlap', cell, key='cover')
            want = vals[:5] + [-x for x in vals[5:]]
            for t, data in fs:
                for n, w in zip(NAMES, want):
                    require(abs(data[n] - w) <= (1e-9 * abs(w) if exact else 1e-4), '{0} of cell {1} of block {2}: {3} instead of {4}', n, cell,
                            bid, data[n], w, key='data')
                # All normals look to the side of d/dj x d/di.
                (x0, y0), (x1, y1), (x2, y2) = t
                s = (x1 - x0) * (y2 - y0) - (y1 - y0) * (x2 - x0)
                require(s == -1, 'triangle {0} of cell {1} is turned over', t, cell, key='normal')


def fault(c, R):
    """Directories that are not a set of pairs are refused."""
    with env.scratch() as d:
        src, out = os.path.join(d, 'in'), os.path.join(d, 'o.dat')
        os.makedirs(src)
        write(src, {'sizes': [(2, 3), (3, 2), (2, 2)], 'per_line': 4, 'shape': 'flat', 'other': 0, 'names': 0})
        g, s = 'TEC_WALL_Grid_' + STEM + 'B-{0}.TEC', 'TEC_WALL_Solution_' + STEM + 'B-{0}.TEC'

        def mv(a, b):
            os.rename(os.path.join(src, a), os.path.join(src, b))
        k = c['fault']
        if k == 0:
            os.remove(os.path.join(src, g.format(1)))
        elif k == 1:
            os.remove(os.path.join(src, s.format(3)))
        elif k == 2:
            mv(s.format(2), s.format(5))
        elif k == 3:
            mv(g.format(3), g.format(9))
        elif k == 4:
            mv(g.format(3), s.format(4))
        elif k == 5:
            src = src + 'x'
        elif k == 6:
            os.remove(os.path.join(src, g.format(1)))
            os.remove(os.path.join(src, s.format(3)))
        elif k == 7:
            for i in (1, 2, 3):
                mv(g.format(i), 'A' + g.format(i))
        elif k == 8:
            for i in (1, 2, 3):
                mv(s.format(i), s.format(i).replace('Solution', 'Answer'))
        elif k >= 9:
            # Another series of files.
            for i in (1, 2, 3) if k == 9 else (2,):
                mv(s.format(i), s.format(i).replace(STEM, 'T-16000_'))
        r = cli.run('convert/lazurit_to_crystal.py', [src, out])
        require(r.failed, 'fault {0} is accepted', k, key='accepted')
    R.outcome('refused')
    return True


def describe(tier):
    return {'rule': 'every size of blocks, up to three (and nine to twelve) blocks in a directory, shapes, numbers '
                    'per line, names of blocks and foreign files; each triangle is traced back to its cell',
            'bounds': {'block': '2..{0} x 2..{0} nodes'.format(4 if tier == 'quick' else 6), 'blocks': '1-3, 9-12', 'closed blocks': 'rings of 3..5 cells',
                       'ways to write values': len(FORMATS)},
            'assumptions': ['cell data of ordered Tecplot zones run fastest along I, as node data do',
                            'numbers in the files carry 9 digits (coordinates) and 4 decimals (values)']}
