"""C09: merging result files of the solver writes every value to its face, nothing else."""
import itertools
import os

from mc import mesh, env, cli
from mc.core import require, Violation
from checks import grids

# Every noise file is unreadable as results: taking it into account cannot go unnoticed.
NOISE = ['other_00000_000000000001.txt', 'xin_00000_000000000001.txt',
         'in_0000a_000000000001.txt', 'in_00000_00000000000x.txt', 'in_00000_000000000001.cry',
         'report.txt', 'in.dat', 'in_00000_000000000001.txt.bak']
TIMES = ['000000000001', '000010000000', '999999999999'] + ['{0:012d}'.format(i) for i in
                                                            (2, 10, 11, 20, 100, 3, 30, 9)]
VARSETS = [['T', 'Hw', 'Hi'], ['Hi', 'T', 'Hw', 'Beta'], ['T'], ['Hi', 'T', 'Hw']]
HEADER = 'time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es'


def meshes():
    P = {p[0]: i for i, p in enumerate(grids.pool())}
    by_n = {}
    for i, p in enumerate(grids.pool()):
        by_n.setdefault(len(p[1]), []).append(i)
    return [by_n[1][0], by_n[2][0], by_n[3][0], P['rect21'], P['tetra'], P['octa']]

# Sums of values with this remainder are exact and have 13 digits and more.
TINY = 2.0 ** -40


def shards(tier):
    res = []
    for mi in meshes():
        n = len(grids.get(mi)[1])
        cols = grids.colourings(n, 2) if n <= 3 else [[0] * n, [j % 2 for j in range(n)]]
        for col in cols:
            for files in (1, 2, 3, 4):
                res.append({'kind': 'owners', 'mesh': mi, 'zones': col, 'files': files,
                            'lim': 300 if tier == 'quick' else 5000})
    res = [{'kind': 'large', 'mesh': i, 'zones': z} for i, z in
           grids.large(labels=('tube', 'parts', 'strip'))] + res
    for mi in meshes()[:4]:
        res.append({'kind': 'orders', 'mesh': mi})
        res.append({'kind': 'noise', 'mesh': mi})
    for mi in meshes():
        res.append({'kind': 'gaps', 'mesh': mi})
    res.append({'kind': 'csv'})
    res.append({'kind': 'cli', 'mesh': meshes()[3]})
    return res


def owners(n, k, lim):
    res = list(itertools.product(range(k), repeat=n))
    if len(res) > lim:
        # Too many: those with at most two changes along the faces.
        res = [o for o in res if sum(a != b for a, b in zip(o, o[1:])) <= 2]
    return [list(o) for o in res]


def run_shard(shard, R):
    def go(c):
        R.step()
        if R.state(repr(sorted(c.items()))):
            R.case(c)
    if shard['kind'] == 'csv':
        for k, rows in ((12, 2), (2, 12), (13, 120)):
            for txt in (0, 1):
                go({'csv': [k, rows], 'perm': list(range(k))[::-1], 'txt': txt, 'mesh': 0, 'zones': [0],
                    'owner': [0]})
        for k in (0, 1, 2, 3):
            for rows in (1, 2, 3):
                for perm in itertools.permutations(range(k)):
                    for txt in (0, 1):
                        go({'csv': [k, rows], 'perm': list(perm), 'txt': txt, 'mesh': 0,
                            'zones': [0], 'owner': [0]})
        return
    n = len(grids.get(shard['mesh'])[1])
    if shard['kind'] == 'large':
        for files, nt in ((13, 1), (101, 1), (11, 2), (2, 11)):
            if n > 200 and nt > 1:
                continue
            k = files * nt
            for perm in (list(range(k)), list(range(k))[::-1], [i * 7 % k for i in range(k)] if k % 7 else
                         [i * 5 % k for i in range(k)]):
                for owner in ([i * files // n for i in range(n)], [i % files for i in range(n)]):
                    go({'mesh': shard['mesh'], 'zones': shard['zones'], 'owner': owner, 'perm': perm,
                        'files': files, 'times': nt, 'rev': k % 2})
        return
    if shard['kind'] == 'cli':
        for nt, files, stamp, again, k in itertools.product((1, 2), (1, 2, 3), (0, 1), (0, 1), (0, 2)):
            c = {'mesh': shard['mesh'], 'zones': [i % 2 for i in range(n)], 'files': files, 'times': nt,
                 'owner': [i % files for i in range(n)], 'stamp': stamp, 'again': again, 'cli': True}
            go(dict(c, csv=[k, 2]) if k else c)
        for by in (True, False):
            go({'mesh': shard['mesh'], 'zones': [0] * n, 'owner': [0] * n, 'fault': 1, 'cli': by})
        return
    if shard['kind'] == 'owners':
        for o in owners(n, shard['files'], shard['lim']):
            for nt in (1, 2):
                go({'mesh': shard['mesh'], 'zones': shard['zones'], 'owner': o,
                    'files': shard['files'], 'times': nt, 'rev': sum(o) % 2})
    elif shard['kind'] == 'gaps':
        cells = [(t, i) for t in range(2) for i in range(n)]
        if n <= 3:
            sets = [list(s) for r in range(1, len(cells) + 1) for s in itertools.combinations(cells, r)]
        else:
            sets = [list(s) for r in (1, 2) for s in itertools.combinations(cells, r)]
            sets += [[(t, i) for t, i in cells if t in ts and i not in keep] for ts in ((0,), (1,), (0, 1))
                     for keep in ([], [0], [n - 1])]
        for gaps in sets:
            for files in (1, 2):
                for vs in (0, 3):
                    for perm in itertools.permutations(range(2 * files)):
                        go({'mesh': shard['mesh'], 'zones': [i % 2 for i in range(n)], 'files': files,
                            'times': 2, 'owner': [i % files for i in range(n)], 'vars': vs,
                            'gaps': [list(c) for c in gaps], 'perm': list(perm)})
                        if n > 3 or vs:
                            break
    elif shard['kind'] == 'orders':
        col = [min(1, i) for i in range(n)]
        for files, nt in ((1, 1), (2, 1), (3, 1), (2, 2), (1, 3), (4, 1)):
            for perm in itertools.permutations(range(files * nt)):
                for rev in (0, 1):
                    for vs in range(3):
                        for stamp in (0, 1):
                            go({'mesh': shard['mesh'], 'zones': col, 'files': files, 'times': nt,
                                'owner': [i % files for i in range(n)], 'perm': list(perm),
                                'rev': rev, 'vars': vs, 'stamp': stamp})
    elif shard['kind'] == 'noise':
        for r in range(len(NOISE) + 1):
            for s in itertools.combinations(range(len(NOISE)), r):
                go({'mesh': shard['mesh'], 'zones': [0] * n, 'files': 2, 'times': 1,
                    'owner': [i % 2 for i in range(n)], 'noise': list(s), 'again': r % 2})


def value(t, i, j):
    """What the solver says for time t, face i, variable j: all different, some extreme."""
    v = (t + 1) * 1000.0 + i * 8.0 + j + 1.0 / 3.0
    if (t + i + j) % 7 == 3:
        v = -v * 1e-300
    if (t + i + j) % 5 == 4:
        v = v * 1e300
    return v


def run_case(case, R):
    import merge
    label, fs, pts = grids.get(case['mesh'])
    vs = VARSETS[case.get('vars', 0)]
    m = mesh.make(fs, case['zones'], pts, title='g', vars_=VARSETS[0] if case.get('gaps') else None)
    nt, files = case.get('times', 1), case.get('files', 1)
    times = TIMES[:nt]
    # Faces no result file says anything about: the original value stays (grid and results have
    # the same variables here).
    gaps = {tuple(c) for c in case.get('gaps', [])}
    orig = [dict(zip(m['vars'], row)) for rows in m['data'] for row in rows]
    require(not gaps or sorted(m['vars']) == sorted(vs), 'harness: variables')
    with env.scratch() as d:
        nm = 'in'
        stem = nm + ('_000000000777' if case.get('stamp') else '')
        gp = mesh.write_dat(m, os.path.join(d, stem + '.dat'))
        src, dst = os.path.join(d, 'src'), os.path.join(d, 'out', 'res')
        os.mkdir(src)
        order = [i for z in range(max(case['zones']) + 1)
                 for i, k in enumerate(case['zones']) if k == z]
        # Face i of the grid (global number) is the i-th of the file: zone after zone.
        n = len(order)
        written = []
        if case.get('txt', 1):
            for ti, t in enumerate(times):
                for k in range(files):
                    ids = [i for i in range(n) if case['owner'][i] == k and (ti, i) not in gaps]
                    if case.get('rev'):
                        ids.reverse()
                    f = '{0}_{1:05d}_{2}.txt'.format(nm, k, t)
                    with open(os.path.join(src, f), 'w') as out:
                        out.write('VARIABLES="GloId", '
                                  + ', '.join('"{0}"'.format(v) for v in vs) + '\n')
                        for i in ids:
                            out.write('{0} '.format(i)
                                      + ' '.join(repr(value(ti, i, j)) for j in range(len(vs)))
                                      + '\n')
                    written.append(f)
        nrows = 0
        csv = []
        if case.get('csv'):
            k, nrows = case['csv']
            for c in range(k):
                f = 'rank{0}.csv'.format(c)
                csv.append(f)
                with open(os.path.join(src, f), 'w') as out:
                    out.write(HEADER + '\n')
                    for r in range(nrows):
                        out.write(';'.join([repr(r * 0.5 + TINY)] + [repr(2 ** c * (10 * r + j + TINY))
                                                              for j in range(9)]) + '\n')
        names = [NOISE[i] for i in case.get('noise', [])]
        for f in names:
            with open(os.path.join(src, f), 'w') as out:
                out.write('no results\nhere\n')
        # The file system may list a directory in any order.
        listing = written + csv + names
        if 'perm' in case:
            base = csv if case.get('csv') else written
            rest = [f for f in listing if f not in base]
            listing = [base[i] for i in case['perm']] + rest
        require(sorted(listing) == sorted(os.listdir(src)), 'harness: listing')
        if case.get('again'):
            os.makedirs(dst)
            for t in TIMES[:2]:
                with open(os.path.join(dst, 'in_r_{0}.dat'.format(t)), 'w') as out:
                    out.write('old\n')
        if case.get('fault'):
            # A grid that is not there.
            os.rename(gp, gp + '_')
            try:
                if case['cli']:
                    r = cli.run('merge.py', [gp, src, dst])
                    require(r.failed, 'a missing grid is accepted', key='missing')
                else:
                    merge.merge(gp, src, dst)
                    require(False, 'a missing grid is accepted', key='missing')
            except Violation:
                raise
            except Exception:
                pass
            require(not os.path.exists(os.path.dirname(dst)), 'a result without a grid', key='missing')
            R.outcome('refused')
            return True
        saved = os.listdir
        os.listdir = lambda p='.': list(listing) if os.path.realpath(p) == os.path.realpath(src) \
            else saved(p)
        try:
            if case.get('cli'):
                r = cli.run('merge.py', [gp, src, dst])
                require(not r.failed, 'command line failed: {0} {1}', r.exc, r.code, key='failed')
            else:
                merge.merge(gp, src, dst)
        finally:
            os.listdir = saved
        want = {'{0}_r_{1}.dat'.format(nm, t) for t in times} if case.get('txt', 1) else set()
        got = {f for f in os.listdir(dst) if f.endswith('.dat')}
        if case.get('again'):
            got -= {'in_r_{0}.dat'.format(TIMES[1])} - want
        require(got == want, 'files {0} instead of {1}', sorted(got), sorted(want), key='files')
        require(open(gp).read() == mesh.dat_text(m), 'the grid file was changed', key='input')
        for ti, t in enumerate(times if case.get('txt', 1) else []):
            f = mesh.parse_dat(os.path.join(dst, '{0}_r_{1}.dat'.format(nm, t)))
            require(f['title'] == 'g', 'title {0!r}', f['title'], key='title')
            require([z['name'] for z in f['zones']] == [z['name'] for z in m['zones']],
                    'zones {0}', [z['name'] for z in f['zones']], key='zones')
            require(sorted(f['names'][3:]) == sorted(vs), 'variables {0} instead of {1}',
                    f['names'], vs, key='variables')
            i = 0
            for z, z0 in zip(f['zones'], m['zones']):
                require(len(z['faces']) == len(z0['faces']), '{0} faces', len(z['faces']),
                        key='faces')
                for k, t0 in enumerate(z0['faces']):
                    a = tuple(mesh.rnd(m['points'][v]) for v in t0)
                    b = tuple(mesh.rnd(z['points'][v]) for v in z['faces'][k])
                    require(a == b, 'face {0} is {1} instead of {2}', i, b, a, key='geometry')
                    for j, v in enumerate(vs):
                        if (ti, i) in gaps:
                            require(z['data'][v][k] == orig[i][v],
                                    'time {0} face {1}: {2} = {3!r} and not {4!r} as in the grid, though no '
                                    'result mentions the face', t, i, v, z['data'][v][k], orig[i][v],
                                    key='gap')
                            continue
                        require(z['data'][v][k] == value(ti, i, j),
                                'time {0} face {1}: {2} = {3!r}, the solver wrote {4!r}', t, i, v,
                                z['data'][v][k], value(ti, i, j), key='value')
                    i += 1
        out = os.path.join(d, 'out', nm + '.csv')
        require(os.path.exists(out) == bool(csv), 'summary file {0}',
                'is missing' if csv else 'without sources', key='csv-exists')
        if csv:
            ls = open(out).read().split('\n')
            require(ls[0] == HEADER and ls[-1] == '' and len(ls) == nrows + 2,
                    'summary: {0} lines, header {1!r}', len(ls), ls[0], key='csv-form')
            tot = float(2 ** len(csv) - 1)
            for r in range(nrows):
                x = [float(t) for t in ls[1 + r].split(';')]
                w = [r * 0.5 + TINY] + [tot * (10 * r + j + TINY) for j in range(9)]
                require(x == w, 'summary row {0}: {1} instead of {2}', r, x, w, key='csv-sum')
        R.outcome((len(want), len(csv), len(fs)))
    return True


def describe(tier):
    return {
        'rule': 'One case = one directory of result files merged by the real merge(); the written '
                'grids and the summary are read by independent parsers and compared value by value.',
        'bounds': '6 meshes (1..8 faces), zonings into <= 2 zones, all assignments of faces to 1..4 '
                  'result files (octahedron: those with at most 2 changes where there are too '
                  'many), 1..3 time stamps, all listing orders of up to 4 files, 3 sets of '
                  'variables, rows forward and backward, faces without a row '
                  '(all subsets over two times on up to 3 faces, pairs and runs on others), grid name with and without time stamp, '
                  'all subsets of 8 foreign files, old results in place; 0..3 summary files of '
                  '1..3 rows in all orders, 12..13 files and 12..120 rows in one; large grids (54..1080 faces, 13 '
                  'zones) with 11..101 result files and up to 11 time stamps; command lines; a missing grid.',
        'assumptions': ['The result files of a time stamp name a face at most once and have the same '
                        'variables (this is what the solver writes); where they leave faces out, the '
                        'variables are those of the grid.']}
