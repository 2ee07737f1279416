"""C10: splitting a grid file for the solver does what the request says, or refuses it."""
import itertools
import json
import os

from mc import mesh, decomp, env, cry, cli
from mc.core import require, Violation
from checks import grids, c04

RF = 'RecoveryFactor'


def picked(tier):
    P = grids.pool()
    by_n = {}
    for i, p in enumerate(P):
        by_n.setdefault(len(p[1]), []).append(i)
    lab = {p[0]: i for i, p in enumerate(P)}
    res = [by_n[1][0]] + by_n[2][:2] + by_n[3][:2] + \
        [lab[k] for k in ('rect21', 'tetra', 'stack', 'band3', 'octa', 'rect32')]
    if tier != 'quick':
        res += by_n[4][:4] + by_n[5][:4] + [lab['cube']]
    return sorted(set(res))


def shards(tier):
    res = []
    for mi in picked(tier):
        n = len(grids.get(mi)[1])
        cols = grids.colourings(n, 3) if n <= 3 else \
            [[0] * n, [j % 2 for j in range(n)], [min(j, 2) for j in range(n)],
             [int(j >= n // 2) for j in range(n)]]
        for c in cols:
            res.append({'mesh': mi, 'zones': c, 'tier': tier})
    return [{'mesh': i, 'zones': z, 'large': True} for i, z in grids.large()] + res


def run_shard(shard, R):
    n = len(shard['zones'])
    names = ['zone{0}'.format(z) for z in range(max(shard['zones']) + 1)]
    if shard.get('large'):
        for s, fx, out in (('n12', 0, 'cry'), ('n100', 0, 'dat'), ('h4', 0, 'both'), ('n13', 1, 'both'), ('n012', 1, 'cry'),
                           ('h5', 3, 'cry'), ('n13', 12, 'dat'), ('n13', 13, 'cry'), ('h0', 13, 'dat'), ('n10', 10, 'cry'),
                           ('n11', 10, 'cry')):
            if fx >= len(names) > 1 and s[0] == 'h' or s == 'n100' and len(shard['zones']) < 100:
                continue
            c = {'mesh': shard['mesh'], 'zones': shard['zones'], 's': s, 'fixed': (names[1:] + names[:1])[:fx][::-1],
                 'out': out, 'rf': [fx % 3, 0.75]}
            R.step()
            R.state(repr(sorted(c.items(), key=str)))
            R.case(c)
        return
    fixed = [list(c) for r in range(len(names) + 1) for c in itertools.combinations(names, r)]
    fixed += [['nozone'], [names[0], 'nozone'], ['zone'], ['one0'], [names[0], 'zone'], ['Zone0']]
    fixed += [[names[0], names[0]], names + names[::-1]]
    top = min(n + 1, 4 if shard['tier'] == 'quick' else 9)
    strategies = ['n%d' % k for k in range(0, top + 1)] + ['h0', 'h1', 'h2', 'h3', 'x2', 'n', 'h',
                                                           'n2x', '2', 'h-1', 'n-1', '']

    def go(c):
        R.step()
        if R.state(repr(sorted(c.items(), key=str))):
            R.case(c)
    base = {'mesh': shard['mesh'], 'zones': shard['zones']}
    for s in strategies:
        for fx in fixed:
            for out in ('cry', 'dat', 'both'):
                go(dict(base, s=s, fixed=fx, out=out, rf=[(n + len(s) + len(fx)) % 3, 0.75]))
    for rf in (0, 1, 2):
        for val in (None, 0.5, 0.0):
            for stamp in (0, 1):
                for exists in (0, 1):
                    go(dict(base, s='n2', fixed=[], out='cry', rf=[rf, val], stamp=stamp,
                            exists=exists))
    # Command line: strategy from the option, from the file or from nowhere.
    for s in (None, 'n2', 'h1', 'x', ''):
        for js in (None, {}, {'split_strategy': 'n3'}, {'split_strategy': 'n3', RF: 1},
                   {'split_strategy': 'h1', 'recovery_factor': 0.25},
                   {'split_strategy': 'n3', 'heating_system': {}},
                   {'split_strategy': 'n4', 'recovery_factor': 0.125,
                    'heating_system': {'elements': [{'zone': names[-1], 'q': 1}]}},
                   {'heating_system': {'elements': []}, 'recovery_factor': 0},
                   # Two heaters in one zone.
                   {'heating_system': {'elements': [{'zone': names[0], 'q': 0}, {'zone': names[0], 'q': 1}]},
                    'split_strategy': 'n2'},
                   {'heating_system': {'elements': [{'zone': z} for z in reversed(names)]},
                    'split_strategy': 'n5'}):
            for out in ('cry', 'dat'):
                go(dict(base, cli=True, opt=s, json=js, out=out, rf=[0, None]))
    for bad in ('missing', 'txt', 'nojson'):
        for out in ('cry', 'dat'):
            go(dict(base, bad=bad, out=out, s='n1', fixed=[], rf=[0, None],
                    cli=bad == 'nojson', opt=None, json=None))
            if bad == 'nojson':
                go(dict(base, bad=bad, out=out, s='n1', fixed=[], rf=[0, None], cli=True, opt='n1', json=None))
    go(dict(base, bad='noout', out='none', s='n1', fixed=[], rf=[0, None]))
    go(dict(base, bad='noout', out='none', s='h1', fixed=names[:1], rf=[0, None]))


def expected(strategy, fixed, names):
    """(kind of decomposition) or None if the request has to be refused."""
    # A zone that is named twice is fixed once.
    fixed = list(dict.fromkeys(fixed))
    if any(z not in names for z in fixed):
        return None
    if strategy[:1] not in ('n', 'h') or not strategy[1:].isdigit():
        return None
    k = int(strategy[1:])
    if strategy[0] == 'h':
        if k == 0 and not fixed:
            return ['mono']
        return ['hier', k + 1, fixed]
    if k == 1 and not fixed:
        return ['mono']
    if k == 0 or len(fixed) >= k:
        return None
    return ['farhat', k - len(fixed), fixed]


def run_case(case, R):
    import split
    label, fs, pts = grids.get(case['mesh'])
    n = len(fs)
    kind, value = case['rf']
    # 0: no recovery factors in the file, 1: values, 2: zeros (a value as well).
    vs = mesh.VARS + ([RF] if kind else [])
    m = mesh.make(fs, case['zones'], pts, title='g', vars_=vs)
    if kind == 2:
        for rows in m['data']:
            for r in rows:
                r[-1] = 0.0
    names = [z['name'] for z in m['zones']]
    bad = case.get('bad')
    with env.scratch() as d:
        stem = 'in' + ('_000000000042' if case.get('stamp') else '')
        ts = '000000000042' if case.get('stamp') else '000000000000'
        gp = mesh.write_dat(m, os.path.join(d, stem + ('.txt' if bad == 'txt' else '.dat')))
        text = open(gp).read()
        arg = os.path.join(d, 'no.dat') if bad == 'missing' else gp
        cdir = os.path.join(d, 'a', 'cry') if case['out'] != 'both' else d
        dat = os.path.join(d, 'res.dat')
        if case.get('exists'):
            os.makedirs(cdir)
        before = sorted(os.listdir(d))
        fixed, strategy = case.get('fixed', []), case.get('s')
        g = None
        failed = None
        if case.get('cli'):
            js = case['json']
            argv = [arg] + (['-c', cdir] if case['out'] == 'cry' else ['-o', dat])
            if bad == 'nojson':
                argv += ['-j', os.path.join(d, 'no.json')]
            elif js is not None:
                jp = os.path.join(d, 'in.json')
                with open(jp, 'w') as f:
                    json.dump(js, f)
                before = sorted(os.listdir(d))
                argv += ['-j', jp]
            if case['opt'] is not None:
                argv += ['-s', case['opt']]
            js = js or {}
            strategy = js.get('split_strategy', 'n1') if case['opt'] is None else case['opt']
            fixed = [e['zone'] for e in js.get('heating_system', {}).get('elements', [])]
            value = js.get('recovery_factor', 1.0)
            r = cli.run('split.py', argv)
            if r.failed:
                failed = r.exc or RuntimeError('exit code {0}'.format(r.code))
        else:
            kw = {} if value is None else {'recovery_factor': value}
            try:
                g = split.split(arg, cdir if case['out'] in ('cry', 'both') else None,
                                dat if case['out'] in ('dat', 'both') else None, strategy, list(fixed), **kw)
            except Exception as e:
                failed = e
            value = 1.0 if value is None else value
        op = expected(strategy, fixed, names)
        require(open(gp).read() == text, 'the input file was changed', key='input')
        if op is None or bad:
            require(failed is not None, 'strategy {0!r}, fixed {1} of zones {2}, {3}: not refused',
                    strategy, fixed, names, bad, key='not-refused')
            left = [f for f in os.listdir(d) if f not in before]
            require(not left, 'refused request left {0}', left, key='refused-output')
            R.outcome('refused')
            return True
        if failed is not None:
            raise failed
        # The output, read without the code under test where this is possible.
        lay0 = []
        i = 0
        for z in m['zones']:
            lay0.append((z['name'], list(range(i, i + len(z['faces'])))))
            i += len(z['faces'])
        if case['out'] == 'cry':
            nm = 'in'
            fl = sorted(f for f in os.listdir(cdir) if f.endswith('.cry'))
            files = [cry.parse(os.path.join(cdir, f)) for f in fl]
            require(fl == ['{0}_{1:05d}_{2}.cry'.format(nm, r, ts) for r in range(len(fl))],
                    'files {0}', fl, key='names')
            require(os.path.isfile(os.path.join(cdir, 'report.txt')), 'no report', key='report')
            cry.check_set(files)
            tri = {}
            for r in files:
                for i, t in zip(r['ids'], r['fn']):
                    tri[i] = (tuple(mesh.rnd(r['points'][v]) for v in t),
                              {v: x[r['ids'].index(i)] for v, x in r['data'].items()})
            sizes = [len(r['ids']) for r in files]
            out = [(None, sorted(r['ids'])) for r in files]
        else:
            f = mesh.parse_dat(dat)
            where = {}
            i = 0
            for z in m['zones']:
                for t in z['faces']:
                    where[frozenset(mesh.rnd(m['points'][v]) for v in t)] = i
                    i += 1
            tri, out = {}, []
            for z in f['zones']:
                ids = []
                for k, t in enumerate(z['faces']):
                    p = tuple(mesh.rnd(z['points'][v]) for v in t)
                    i = where[frozenset(p)]
                    require(i not in tri, 'face {0} twice', i, key='face-twice')
                    ids.append(i)
                    tri[i] = (p, {v: x[k] for v, x in z['data'].items()})
                out.append((z['name'], sorted(ids)))
            sizes = [len(x[1]) for x in out]
        require(sorted(tri) == list(range(n)), 'faces {0} of {1}', sorted(tri), n, key='partition')
        i = 0
        for z, rows in zip(m['zones'], m['data']):
            for t, row in zip(z['faces'], rows):
                p = tuple(mesh.rnd(m['points'][v]) for v in t)
                require(mesh.rot_min(tri[i][0]) == mesh.rot_min(p), 'face {0} is {1}', i,
                        tri[i][0], key='geometry')
                want = dict(zip(vs, row))
                if not kind:
                    want[RF] = float(value)
                for v, x in want.items():
                    if v in tri[i][1]:
                        require(tri[i][1][v] == x, 'face {0}: {1} = {2}, expected {3}', i, v,
                                tri[i][1][v], x, key='data-' + (RF if v == RF else 'other'))
                    else:
                        require(v == 'GloId' and case['out'] == 'cry', 'face {0}: no {1}', i, v,
                                key='data-lost')
                i += 1
        # What was asked for.
        k = int(strategy[1:])
        fx = [x[1] for x in lay0 if x[0] in fixed]
        for ids in fx:
            require(ids in [x[1] for x in out], 'fixed zone {0} is not among {1}', ids, out,
                    key='fixed')
        own = list(x[1] for x in out)
        for ids in fx:
            own.remove(ids)
        sz = [len(x) for x in own]
        if strategy[0] == 'n':
            require(len(out) == k, '{0} zones instead of {1}', len(out), k, key='count')
            require(max(sz) - min(sz) <= 1, 'sizes {0}', sz, key='balance')
        else:
            require(len(own) <= 2 ** k, '{0} new zones for {1}', len(own), strategy, key='count')
        if case['out'] != 'cry':
            nms = [x[0] for x in out]
            require(all(z in nms for z in fixed), 'zones {0}, fixed {1}', nms, fixed,
                    key='fixed-names')
        if g is not None:
            decomp.check(g, op, lay0)
            mesh.check_valid(g)
            require([(ids if case['out'] == 'cry' else (nm, ids)) for nm, ids in decomp.layout(g)]
                    == [(ids if case['out'] == 'cry' else (nm, ids)) for nm, ids in out],
                    'returned grid has zones {0}, written are {1}', decomp.layout(g), out,
                    key='returned')
            if case['out'] == 'cry':
                c04.against(g, files)
        R.outcome((op[0], len(out), len(fixed), case['out']))
    return True


def describe(tier):
    return {
        'rule': 'One case = one call of split() or one command line; the written files are read by '
                'independent parsers and compared with the input and the request, refused requests '
                'must leave nothing behind.',
        'bounds': '11 (20) meshes of 1..12 faces, zonings into <= 3 zones; strategies n0..n4 (n9), '
                  'h0..h3 and eight malformed ones; every set of fixed zones, zones named twice, unknown zones and parts of names; output '
                  'as .cry, .dat, both; 4 large grids (54..1080 faces, 1 or 13 zones) with 11 requests of two digits; recovery factor absent, present, zero, given or default; '
                  'command lines with 4 strategies x 9 parameter files; missing and misnamed files, no output asked for.',
        'assumptions': []}
