"""C11: split -> solver on every part -> merge gives what the solver gives on the whole surface."""
import itertools
import os

from mc import mesh, env, cry
from mc.core import require
from checks import grids

MOD = 1 << 20
STEPS = 4
TS = '000000000001'


def shards(tier):
    res = []
    for i, (label, fs, pts) in enumerate(grids.pool()):
        n = len(fs)
        if n <= (3 if tier == 'quick' else 4):
            cols = grids.colourings(n, 3)
        else:
            cols = [[0] * n, [int(j >= (n + 1) // 2) for j in range(n)], [j % 3 for j in range(n)]]
        for k in range(0, len(cols), 6):
            res.append({'mesh': i, 'cols': cols[k:k + 6], 'tier': tier})
    return [{'mesh': i, 'cols': [z], 'large': True} for i, z in grids.large()] + res


def run_shard(shard, R):
    for col in shard['cols']:
        n = len(col)
        names = ['zone{0}'.format(z) for z in range(max(col) + 1)]
        if shard.get('large'):
            for s, fx in (('n12', 0), ('h4', 0), ('n13', 1), ('n25', 11), ('h5', 10)):
                c = {'mesh': shard['mesh'], 'zones': col, 's': s, 'fixed': (names[1:] + names[:1])[:fx]}
                R.step()
                if R.state(repr(sorted(c.items()))):
                    R.case(c)
            continue
        subs = [list(c) for r in range(len(names) + 1) for c in itertools.combinations(names, r)]
        top = 4 if shard['tier'] == 'quick' else 8
        for s in ['n%d' % k for k in range(1, min(n, top) + 1)] + ['h1', 'h2', 'h3']:
            for fx in subs:
                if s[0] == 'n' and (len(fx) >= int(s[1:]) and fx):
                    continue
                c = {'mesh': shard['mesh'], 'zones': col, 's': s, 'fixed': fx}
                R.step()
                if R.state(repr(sorted(c.items()))):
                    R.case(c)


def update(u, nb, beta, border):
    """One step of the solver in a face: neighbours u in any order, count of border edges."""
    return (5 * u + sum(x * x + 3 * x for x in nb) + int(beta * 2) * border + 1) % MOD


def serial(m):
    fs, data = [], []
    for z, rows in zip(m['zones'], m['data']):
        for f, r in zip(z['faces'], rows):
            fs.append(f)
            data.append(dict(zip(m['vars'], r)))
    u = [int(x['T'] * 2) for x in data]
    by_edge = {}
    for i, f in enumerate(fs):
        for p in itertools.combinations(sorted(f), 2):
            by_edge.setdefault(p, []).append(i)
    nb = [[] for _ in fs]
    border = [0] * len(fs)
    for p, x in by_edge.items():
        if len(x) == 2:
            nb[x[0]].append(x[1])
            nb[x[1]].append(x[0])
        else:
            border[x[0]] += 1
    for _ in range(STEPS):
        u = [update(u[i], [u[j] for j in nb[i]], data[i]['Beta'], border[i])
             for i in range(len(fs))]
    return u


def parallel(files):
    """Ranks know nothing but their own file and what neighbours send along the listed borders."""
    us = [[int(t * 2) for t in r['data']['T']] for r in files]
    at = []
    for r in files:
        a = [[] for _ in range(r['edges'])]
        for i, es in enumerate(r['fe']):
            for e in es:
                a[e].append(i)
        at.append(a)
    for _ in range(STEPS):
        box = {}
        for i, r in enumerate(files):
            for j, es in r['borders'].items():
                box[(i, j)] = [us[i][at[i][e][0]] for e in es]
        new = []
        for i, r in enumerate(files):
            ghost = {}
            for j, es in r['borders'].items():
                got = box.get((j, i), [])
                require(len(got) == len(es), 'rank {0} sends {1} values to {2}, expected {3}', j,
                        len(got), i, len(es), key='message-length')
                ghost.update(zip(es, got))
            out = []
            for k, es in enumerate(r['fe']):
                nb, border = [], 0
                for e in es:
                    others = [f for f in at[i][e] if f != k]
                    if others:
                        nb.append(us[i][others[0]])
                    elif e in ghost:
                        nb.append(ghost[e])
                    else:
                        border += 1
                out.append(update(us[i][k], nb, r['data']['Beta'][k], border))
            new.append(out)
        us = new
    return us


def run_case(case, R):
    import split
    import merge
    label, fs, pts = grids.get(case['mesh'])
    m = mesh.make(fs, case['zones'], pts, title='g')
    with env.scratch() as d:
        gp = mesh.write_dat(m, os.path.join(d, 'in.dat'))
        cdir, dst = os.path.join(d, 'cry'), os.path.join(d, 'out', 'r')
        split.split(gp, cdir, None, case['s'], list(case['fixed']))
        fl = sorted(f for f in os.listdir(cdir) if f.endswith('.cry'))
        files = [cry.parse(os.path.join(cdir, f)) for f in fl]
        us = parallel(files)
        for f, r, u in zip(fl, files, us):
            name = f.replace('000000000000.cry', TS + '.txt')
            with open(os.path.join(cdir, name), 'w') as o:
                o.write('VARIABLES="GloId", "T", "Hw", "Hi"\n')
                for i, x in zip(r['ids'], u):
                    o.write('{0} {1} {2} {3}\n'.format(i, x, x + 0.25, 2 * x + 0.5))
        merge.merge(gp, cdir, dst)
        f = mesh.parse_dat(os.path.join(dst, 'in_r_{0}.dat'.format(TS)))
        want = serial(m)
        require([z['name'] for z in f['zones']] == [z['name'] for z in m['zones']], 'zones {0}',
                [z['name'] for z in f['zones']], key='zones')
        i = 0
        for z, z0 in zip(f['zones'], m['zones']):
            require(len(z['faces']) == len(z0['faces']), 'faces', key='faces')
            for k, t in enumerate(z0['faces']):
                a = tuple(mesh.rnd(m['points'][v]) for v in t)
                b = tuple(mesh.rnd(z['points'][v]) for v in z['faces'][k])
                require(a == b, 'face {0}: {1} instead of {2}', i, b, a, key='geometry')
                got = [z['data'][v][k] for v in ('T', 'Hw', 'Hi')]
                w = want[i]
                require(got == [w, w + 0.25, 2 * w + 0.5],
                        'face {0}: {1} parts give {2}, the whole surface gives {3}', i, len(files),
                        got, [w, w + 0.25, 2 * w + 0.5], key='value')
                i += 1
        R.outcome((len(files), len(fs), sum(len(r['borders']) for r in files)))
    return True


def describe(tier):
    return {
        'rule': 'One case = the whole chain on one surface and one way to split it.  The model of '
                'the solver sees nothing but the exported files and values received along the '
                'listed borders; its merged result must equal, bit by bit, an integer computation '
                'on the undivided surface.',
        'bounds': 'the mesh pool of C01 (<= 12 faces), zonings into <= 3 zones (all for <= 3 (4) '
                  'faces), strategies n1..n4 (n8), h1..h3, every set of fixed zones; 4 '
                  'large surfaces (54..1080 faces, 1 or 13 zones) in 12..32 parts; 4 time steps.',
        'assumptions': []}
