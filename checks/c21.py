"""C21: water that leaves faces lands on the faces which the drops hit."""
import contextlib
import io
import itertools
import json
import os

from mc import mesh, env, flight, cli
from mc.core import require

VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ',
        'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
STALL = VARS[10:]

# Walls that look at each other, a step, a closed box.
MESHES = {
    'walls': ([[0, 1, 2], [1, 3, 2], [4, 6, 5], [5, 6, 7]],
              [[0, 0, 0], [0, 2, 0], [0, 0, 2], [0, 2, 2], [1, 0, 0], [1, 2, 0], [1, 0, 2], [1, 2, 2]]),
    'step': ([[0, 1, 2], [0, 2, 3], [3, 2, 4], [3, 4, 5]],
             [[0, 0, 0], [2, 0, 0], [2, 2, 0.1], [0, 2, 0], [2, 2, 2], [0, 2, 2]]),
    'far': ([[0, 1, 2], [3, 5, 4], [6, 8, 7]],
            [[0, 0, 0], [0, 2, 0], [0, 0, 2], [1.5, 0, 0], [1.5, 2.5, 0], [1.5, 0, 2.5],
             [1.0, 0, 1.0], [1.0, 1.4, 0.9], [1.0, 0.1, 2.4]]),
}
# Two walls of 50 faces each.
_f, _p = mesh.rect(5, 5)
MESHES['large'] = (_f + [[a + 36, c + 36, b + 36] for a, b, c in _f],
                   [[0.02 * x * y, 0.47 * x, 0.49 * y + 0.03 * x] for x, y, z in _p] +
                   [[1.4 - 0.03 * x, 0.45 * x + 0.1, 0.51 * y] for x, y, z in _p])
AIR = {
    'still': lambda p: (0.0, 0.0, 0.0),
    'wind': lambda p: (12.0, 1.0, 0.5),
    'shear': lambda p: (6.0 * p[1] - 3.0, 0.0, 1.0),
}
SPEEDS = [(9.0, 0.25, 0.125), (-7.0, 1.0, 0.5), (1.0, 8.0, 0.5), (0.5, 0.25, -6.0)]
DIAM = [1e-3, 1.25e-4, 5e-3, 5e-4]
OPTS = [('-d', '--distance'), ('-t', '--time_delta'), ('-s', '--stall_threshold'), ('-m', '--max_fly_steps')]
BOX = list(itertools.product((-1.0, 1.0, 3.5), (-1.0, 1.5, 3.5), (-1.0, 3.0)))


def shards(tier):
    deep = tier != 'quick'
    small = [m for m in MESHES if m != 'large']
    res = [{'mesh': 'large', 'air': a, 'zones': z, 'set': k, 'deep': deep} for a in AIR for z in (1, 13)
           for k in range(6)]
    return res + [{'mesh': m, 'air': a, 'zones': z, 'deep': deep} for m in small for a in AIR for z in (1, 2)] + \
           [{'mesh': m, 'air': a, 'zones': 2, 'cli': True, 'deep': deep} for m in small for a in ('still', 'wind')] + \
           [{'mesh': 'walls', 'air': 'wind', 'zones': 1, 'form': f, 'deep': deep} for f in range(len(FORMS))]


# Layouts of the air file: order of zones and other lines.
FORMS = [['brick'], ['title', 'brick'], ['tri', 'brick'], ['title', 'tri', 'tri', 'brick', 'tri'],
         ['brick', 'brick2'], ['brick', 'tri', 'brick2', 'tri'], ['junk', 'brick']]


def run_shard(s, R):
    fs, pts = MESHES[s['mesh']]
    n = len(fs)
    if 'form' in s:
        go(R, {'mesh': s['mesh'], 'air': s['air'], 'zones': 1, 'wet': [3.0] * n, 'speed': [0, 0, 1, 1],
               'thr': 1e-6, 'form': s['form'], 'opts': [0.01, 0.01, 50]})
        return
    if 'set' in s:
        k = s['set']
        go(R, {'mesh': s['mesh'], 'air': s['air'], 'zones': s['zones'],
               'wet': [((0.5, 3.0, 0.125, 7.0), (0.0, 2.0, 0.0), (1.0,))[k % 3][i % (4, 3, 1)[k % 3]] for i in range(n)],
               'speed': [(i * (k + 1) // 3) % 3 if i % 2 else i * 7 % 4 for i in range(n)],
               'thr': 1e-6, 'form': 0, 'opts': [0.01, 0.02, 40]})
        return
    if 'cli' in s:
        # The command line: all sets of options, long and short names, defaults for the rest.
        for given in itertools.product((0, 1, 2), repeat=4):
            for wet in ([2e-6, 5e-7, 1e-3, 4.0][:n], [3.0] * n):
                go(R, {'mesh': s['mesh'], 'air': s['air'], 'zones': 2, 'wet': wet, 'speed': [0, 2, 1, 3][:n],
                       'form': 0, 'cli': given,
                       'opts': [0.01 if given[0] else 1e-4, 0.02 if given[1] else 1e-5, 7 if given[3] else 200],
                       'thr': 1e-4 if given[2] else 1e-6})
        return
    # Small and large surfaces, fields with zeros and negative values.
    for wet in ([3.0] * n, [0.5 * (i + 1) for i in range(n)], [3.0 * (i % 2) for i in range(n)]):
        for sp in ([(i * a + b) % len(SPEEDS) for i in range(n)] for a in range(4) for b in range(4)):
            for unit in (1.0 / 1024, 0.125, 32.0):
                go(R, {'mesh': s['mesh'], 'air': s['air'], 'zones': s['zones'], 'wet': wet, 'speed': sp,
                       'thr': 1e-6, 'form': 0, 'opts': [0.01 * unit, 0.01 * unit, 50], 'unit': unit, 'zeros': 1})
    wets = list(itertools.product((0.0, 3.0), repeat=n))
    wets += [tuple(0.5 * (i + 1) for i in range(n)), tuple(2.0 - 0.25 * i for i in range(n))]
    # Below, on and just above the thresholds; nothing flies for negative water.
    wets += [tuple((-3.0, 2.0)[i % 2] for i in range(n)), tuple((-0.25, -7.0, 1.0)[i % 3] for i in range(n)),
             tuple((0.5, 1.5, 0.75)[i % 3] for i in range(n)), tuple((1e-6, 2e-6, -1e-6)[i % 3] for i in range(n)),
             (-1.0,) * n]
    sps = list(itertools.product(range(len(SPEEDS)), repeat=n)) if s['deep'] else \
        [tuple((i * a + b) % len(SPEEDS) for i in range(n)) for a in range(4) for b in range(4)]
    for wet in wets:
        for sp in sps:
            for thr in (1e-6, 0.5, 1.5, -1.0):
                if thr != 1e-6 and (all(w in (0.0, 3.0) for w in wet) or sp[0] % 2):
                    continue
                for o in ([0.01, 0.01, 50], [0.3, 0.05, 6]) if not s['deep'] else \
                        ([0.01, 0.01, 50], [0.3, 0.05, 6], [1e-4, 0.4, 200]):
                    go(R, {'mesh': s['mesh'], 'air': s['air'], 'zones': s['zones'], 'wet': wet, 'speed': sp,
                           'thr': thr, 'form': 0, 'opts': o})


def go(R, c):
    R.step()
    R.state(json.dumps(c))
    R.case(c)


def air_file(field, form, path):
    out = []
    half = len(field) // 2
    for part in FORMS[form]:
        if part == 'title':
            out += ['TITLE="air"', 'VARIABLES="X", "Y", "Z", "P", "T", "U", "V", "W", "R"']
        elif part == 'junk':
            out += ['# made by hand']
        elif part == 'tri':
            out += ['ZONE F=FETRIANGLE N s NODES 2 , ELEMENTS 1'] + \
                   ['5 5 5 0 0 77 77 77 1', '6 5 5 0 0 77 77 77 1', '1 2 2']
        else:
            both = 'brick2' in FORMS[form]
            rows = field[half:] if part == 'brick2' else field[:half] if both else field
            out.append('ZONE F=FEBRICK N s t NODES {0} , ELEMENTS {1}'.format(len(rows), (2, len(rows) + 7)[form % 2]))
            for p, v in rows:
                out.append(' '.join(repr(x) for x in list(p) + [101.0, 55.0] + list(v) + [9.0]))
            out += ['1 2 3 4 5 6 7 8'] * (2, len(rows) + 7)[form % 2]
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')


def run_case(c, R):
    import drops
    fs, pts = MESHES[c['mesh']]
    n = len(fs)
    unit = c.get('unit', 1.0)
    pts = [[x * unit for x in p] for p in pts]
    field = [(tuple(x * unit for x in p), AIR[c['air']](p)) for p in BOX]
    m = mesh.make(fs, [i % c['zones'] for i in range(n)], pts, vars_=VARS, title='g')
    # Faces come zone by zone.
    order = [i for z in range(c['zones']) for i in range(n) if i % c['zones'] == z]
    rows = [r for z in m['data'] for r in z]
    for r, i in zip(rows, order):
        for j in range(10 if c.get('zeros') else 0):
            if (i + j) % 3 == 0:
                r[j] = (0.0, -2.5)[(i + j) // 3 % 2]
        r[10] = c['wet'][i]
        r[11] = DIAM[i % 4]
        r[12:15] = SPEEDS[c['speed'][i]]
    tris = [tuple(tuple(map(float, pts[v])) for v in fs[i]) for i in order]
    opts = c['opts']
    add, flights = {}, {}
    try:
        for k, i in enumerate(order):
            if not c['wet'][i] > c['thr']:
                continue
            a, b, cc = tris[k]
            nn = flight.cross(flight.sub(b, a), flight.sub(cc, a))
            mid = flight.mul(flight.add(a, flight.add(b, cc)), 1 / 3)
            start = flight.add(mid, flight.mul(nn, opts[0] / flight.norm(nn)))
            flights[k] = flight.fly(field, tris, start, SPEEDS[c['speed'][i]], DIAM[i % 4], opts[1], opts[2])
            if flights[k][0] == 'C':
                add.setdefault(flights[k][1], []).append(c['wet'][i])
    except flight.Unclear:
        R.count('depends on rounding')
        return True
    with env.scratch() as d:
        src, air, out = (os.path.join(d, x) for x in ('s.dat', 'air.dat', 'o.dat'))
        mesh.write_dat(m, src)
        air_file(field, c['form'], air)
        for bad in (src + 'x', air):
            if not c['form'] and not any(c['wet']):
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        drops.drops(src + 'x' if bad != air else src, air + 'x' if bad == air else air, out,
                                    *opts[:2], c['thr'], opts[2])
                except Exception:
                    pass
                else:
                    require(False, 'missing file is accepted', key='missing')
                require(not os.path.exists(out), 'result without a source', key='missing')
        if 'cli' in c:
            vals = dict(zip(OPTS, (opts[0], opts[1], c['thr'], opts[2])))
            args = [x for o, given in zip(OPTS, c['cli']) if given
                    for x in (o[given - 1], repr(vals[o]))]
            r = cli.run('drops.py', [src, air, out] + args)
            require(not r.failed, 'command line failed: {0} {1}', r.exc, r.code, key='failed')
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                drops.drops(src, air, out, opts[0], opts[1], c['thr'], opts[2])
        res = mesh.parse_dat(out)
        check_grid(m, res, rows, tris, add)
        check_ways(out + '.tr.dat', flights)
    R.outcome((len(flights), len(add), max([len(x) for x in add.values()] + [0])))
    return True


def check_grid(m, res, rows, tris, add):
    names = [v for v in VARS if v not in STALL]
    require(sorted(res['vars']) == sorted(names), 'fields of the result: {0}', res['vars'],
            key='fields')
    got = [r for z in res['zones'] for r in rows_of(z, names)]
    require(len(got) == len(rows), 'faces of the result', key='faces')
    k = 0
    for z in res['zones']:
        for j in range(len(z['faces'])):
            require(mesh.rnd(mesh.tri_of(z, j)[0]) == mesh.rnd(tris[k][0]) and
                    {mesh.rnd(p) for p in mesh.tri_of(z, j)} == {mesh.rnd(p) for p in tris[k]},
                    'face {0} is another one', k, key='faces')
            k += 1
    for k, (r, g) in enumerate(zip(rows, got)):
        for j, v in enumerate(names):
            want = r[VARS.index(v)]
            if v in ('T', 'Hw', 'Hi'):
                want = 0.0
            elif v == 'MImp2' and k in add:
                a, b, c = tris[k]
                want = sum(add[k]) / (flight.norm(flight.cross(flight.sub(b, a), flight.sub(c, a))) / 2)
            require(abs(g[j] - want) <= 1e-9 * (1 + abs(want)), '{0} of face {1} is {2} instead of {3} '
                    '(water that lands: {4})', v, k, g[j], want, add, key='value-' + v)


def rows_of(z, names):
    """Rows of face values of a parsed zone."""
    return [[z['data'][v][k] for v in names] for k in range(len(z['faces']))]


def check_ways(path, flights):
    with open(path) as f:
        lines = f.read().split('\n')
    zones = [i for i, x in enumerate(lines) if x.startswith('ZONE ')]
    require(len(zones) == len(flights), '{0} trajectories instead of {1}', len(zones), len(flights),
            key='trajectories')
    head = [x for x in lines[:zones[0] if zones else None] if x.startswith('VARIABLES')]
    require(len(head) == 1 and head[0].replace('"', '').replace(' ', '').split('=')[1] == 'X,Y,Z',
            'variables of trajectories {0}', head, key='trajectories')
    for at, k in zip(zones, sorted(flights)):
        pts = flights[k][2]
        require('DATAPACKING=BLOCK' in lines[at + 3:at + 6], 'packing of trajectory {0}', k, key='trajectories')
        require(lines[at] == 'ZONE T="Trajectory-{0}"'.format(k), 'trajectory {0}', lines[at],
                key='trajectories')
        require(lines[at + 1] == 'NODES={0}'.format(len(pts)) and
                lines[at + 2] == 'ELEMENTS={0}'.format(len(pts) - 1), 'size of trajectory {0}: {1}', k,
                lines[at + 1:at + 3], key='trajectories')
        for i in range(3):
            xs = [float(x) for x in lines[at + 6 + i].split()]
            require(len(xs) == len(pts) and all(abs(x - p[i]) <= 1e-9 * (1 + abs(x))
                                                for x, p in zip(xs, pts)),
                    'coordinates of trajectory {0}', k, key='trajectories')
        for i in range(len(pts) - 1):
            ab = [int(x) for x in lines[at + 9 + i].split()]
            require(ab[0] == i + 1 and set(ab[1:]) == {i + 2}, 'links of trajectory {0}', k,
                    key='trajectories')


def describe(tier):
    return {
        'rule': 'One case = one run of drops on files; the stored grid and trajectories are parsed and '
                'compared with a model of all flights: water per face, all other fields.',
        'bounds': '3 surfaces in 1 or 2 zones, one of 100 faces in 1 or 13 zones, 3 air fields in 7 layouts of the file, all sets of wet '
                  'faces and seven with different amounts (also zero, negative, equal to the threshold), 16 (thorough: all) choices of velocities, 4 '
                  'thresholds (one below zero), units of length 1/1024, 1/8 and 32, 2 (3) sets of step options; command lines with all sets of options.',
        'assumptions': ['Flights that depend on rounding are counted, not compared.']}
