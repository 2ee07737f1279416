"""C23: Ansys results become a grid with means of nodal data, heat transfer and recovery factor."""
import itertools
import json
import os

from mc import mesh, env, cli
from mc.core import require

# Cells of a zone as corners of a quadrilateral; equal corners make a triangle.
LAT = [(x, y) for y in range(3) for x in range(3)]
PATTERNS = {'quad': (0, 1, 4, 3), 'q2': (1, 2, 5, 4), 'q3': (3, 4, 7, 6), 'rot': (8, 7, 4, 5)}
TRI = (0, 1, 3)
DEGENERATE = [(a, b) for a, b in itertools.combinations(range(4), 2)]

# Orders of the variables in the three files: columns besides the wanted ones are to be dropped.
FENSAP = [
    ['X', 'Y', 'Z', 'Static temperature (K)', 'SF1-shear stress (Pa)', 'SF2-shear stress (Pa)',
     'SF3-shear stress (Pa)', 'Classical heat flux (W/m^2)'],
    ['X', 'Y', 'Z', 'Density (kg/m^3)', 'Pressure (N/m^2)', 'Static temperature (K)', 'V1-velocity (m/s)',
     'SF1-shear stress (Pa)', 'SF2-shear stress (Pa)', 'SF3-shear stress (Pa)', 'Gresho heat flux (W/m^2)',
     'Static pressure', 'Classical heat flux (W/m^2)', 'Mach number'],
    ['X', 'Y', 'Z', 'Total temperature (K)', 'Static enthalpy', 'Static temperature (K)', 'SF-total (Pa)',
     'SF1-shear stress (Pa)', 'SF2-shear stress (Pa)', 'SF3-shear stress (Pa)', 'Classical shear', 'Total heat flux',
     'Classical heat flux (W/m^2)', 'Classical htc'],
    ['Id', 'X', 'Y', 'Z', 'Static temperature', 'SF1', 'Zx', 'SF2', 'SF3', 'Xi', 'Classical heat flux'],
]
DROP = [
    ['X', 'Y', 'Z', 'Collection efficiency-Droplet'],
    ['X', 'Y', 'Z', 'Droplet LWC (kg/m^3)', 'Collection efficiency-Droplet', 'Water density'],
    ['X', 'Y', 'Z', 'Collection efficiency-Crystal', 'Collection efficiency-Droplet', 'Collection', 'Droplet flux'],
]
ADIA = [
    ['X', 'Y', 'Z', 'Static temperature (K)'],
    ['X', 'Y', 'Z', 'Density (kg/m^3)', 'Static temperature (K)', 'Mach number'],
    ['X', 'Y', 'Z', 'Static pressure (Pa)', 'Total temperature (K)', 'Static temperature (K)', 'Adiabatic'],
]
SEPS = ['","', '", "']
HEADS = ['ZONE T="{0}", N={1}, E={2}, F=FEPOINT, ET=QUADRILATERAL',
         'ZONE T="{0}", N=   {1}, E=   {2}, ZONETYPE=FEQUADRILATERAL, DATAPACKING=POINT',
         'ZONE T="{0}" N={1} E={2} F=FEPOINT ET=QUADRILATERAL']
ZONES = ['wall', 'wall_2', 'wing 10', 'tail']
# Ways to write a number and to separate numbers.
NUMS = [(repr, ' ', ''), (lambda x: '{0:.12E}'.format(x), ' ', ' '), (lambda x: '{0:+.15e}'.format(x), '   ', '  '),
        (lambda x: '{0:24.17G}'.format(x), '\t', '\t'), (lambda x: '%g' % x if float('%g' % x) == x else repr(x), ' ', '')]
AIRS = [(263.15, 50.0, 1004.0), (250.0, 200.0, 1000.0), (300.0, 0.5, 4.0), (275.0, 3100.0, 0.7)]


def shards(tier):
    deep = tier != 'quick'
    res = [{'kind': 'zones', 'n': n, 'i': i, 'deep': deep} for n in (1, 2, 3, 4) for i in range(2)]
    res += [{'kind': 'cells', 'a': p, 'n': n, 'deep': deep} for p in PATTERNS for n in ('reversed', 'origin', None)]
    res += [{'kind': 'tri', 'd': k, 'deep': deep} for k in range(len(DEGENERATE))]
    res += [{'kind': 'forms', 'f': f, 'deep': deep} for f in range(len(FENSAP))]
    res += [{'kind': 'air', 'a': a, 'deep': deep} for a in range(len(AIRS))]
    res += [{'kind': 'many', 'k': k, 'size': z} for k in range(4) for z in ([3, 3], [12, 10])]
    return res + [{'kind': 'fault', 'k': k} for k in range(5)]


BASE = {'zones': [['wall', ['quad', 'q2']]], 'take': ['wall'], 'normals': 'reversed', 'form': [0, 0, 0, 0, 0],
        'air': 0, 'salt': 0, 'dir': 0, 'odd': '', 'at': [['Z', 4]], 'unit': 1.0, 'num': 0, 'zero': ''}


def run_shard(s, R):
    k = s['kind']
    if k == 'zones':
        n = s['n']
        cells = [['quad'], ['q2', 'q3'], [['t', 0, 1]], ['rot', 'quad']]
        orders = itertools.permutations(range(4), n)
        for order in orders:
            zs = [[ZONES[z], cells[(z + s['i']) % 4]] for z in order]
            for m in range(1, n + 1):
                for take in itertools.permutations(order, m):
                    if not s['deep'] and n > 2 and take != tuple(sorted(take)):
                        continue
                    go(R, zones=zs, take=[ZONES[z] for z in take], salt=s['i'])
    elif k == 'cells':
        opts = list(PATTERNS) + [['t', a, b] for a, b in DEGENERATE]
        for rest in itertools.product(opts, repeat=1 if not s['deep'] else 2):
            if any(isinstance(x, list) for x in rest) and 'quad' in [s['a']] + list(rest):
                continue
            if sum(isinstance(x, list) for x in rest) > 1 or s['a'] in rest or len({str(x) for x in rest}) < len(rest):
                continue
            for salt in (0, 1):
                go(R, zones=[['wall', [s['a']] + list(rest)]], normals=s['n'], salt=salt)
    elif k == 'tri':
        a, b = DEGENERATE[s['d']]
        for n in ('reversed', 'origin', None):
            for rot in range(3):
                for salt in (0, 1, 2):
                    go(R, zones=[['wall', [['t', a, b, rot]]]], normals=n, salt=salt)
    elif k == 'forms':
        for d, a, sep, head in itertools.product(range(len(DROP)), range(len(ADIA)), range(2), range(len(HEADS))):
            for two in (0, 1):
                go(R, zones=[['wall', ['quad']], ['tail', ['q2', 'q3']]], take=['wall', 'tail'][two:],
                   form=[s['f'], d, a, sep, head], dir=two)
    elif k == 'air':
        for salt in range(6):
            for n in ('reversed', 'origin'):
                go(R, air=s['a'], salt=salt, normals=n)
        for unit in (1e-6, 1e-3, 1e4):
            go(R, air=s['a'], unit=unit)
            go(R, air=s['a'], unit=unit, zones=[['wall', ['q2', ['t', 0, 1]]], ['tail', ['q2', 'q3']]],
               take=['tail', 'wall'], salt=1)
        for odd in ('1.5-101', '-2.25-105', 'NaNQ'):
            go(R, air=s['a'], odd=odd)
            for at in ([['X', 4]], [['Y', 4]], [['Z', 0]], [['X', 4], ['Z', 5]], [['Y', 4], ['X', 0], ['Z', 5]]):
                go(R, air=s['a'], odd=odd, at=at)
        for num in range(1, len(NUMS)):
            for two in (0, 1):
                go(R, air=s['a'], num=num, zones=[['wall', ['q2', ['t', 0, 1]]], ['tail', ['q2', 'q3']]],
                   take=['tail', 'wall'][two:], salt=two)
        for zero in ('Q', 'Tad', 'SF1', 'SF2', 'SF3', 'Beta', 'Q Tad SF1 SF2 SF3 Beta'):
            for some in (0, 1):
                go(R, air=s['a'], zero=zero + ('' if some else ' every'))
    elif k == 'many':
        # More than ten zones and 99 nodes.
        names = ['w{0}'.format(i) for i in range(13)]
        k = s['k']
        zs = [names[(5 * i + k) % 13] for i in range(13)]
        for take in (zs, sorted(zs), zs[::-2], zs[10:]):
            go(R, zones=[[n, 'grid' if s['size'][0] > 3 else ['quad', 'q2']] for n in zs], take=take, size=s['size'],
               salt=k % 2, normals=[None, 'origin'][k // 2], form=[k % 3, k % 2, k // 2, 0, k % 3])
    else:
        go(R, fault=s['k'])


def go(R, **kw):
    c = json.loads(json.dumps(dict(BASE, **kw)))
    R.step()
    R.state(json.dumps(c))
    R.case(c)


def corners(cell):
    """Local node indices of the four corners."""
    if isinstance(cell, str):
        return list(PATTERNS[cell])
    a, b = cell[1], cell[2]
    rot = cell[3] if len(cell) > 3 else 0
    tri = TRI[rot:] + TRI[:rot]
    q, it = [None] * 4, iter(tri)
    for k in range(4):
        q[k] = q[a] if k == b else next(it)
    return q


def zone_model(c, zi):
    """Nodes (coordinates and values) and cells of zone number zi of the files."""
    name, cells = c['zones'][zi]
    nodes = []
    nx, ny = c.get('size', (3, 3))
    for k, (x, y) in enumerate((x, y) for y in range(ny) for x in range(nx)):
        s = c['salt']
        t = 270.0 + 0.5 * k + zi + 0.25 * s
        u = c['unit']
        nodes.append({'X': (x + (nx - 1.0) * zi) * u, 'Y': float(y) * u, 'Z': (0.25 * x * y - 0.5 * zi * (s % 2)) * u,
                      'Ts': t, 'SF1': (0.5 * k - 1.0 + s) * u,
                      'SF2': (0.125 * k * k - zi) * u, 'SF3': (-0.25 * k + 0.5 * s) * u,
                      'Q': (-1) ** (k + s) * (100.0 + 10 * k + 50 * zi) * u,
                      'Beta': (0.0625 * k + 0.03125 * zi) * u * (-1 if (k + s) % 5 == 4 else 1),
                      'Tad': t - 3.0 - 0.125 * k + (9.0 if (k + s) % 4 == 3 else 0.0)})
        zero = c['zero'].split()
        if k % 3 == 0 or 'every' in zero:
            for v in set(zero) - {'every'}:
                nodes[-1][v] = AIRS[c['air']][0] if v == 'Tad' else 0.0
            if 'Tad' in zero and nodes[-1]['Ts'] == nodes[-1]['Tad']:
                nodes[-1]['Ts'] += 0.5
    if cells == 'grid':
        # Every seventh cell is a triangle.
        return name, nodes, [[v, v + 1, v + nx + (1 if k % 7 else 0), v + nx] for k, v in
                             enumerate(nx * j + i for j in range(ny - 1) for i in range(nx - 1))]
    return name, nodes, [corners(x) for x in cells]


def column(name, node, k):
    for short, key in (('Static temperature', None), ('SF1', 'SF1'), ('SF2', 'SF2'), ('SF3', 'SF3'),
                       ('Classical heat flux', 'Q'), ('Collection efficiency-Droplet', 'Beta')):
        if name.startswith(short):
            return node[key] if key else None
    return node[name] if name in ('X', 'Y', 'Z') else 7000.0 + k


def write(d, c, base):
    sets = (('fensap', FENSAP[c['form'][0]], 'Ts'), ('drop3d', DROP[c['form'][1]], 'Ts'),
            ('adiabatic', ADIA[c['form'][2]], 'Tad'))
    num, sep, first = NUMS[c['num']]
    for kind, names, tkey in sets:
        out = ['TITLE="Grid and Solution"', 'VARIABLES="' + SEPS[c['form'][3]].join(names) + '"']
        for zi in range(len(c['zones'])):
            zname, nodes, cells = zone_model(c, zi)
            out.append(HEADS[c['form'][4]].format(zname, len(nodes), len(cells)))
            for k, n in enumerate(nodes):
                row = []
                for v in names:
                    x = column(v, n, k)
                    row.append(num(float(n[tkey] if x is None else x)))
                    if c['odd'] and [v, k] in c['at']:
                        row[-1] = c['odd']
                out.append(first + sep.join(row))
            out += [first + sep.join(str(v + 1) for v in q) for q in cells]
        with open(os.path.join(d, '{0}.{1}.dat'.format(base, kind)), 'w') as f:
            f.write('\n'.join(out) + '\n')


def run_case(c, R):
    with env.scratch() as d:
        write(d, c, 'case')
        src = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
        air = AIRS[c['air']]
        if 'fault' in c:
            if c['fault'] < 3:
                os.remove(os.path.join(d, ['case.fensap.dat', 'case.drop3d.dat', 'case.adiabatic.dat'][c['fault']]))
            elif c['fault'] == 3:
                c = dict(c, take=['nothing'])
        args = [os.path.join(d, 'case') if not c['dir'] else 'case', ','.join(c['take']), '-t', air[0], '-v', air[1],
                '-cp', air[2]] + (['-n', c['normals']] if c['normals'] else [])
        if c.get('fault') == 4:
            args[0] += 'x'
        r = cli.run('convert/ansys_to_crystal.py', args, cwd=d if c['dir'] else None)
        if 'fault' in c:
            require(r.failed, 'fault {0} is accepted', c['fault'], key='accepted')
            R.outcome('refused')
            return True
        require(not r.failed, 'failed: {0!r} {1}', r.exc, r.code, key='failed')
        for f, t in src.items():
            require(open(os.path.join(d, f)).read() == t, 'input {0} changed', f, key='input')
        res = mesh.parse_dat(os.path.join(d, 'case.dat'))
        judge(c, res, air)
        R.outcome(tuple(len(z['faces']) for z in res['zones']))
    return True


def judge(c, res, air):
    t_inf, vel, cp = air
    want = [zone_model(c, zi) for zi in range(len(c['zones'])) if c['zones'][zi][0] in c['take']]
    require([z['name'] for z in res['zones']] == [n for n, _, _ in want], 'zones {0}, expected {1}',
            [z['name'] for z in res['zones']], [n for n, _, _ in want], key='zones')
    back = c['normals'] != 'origin'
    for (name, nodes, cells), z in zip(want, res['zones']):
        for k, n in enumerate(nodes):
            if c['odd']:
                for v, at in c['at']:
                    if at == k:
                        n[v] = 0.0
            n['RF'] = (n['Tad'] - t_inf) * 2 * cp / vel ** 2
            n['HTC'] = -n['Q'] / (n['Ts'] - n['Tad'])
        u = c['unit']
        key_of = lambda p: tuple(round(x / u, 7) for x in p)
        where = {key_of((n['X'], n['Y'], n['Z'])): k for k, n in enumerate(nodes)}
        require(len(where) == len(nodes), 'harness: nodes coincide')
        got = []
        for i in range(len(z['faces'])):
            t = [where.get(key_of(p)) for p in mesh.tri_of(z, i)]
            require(None not in t, 'face {0} of {1} has a corner that is no node', i, name, key='corner')
            for key, what in (('HTC', 'HTC'), ('Beta', 'Beta'), ('TauX', 'SF1'), ('TauY', 'SF2'), ('TauZ', 'SF3'),
                              ('RecoveryFactor', 'RF')):
                w = sum(nodes[v][what] for v in t) / 3
                tol = 1e-9 * max(abs(nodes[v][what]) for v in t)
                require(abs(z['data'][key][i] - w) <= tol,
                        '{0} of face {1} of {2} (nodes {3}) is {4}, the mean is {5}', key, i, name, t,
                        z['data'][key][i], w, key='value-' + key)
            got.append(mesh.rot_min(t))
        pos = 0
        for q in cells:
            d = list(dict.fromkeys(q))
            if len(d) == 3:
                # Corners next to each other are equal: the rest gives the way around.
                f = got[pos]
                ways = [mesh.rot_min(d), mesh.rot_min(d[::-1])]
                i, j = [(a, b) for a, b in DEGENERATE if q[a] == q[b]][0]
                ok = ways if j - i == 2 else [ways[1] if back else ways[0]]
                require(f in ok, 'triangle {0} became {1}', q, f, key='triangle')
                pos += 1
            else:
                fs = got[pos:pos + 2]
                o = q[::-1] if back else q
                both = [sorted([mesh.rot_min((o[k], o[(k + 1) % 4], o[(k + 2) % 4])),
                                mesh.rot_min((o[k], o[(k + 2) % 4], o[(k + 3) % 4]))]) for k in (0, 1)]
                require(sorted(fs) in both, 'quadrilateral {0} became {1}', q, fs, key='quad')
                pos += 2
        require(pos == len(got), '{0} faces, expected {1}', len(got), pos, key='count')


def describe(tier):
    return {'rule': 'every order and subset of zones, shape of cells (quadrilaterals, all ways to write a triangle as '
                    'one), orientation, layout of the three files, free stream; files are converted by the command '
                    'line and each face is judged against the means over its own nodes',
            'bounds': {'zones': '1-4, 13', 'cells of a zone': '1-{0}, 99'.format(2 if tier == 'quick' else 3), 'layouts': 216, 'ways to write numbers': 5, 'units': 4},
            'assumptions': ['columns come in the order in which FENSAP writes them, the name of a zone before its sizes',
                            'the surface is nowhere at the adiabatic temperature (heat transfer is undefined there)',
                            'values agree up to 1e-9 of the largest one of the face',
                            'where opposite corners of a cell coincide either orientation is accepted']}
