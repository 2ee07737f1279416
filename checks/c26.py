"""C26: explosion of a grid shifts every zone as a whole away from the mean point."""
import os
from fractions import Fraction as Q

from mc import mesh, env
from mc.core import require
from checks import grids

KS = [[0.25], [None], [0.0], [-0.5], [-1.0], [3.0], [0.1, 0.25], [1.0, -0.5], [0.5, 0.5, 0.5]]
PLACES = [(1.0, 0.0), (1e-3, 0.0), (1.0, 1000.0), (1e3, -7.0)]


def shards(tier):
    res = []
    for mi in range(len(grids.pool())):
        n = len(grids.get(mi)[1])
        cols = grids.colourings(n, 3 if tier == 'quick' else 4)
        lim = 40 if tier == 'quick' else 600
        if len(cols) > lim:
            cols = [c for c in cols if sum(a != b for a, b in zip(c, c[1:])) <= 2][:lim]
        res.append({'mesh': mi, 'cols': cols, 'deep': tier != 'quick'})
    return [{'mesh': i, 'cols': [z], 'deep': False}
            for i, z in grids.large(labels=('sheet', 'tube', 'parts'))] + res


def run_shard(s, R):
    for i, col in enumerate(s['cols']):
        for j, ks in enumerate(KS):
            for pl in range(len(PLACES)) if s['deep'] else [(i + j + s['mesh']) % len(PLACES)]:
                c = {'mesh': s['mesh'], 'zones': col, 'ks': ks, 'place': pl, 'order': (i + j) % 3}
                R.step()
                R.state(repr(c))
                R.case(c)


def model(zs, ks):
    """Coordinates of nodes of each zone."""
    zs = [[tuple(Q(x) for x in p) for p in z] for z in zs]
    mean = lambda ps: tuple(sum(x) / len(ps) for x in zip(*ps))
    for k in ks:
        g = mean([p for z in zs for p in z])
        zs = [[tuple(x + Q(k) * (a - b) for x, a, b in zip(p, mean(z), g)) for p in z] for z in zs]
    return zs


def run_case(c, R):
    import gsu
    _, faces, pts = grids.get(c['mesh'])
    unit, off = PLACES[c['place']]
    pts = [[unit * x + off * (i + 1) for i, x in enumerate(p)] for p in pts]
    m = mesh.make(faces, c['zones'], pts, title='g')
    for z in m['zones']:
        nd = mesh.zone_nodes(z)
        # Nodes of a file are in any order.
        z['order'] = nd if c['order'] == 0 else nd[::-1] if c['order'] == 1 else nd[1:] + nd[:1]
    size = max(abs(x) for p in pts for x in p) * max(1.0, *(abs(1 + (0.1 if k is None else k)) for k in c['ks']))
    with env.scratch() as d:
        src, out, again = (os.path.join(d, n) for n in ('i.dat', 'o.dat', 'p.dat'))
        mesh.write_dat(m, src)
        g = gsu.Grid()
        with env.quiet():
            g.load(src, is_merge_same_nodes=False)
            g.store(again)
            before = mesh.parse_dat(again)
            for k in c['ks']:
                if k is None:
                    g.move_from_mean_point()
                else:
                    g.move_from_mean_point(k)
            g.store(out)
        after = mesh.parse_dat(out)
        want = model([z['points'] for z in before['zones']], [0.1 if k is None else k for k in c['ks']])
        require(after['title'] == m['title'] and after['vars'] == m['vars'], 'head', key='head')
        require([z['name'] for z in after['zones']] == [z['name'] for z in m['zones']], 'zones', key='zones')
        for zi, (z, b) in enumerate(zip(after['zones'], before['zones'])):
            require(z['faces'] == b['faces'] and z['data'] == b['data'], 'faces or data of zone {0} changed', zi,
                    key='faces')
            require(len(z['points']) == len(b['points']), 'nodes of zone {0}', zi, key='nodes')
            for p, w in zip(z['points'], want[zi]):
                require(all(abs(x - float(y)) <= 1e-11 * size for x, y in zip(p, w)),
                        'a node of zone {0} is at {1} instead of {2}', zi, p, [float(y) for y in w], key='place')
            # What was stored first is the file.
            nd = mesh.zone_nodes(m['zones'][zi])
            require(sorted(map(list, b['points'])) == sorted(list(map(float, m['points'][v])) for v in nd),
                    'nodes of zone {0} as loaded', zi, key='load')
            require([mesh.tri_of(b, i) for i in range(len(b['faces']))] ==
                    [tuple(tuple(map(float, m['points'][v])) for v in f) for f in m['zones'][zi]['faces']],
                    'faces of zone {0} as loaded', zi, key='load')
        # Links stay as they are.
        mesh.check_zones(g)
        fs = [f for z in m['zones'] for f in z['faces']]
        require(len(g.Faces) == len(fs) and len(g.Zones) == len(m['zones']), 'counts', key='counts')
    R.outcome((len(m['zones']), len(fs), len(c['ks'])))
    return True


def describe(tier):
    return {'rule': 'One state = a bounded grid loaded without merging of nodes, its zones, order of nodes, place in '
                    'space and a history of explosions; all stored coordinates are compared with a rational model.',
            'bounds': {'grids': len(grids.pool()), 'large grids': '3 (54..264 faces), 1 or 13 zones', 'zones': '1-{0}'.format(3 if tier == 'quick' else 4),
                       'explosions': '1-3', 'coefficients': '-1..3'},
            'assumptions': ['The grid is loaded without merging of nodes, as the method demands.',
                            'Coordinates agree up to 1e-11 of the largest one.']}
