"""C07: edge kinds, zones adjacency matrix and printed statistics agree with the mesh."""
import re

from mc import mesh, decomp, edits, env
from mc.core import require, Violation
from checks import grids, c02


def shards(tier):
    res = []
    for i, (label, fs, pts) in enumerate(grids.pool()):
        n = len(fs)
        if n <= (5 if tier == 'quick' else 7):
            cols = grids.colourings(n, 4)
        else:
            cols = [[0] * n, [j % 2 for j in range(n)], [min(j, 2) for j in range(n)],
                    [j % 4 for j in range(n)]]
        for k in range(0, len(cols), 20):
            res.append({'mesh': i, 'cols': cols[k:k + 20], 'tier': tier})
    return [{'mesh': i, 'cols': [z], 'tier': tier} for i, z in grids.large()] + res


def run_shard(shard, R):
    label, fs, pts = grids.get(shard['mesh'])
    n = len(fs)
    for ci, col in enumerate(shard['cols']):
        names = ['zone{0}'.format(z) for z in sorted(set(col))]
        hists = [[]]
        if ci == 0:
            hists += [[['d', o]] for o in (decomp.menu_large(names, n) if n > 20 else
                                           decomp.menu(names, n, shard['tier'], full=n <= 4))]
        if label != 'stack' and (n <= 3 or (ci == 1 and n <= (6 if shard['tier'] == 'quick' else 12))):
            eds = R.case({'mesh': shard['mesh'], 'zones': col, 'menu': True}) or []
            hists += [[['e', o]] for o in eds]
            hists += [[['e', o], ['d', ['farhat', 2, []]]] for o in eds]
            if n >= 2:
                hists += [[['d', ['linear', 2]], ['e', o]] for o in eds]
        for h in hists:
            R.step()
            if R.state((label, tuple(col), repr(h))):
                R.case({'mesh': shard['mesh'], 'zones': col, 'history': h})


def run_case(case, R):
    import gsu
    label, fs, pts = grids.get(case['mesh'])
    with env.scratch() as d:
        g = mesh.load_grid(mesh.make(fs, case['zones'], pts), d)
    if case.get('menu'):
        return edits.menu(g)
    c02.do(g, case['history'])
    nz = len(g.Zones)
    zi = {id(z): i for i, z in enumerate(g.Zones)}
    # Brute force from node triples of faces.
    sides = {}
    for f in g.Faces:
        ids = sorted(n.GloId for n in f.Nodes)
        for p in ((ids[0], ids[1]), (ids[0], ids[2]), (ids[1], ids[2])):
            sides.setdefault(p, []).append(f)
    M = [[0] * (nz + 1) for _ in range(nz + 1)]
    outer = [0] * nz
    kinds = {'border': 0, 'inner': 0, 'cross': 0}
    kind_of = {}
    for p, fl in sides.items():
        z = [zi[id(f.Zone)] for f in fl]
        if len(fl) == 1:
            M[z[0]][nz] += 1
            M[nz][z[0]] += 1
            kind = 'border'
            outer[z[0]] += 1
        elif z[0] == z[1]:
            M[z[0]][z[0]] += 1
            kind = 'inner'
        else:
            M[z[0]][z[1]] += 1
            M[z[1]][z[0]] += 1
            kind = 'cross'
            outer[z[0]] += 1
            outer[z[1]] += 1
        kinds[kind] += 1
        kind_of[p] = (kind, z)
    # Edge predicates and neighbours.
    for e in g.Edges:
        p = tuple(sorted(n.GloId for n in e.Nodes))
        kind, z = kind_of[p]
        got = (e.is_border(), e.is_inner(), e.is_cross(), e.is_outer())
        require(got == (kind == 'border', kind == 'inner', kind == 'cross', kind != 'inner'),
                'edge {0} of kind {1}: is_border/inner/cross/outer {2}', p, kind, got,
                key='edge-kind')
        some = range(nz) if nz < 14 else sorted({(x + k) % nz for x in z for k in (0, 1, 10)})
        for a in some:
            for b in some:
                want = len(z) == 2 and {a, b} == set(z) and (a != b or z[0] == z[1])
                require(e.is_connect_zones(g.Zones[a], g.Zones[b]) == want,
                        'edge {0} between zones {1}: connects {2} {3}?', p, z, a, b,
                        key='connect')
        for f in e.Faces:
            nb = f.get_neighbour(e)
            other = [x for x in sides[p] if x is not f]
            require(nb is (other[0] if other else None), 'neighbour across edge {0}', p,
                    key='neighbour')
        l = sum((a - b) ** 2 for a, b in zip(mesh.p3(e.Nodes[0]), mesh.p3(e.Nodes[1]))) ** 0.5
        require(abs(e.len_edge() - l) < 1e-9, 'length of edge {0}', p, key='length')
        near = g.Edges if len(g.Edges) < 300 else \
            g.Edges[p[0] % 97::97] + [x for n in e.Nodes for x in n.Edges]
        for q in near:
            want = bool({n.GloId for n in q.Nodes} & set(p))
            require(e.is_adjacent_with(q) == want, 'adjacency of edges', key='adjacent')
    zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
    require([list(r) for r in zam.M] == M, 'matrix {0}, counted {1}', zam.M, M, key='matrix')
    ec = len(sides)
    st = zam.edges_statistics()
    want = (ec, kinds['border'], kinds['inner'], kinds['cross'])
    require(tuple(st[:4]) == want, 'statistics {0}, counted {1}', st, want, key='stat')
    require(all(abs(a - 100.0 * b / ec) < 1e-9 for a, b in zip(st[4:], want[1:])),
            'percents {0}', st, key='percent')
    best = 0
    for i in range(nz):
        row = [M[i][j] if j != i else 0 for j in range(nz)]
        arr = zam.zone_cross_edges_array(i)
        require(list(arr[:nz]) == row and not any(arr[nz:]), 'cross edges of zone {0}: {1}', i, arr, key='row')
        require(zam.zone_cross_edges_count(i) == sum(row), 'cross edges count', key='row')
        require(zam.zone_cross_borders_count(i) == sum(1 for x in row if x), 'borders count',
                key='row')
        require(zam.zone_max_cross_border_len(i) == max(row), 'longest border of zone',
                key='row')
        best = max([best] + row)
        z = g.Zones[i]
        require(z.outer_edges_count() == outer[i], 'zone {0}: {1} outer edges, counted {2}', i,
                z.outer_edges_count(), outer[i], key='outer')
        require((z.nodes_count(), z.edges_count(), z.faces_count())
                == (len({id(n) for f in z.Faces for n in f.Nodes}),
                    len({id(e) for f in z.Faces for e in f.Edges}), len(z.Faces)),
                'counts of zone {0}', i, key='zone-counts')
        if outer[i] and z.Faces:
            q = len(z.Faces) ** 0.5 / outer[i]
            require(abs(z.zone_quality_factor() - q) < 1e-9, 'quality factor {0}, {1}',
                    z.zone_quality_factor(), q, key='quality')
    require(zam.max_cross_border_len() == best, 'longest border', key='row')
    require([list(r) for r in zam.M] == M and zam.edges_statistics() == st,
            'after questions the matrix is {0}, counted {1}', zam.M, M, key='matrix-asked')
    require((g.nodes_count(), g.edges_count(), g.faces_count(), g.zones_count(),
             g.faces_count_in_zones())
            == (len({n for p in sides for n in p}), ec, len(g.Faces), nz, len(g.Faces)),
            'counts of the grid', key='grid-counts')
    border = {v for p, fl in sides.items() if len(fl) == 1 for v in p}
    g.mark_all_fixed_nodes()
    require(g.number_of_border_nodes == len(border), '{0} border nodes, counted {1}', g.number_of_border_nodes,
            len(border), key='border-nodes')
    require({n.GloId for n in g.Nodes if n.border} == border, 'border nodes', key='border-nodes')
    g.mark_all_fixed_nodes()
    require(g.number_of_border_nodes == len(border), 'counted twice: {0} border nodes instead of {1}',
            g.number_of_border_nodes, len(border), key='border-nodes-again')
    with env.quiet() as out:
        g.print_info(is_print_edges_statistics=True,
                     is_print_faces_distribution=True,
                     is_print_zones_adjacency_matrix=True)
    text = out.getvalue()
    want = '{0} nodes, {1} edges, {2} faces, {3} zones'.format(len(g.Nodes), ec, len(g.Faces), nz)
    require(want in text, 'printed: {0}', text[:300], key='print')
    m = re.search(r'(\d+) border.*?(\d+) inner.*?(\d+) cross', text)
    require(m and [int(x) for x in m.groups()] == [kinds['border'], kinds['inner'],
                                                   kinds['cross']], 'printed: {0}', text[:300],
            key='print')
    printed(text, g, M, outer, best)
    if not case['history']:
        # What was marked before another grid is loaded does not count.
        with env.scratch() as d:
            fn = mesh.write_dat(mesh.make(fs, case['zones'], pts), d + '/g.dat')
            g.load(fn)
        g.mark_all_fixed_nodes()
        require(g.number_of_border_nodes == len(border), 'loaded again: {0} border nodes, counted {1}',
                g.number_of_border_nodes, len(border), key='border-nodes-again')
    R.outcome((kinds['border'], kinds['inner'], kinds['cross'], nz))


def numbers(s):
    return [float(x) for x in re.findall(r'(?<![\w.])-?(?:\d+\.?\d*|inf)(?![\w.])', s)]


def printed(text, g, M, outer, best):
    """Numbers of the printed report, in order, whatever the words between them."""
    lines = text.splitlines()
    if g.Zones:
        start = next(i for i, x in enumerate(lines) if 'distribution' in x)
        qf = []
        for z, k, line in zip(g.Zones, outer, lines[start + 1:]):
            if not z.Faces:
                # No quality of a zone of nothing.
                got = numbers(line.split(z.Name, 1)[1])
                require(got[:2] == [0.0, 0.0], 'empty zone {0}: printed {1}', z.Name, line, key='print-zone')
                continue
            qf.append(len(z.Faces) ** 0.5 / k if k else float('inf'))
            got = numbers(line.split(z.Name, 1)[1])
            require(same(got, [len(z.Faces), k, qf[-1]], 1e-3), 'zone {0}: printed {1}', z.Name, line,
                    key='print-zone')
        most, mean = max(len(z.Faces) for z in g.Zones), len(g.Faces) / len(g.Zones)
        rest = lines[start + 1 + len(g.Zones):]
        require(same(numbers(rest[0].replace('%', '')), [most, 100.0 * (most - mean) / mean], 1e-2),
                'distribution of faces: printed {0}', rest[0], key='print-mean')
        require(len(qf) < len(g.Zones) or same(numbers(rest[1]), [min(qf), max(qf)], 1e-3), 'quality: printed {0}', rest[1],
                key='print-quality')
    tail = lines[-2 - len(g.Zones):]
    for row, line in zip(M, tail):
        require(numbers(line) == [float(x) for x in row], 'matrix: printed {0} for {1}', line, row,
                key='print-matrix')
    require(numbers(tail[-1]) == [float(best)], 'longest border: printed {0}', tail[-1], key='print-best')


def same(a, b, tol):
    return len(a) == len(b) and all(x == y or abs(x - y) <= tol for x, y in zip(a, b))


def describe(tier):
    return {
        'rule': 'One case = one grid after a history of decompositions and edits; kinds of edges, the adjacency matrix, border nodes and the printed statistics are compared with a brute-force count over node triples.',
        'bounds': 'mesh pool of C01; all zone assignments to <= 4 zones for <= 5 (7) faces, 4 patterns beyond; every decomposition of the menu on the first assignment; every edit, edit before a decomposition, edit after a decomposition (all assignments for <= 3 faces, one for <= 6 (12)); large grids (54..1080 faces, 1 or 13 zones); border nodes marked twice and again after loading into the same grid; printed statistics with empty zones.',
        'assumptions': ['Degree and length statistics are compared to 1e-9.']}
