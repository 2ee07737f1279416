"""C04: the files exported for the solver agree with the grid and with each other."""
import os

from mc import mesh, decomp, edits, env, cry
from mc.core import require, Violation
from checks import grids, c02


def shards(tier):
    return c02.shards(tier)


def run_shard(shard, R):
    if 'large' in shard:
        return c02.run_large(shard, R)
    label, fs, pts = grids.get(shard['mesh'])
    n = len(fs)
    tier = shard['tier']
    for ci, col in enumerate(shard['cols']):
        names = ['zone{0}'.format(z) for z in sorted(set(col))]
        hists = [[]]
        if ci == 0 or n <= 3:
            hists += [[['d', o]] for o in decomp.menu(names, n, tier, full=n <= 4)]
        if label != 'stack' and (n <= 3 or (ci == 0 and n <= (5 if tier == 'quick' else 8))):
            eds = R.case({'mesh': shard['mesh'], 'zones': col, 'menu': True}) or []
            hists += [[['e', o]] for o in eds]
            for k in (2, 3):
                hists += [[['e', o], ['d', ['farhat', k, []]]] for o in eds]
                if n >= k:
                    hists += [[['d', ['linear', k]], ['e', o]] for o in eds]
            if n <= 2:
                hists += [[['e', o], ['e', ['cut', e]]] for o in eds for e in ([0, 1], [1, 2])]
        for h in hists:
            R.step()
            if R.state((label, tuple(col), repr(h))):
                R.case({'mesh': shard['mesh'], 'zones': col, 'history': h})


def run_case(case, R):
    with env.scratch() as d:
        if case.get('menu'):
            g = c02.build(case, d)
            return edits.menu(g)
        g = c02.build(dict(case, nv=9), d)
        try:
            c02.do(g, case['history'])
        except Violation as v:
            if v.key == 'lost':
                return None      # the second edit names an edge that the first one removed
            raise
        snap = mesh.snapshot(g)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        ts = '000000000042'
        g.store_mpi(os.path.join(out, 'b'), ts)
        require(mesh.snapshot(g) == snap, 'export changed the grid', key='side-effect')
        want = sorted('b_{0:05d}_{1}.cry'.format(i, ts) for i in range(len(g.Zones)))
        require(sorted(os.listdir(out)) == want, 'files {0}', sorted(os.listdir(out)),
                key='files')
        files = [cry.parse(os.path.join(out, w)) for w in want]
        against(g, files)
        cry.check_set(files)
        R.outcome((len(files), sum(len(f['borders']) for f in files)))


def against(g, files):
    """Files against the grid in memory."""
    for i, (z, r) in enumerate(zip(g.Zones, files)):
        require(r['title'] == z.Name, 'rank {0}: title {1!r} of zone {2!r}', i, r['title'],
                z.Name, key='title')
        fz = {f.GloId: f for f in z.Faces}
        require(sorted(r['ids']) == sorted(fz), 'rank {0}: faces {1}, zone has {2}', i, r['ids'],
                sorted(fz), key='faces')
        for k, fid in enumerate(r['ids']):
            f = fz[fid]
            tri = tuple(r['points'][v] for v in r['fn'][k])
            own = tuple(mesh.p3(n) for n in f.Nodes)
            require(mesh.rot_min(tri) == mesh.rot_min(own), 'rank {0}: face {1} is {2}, grid {3}',
                    i, fid, tri, own, key='geometry')
            for v in mesh.CRY_VARS[4:]:
                require(r['data'][v][k] == f.Data.get(v, 0.0),
                        'rank {0}: face {1}: {2}={3}, grid {4}', i, fid, v, r['data'][v][k],
                        f.Data.get(v, 0.0), key='data')


def describe(tier):
    return {
        'rule': 'One case = one history followed by export of the solver files, which are parsed by an independent parser and compared with the grid and across ranks.',
        'bounds': 'mesh pool of C01; zone assignments to <= 3 zones; histories: none, every decomposition, every edit, edit followed by decomposition into 2 or 3 zones, decomposition followed by edit, two edits (<= 2 faces).',
        'assumptions': ['Cut points of edits do not coincide with an existing node.']}
