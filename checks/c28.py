"""C28: laws of physical values follow their tables."""
import itertools
import math
from fractions import Fraction as Q

from mc.core import require

XS = [-3.0, -1.0, 0.0, 0.5, 2.0, 10.0]
YS = [-1.0, 0.0, 2.0]
SCALES = [(1.0, 0.0, 1.0), (1e-3, 0.0, 4186.8), (100.0, 273.15, 1e-3)]


def shards(tier):
    deep = tier != 'quick'
    res = [{'kind': 'lin', 'n': n, 'xs': list(xs), 'deep': deep}
           for n in range(2, 6 if deep else 5) for xs in itertools.combinations(XS, n)]
    res += [{'kind': 'fit', 'n': n, 'deep': deep} for n in (2, 3, 4)]
    return res + [{'kind': 'tables'}, {'kind': 'long'}, {'kind': 'const'}]


def run_shard(s, R):
    def go(c):
        R.step()
        R.state(repr(c))
        R.case(c)
    if s['kind'] == 'lin':
        for ys in itertools.product(YS, repeat=s['n']):
            for sc in range(len(SCALES)):
                for k in ('list', 'tuple', 'array', 'int'):
                    go({'xs': s['xs'], 'ys': list(ys), 'scale': sc, 'type': k})
    elif s['kind'] == 'fit':
        for xs in itertools.combinations([-2.0, -1.0, 0.0, 1.0, 3.0], s['n'] + (0 if s['n'] > 2 else 1)):
            for ys in itertools.product(YS, repeat=len(xs)):
                for deg in range(1, min(len(xs), 4)):
                    go({'fit': [list(xs), list(ys)], 'degree': deg})
                if len(xs) > 3:
                    go({'fit': [list(xs), list(ys)], 'degree': 3, 'own': '_cubic'})
        if s['n'] == 4:
            for ys in itertools.product(YS, repeat=5):
                go({'fit': [[-2.0, -1.0, 0.0, 1.0, 3.0], list(ys)], 'degree': 4, 'own': '_quadro'})
    elif s['kind'] == 'tables':
        import phys.laws as laws
        for name in sorted(tables(laws)):
            go({'table': name})
    elif s['kind'] == 'long':
        for n in (9, 10, 11, 16, 33, 64, 101, 257):
            for p in range(3):
                xs = [float(i * i + p * i) / 4 if p else float(i - n // 2) for i in range(n)]
                for sc in range(len(SCALES)):
                    for k in ('list', 'array', 'int'):
                        go({'xs': xs, 'ys': [YS[(i * i + p) % 3] for i in range(n)], 'scale': sc, 'type': k})
    else:
        for v in (0, 1, -2.5, 1e300, 4186.8):
            go({'const': v})


def tables(mod):
    """Tables of the module, whatever their names are."""
    return {k: v for k, v in vars(mod).items() if isinstance(v, dict) and set(v) == {'x', 'y'}}


def exact_line(xs, ys, x):
    """Piecewise linear function; the first and the last segments go on outside."""
    i = 0
    while i < len(xs) - 2 and x > xs[i + 1]:
        i += 1
    a, b, c, d = (Q(v) for v in (xs[i], xs[i + 1], ys[i], ys[i + 1]))
    return float(c + (d - c) * (Q(x) - a) / (b - a))


def follow(law, xs, ys, what):
    import numpy as np
    span = max(abs(y) for y in ys) or 1.0
    qs = list(xs)
    for a, b in zip(xs, xs[1:]):
        qs += [a + (b - a) * t for t in (0.25, 0.5, 0.999)]
    w = xs[-1] - xs[0]
    out = [xs[0] - w, xs[0] - 0.01 * w, xs[-1] + 0.01 * w, xs[-1] + w]
    for q in qs + out:
        want = exact_line(xs, ys, q)
        steep = max(abs((d - c) / (b - a)) for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]))
        tol = 1e-10 * (span + steep * (w + abs(q)))
        got = law(q)
        require(np.ndim(got) == 0 and abs(float(got) - want) <= tol, '{0} at {1} is {2} instead of {3}', what, q, got,
                want, key='value')
    # An array of arguments gives the array of values, in its order.
    for arr in (np.array(qs + out), np.array((qs + out)[::-1]), np.array(qs[:4]).reshape(2, 2)):
        got = np.asarray(law(arr))
        one = np.array([float(law(float(q))) for q in arr.ravel()]).reshape(arr.shape)
        require(got.shape == arr.shape and np.allclose(got, one, rtol=1e-12, atol=1e-12 * span), 'array of values',
                key='array')


def run_case(c, R):
    import numpy as np
    import phys.laws as laws
    if 'xs' in c:
        k, o, m = SCALES[c['scale']]
        xs, ys = [x * k + o for x in c['xs']], [y * m for y in c['ys']]
        if c['type'] == 'int':
            if any(v != int(v) for v in xs + ys):
                return True
            xs, ys = [int(x) for x in xs], [int(y) for y in ys]
        mk = {'array': np.array, 'tuple': tuple}.get(c['type'], list)
        table = {'x': mk(xs), 'y': mk(ys)}
        law = laws.LinearLaw(table)
        # Another law beside it; the number of arguments is the same or not.
        xo, yo = [x + 1 for x in xs[:2 if len(ys) % 2 else None]], [2 * y - 1 for y in ys[::-1]][:2 if len(ys) % 2 else None]
        other = laws.LinearLaw({'x': mk(xo), 'y': mk(yo)})
        follow(law, xs, ys, 'law of {0}'.format(list(zip(xs, ys))))
        require(list(table['x']) == xs and list(table['y']) == ys, 'the table was changed', key='table')
        if len(xs) < 5:
            follow(other, xo, yo, 'second law of {0}'.format(list(zip(xo, yo))))
        R.outcome(('lin', len(xs), c['type']))
    elif 'fit' in c:
        xs, ys = c['fit']
        deg = c['degree']
        fs = {1: lambda x, a, b: a * x + b, 2: lambda x, a, b, c: (a * x + b) * x + c,
              3: lambda x, a, b, c, d: ((a * x + b) * x + c) * x + d}
        f = getattr(laws, c.get('own', ''), None) or fs.get(deg)
        if f is None:
            return True
        law = laws.FuncLaw({'x': list(xs), 'y': list(ys)}, f)
        # The best polynomial from the normal equations.
        co = least_squares(xs, ys, deg)
        for x in xs + [0.3, -5.0, 7.0]:
            want = float(sum(a * Q(x) ** i for i, a in enumerate(co)))
            require(abs(float(law(x)) - want) <= 1e-5 * (1 + abs(want)), 'fit of degree {0} at {1} is {2} instead of '
                    '{3}', deg, x, law(x), want, key='fit')
        got = np.asarray(law(np.array(xs)))
        require(np.allclose(got, [float(law(x)) for x in xs]), 'array of values of a fit', key='array')
        R.outcome(('fit', len(xs), deg))
    elif 'table' in c:
        t = tables(laws)[c['table']]
        xs, ys = [float(x) for x in t['x']], [float(y) for y in t['y']]
        require(len(xs) == len(ys) > 1, 'arguments and values of {0}', c['table'], key='length')
        require(all(a < b for a, b in zip(xs, xs[1:])), 'arguments of {0} do not ascend', c['table'], key='ascend')
        require(all(math.isfinite(y) and y >= 0 for y in ys), 'values of {0}', c['table'], key='values')
        follow(laws.LinearLaw(t), xs, ys, c['table'])
        R.outcome(('table', len(xs)))
    else:
        law = laws.ConstLaw(c['const'])
        for x in (-1e9, 0, 0.5, 20):
            require(law(x) == c['const'], 'constant {0} at {1} is {2}', c['const'], x, law(x), key='const')
        R.outcome('const')
    return True


def least_squares(xs, ys, deg):
    n = deg + 1
    A = [[sum(Q(x) ** (i + j) for x in xs) for j in range(n)] + [sum(Q(y) * Q(x) ** i for x, y in zip(xs, ys))]
         for i in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i])
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i:
                A[r] = [a - A[r][i] * b for a, b in zip(A[r], A[i])]
    return [A[i][n] for i in range(n)]


def describe(tier):
    return {'rule': 'One state = a table and a kind of law; values at, between and outside the arguments of the table '
                    'are compared with exact rational ones, also for arrays of arguments.',
            'bounds': {'tables': 'all with 2-{0} of {1} arguments and {2} values, three scales, four types; tables of up to 257 arguments; two laws at once; the tables '
                                 'of the module'.format(4 if tier == 'quick' else 5, len(XS), len(YS)),
                       'fits': 'polynomials of degree 1-3, those of the module'},
            'assumptions': ['Arguments of a table ascend.', 'Fits agree up to 1e-5.']}
