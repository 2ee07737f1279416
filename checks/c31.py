"""C31: the native kernel adds to every element of its arrays once and touches nothing else."""
import itertools

from mc.core import require
from checks import c13

PAD = 7
MARK = -123456.75


def shards(tier):
    c13.build_kernel()
    top = 40 if tier == 'quick' else 130
    return [{'kind': 'same', 'from': a, 'to': min(a + 8, top)} for a in range(0, top, 8)] + \
           [{'kind': 'big'}, {'kind': 'mixed', 'top': 7 if tier == 'quick' else 12}, {'kind': 'wrong'}]


def run_shard(s, R):
    def go(c):
        R.step()
        R.state(repr(c))
        R.case(c)
    if s['kind'] == 'same':
        for n in range(s['from'], s['to']):
            for offs in itertools.product(range(4), repeat=3):
                for times in (1, 2):
                    go({'sizes': [n] * 3, 'offsets': list(offs), 'times': times})
    elif s['kind'] == 'big':
        for n in (255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65537):
            go({'sizes': [n] * 3, 'offsets': [0, 1, 2], 'times': 1})
    elif s['kind'] == 'mixed':
        for ns in itertools.product(range(s['top']), repeat=3):
            go({'sizes': list(ns), 'offsets': [1, 0, 3], 'times': 1})
    else:
        for k in range(3):
            for bad in ('float32', 'int64', 'strided', 'reversed', '2d', 'list', 'none', 'scalar', 'bigendian',
                        'readonly'):
                for n in (1, 4, 6):
                    go({'wrong': bad, 'arg': k, 'n': n})


def block(n, off, base):
    """An array inside a larger one."""
    import numpy as np
    whole = np.full(n + 2 * PAD + off, MARK)
    part = whole[PAD + off:PAD + off + n]
    part[:] = base + np.arange(n) * 0.5
    return whole, part


def run_case(c, R):
    import numpy as np
    hi = c13.kernel()
    if 'wrong' in c:
        return wrong(c, R, hi)
    blocks = [block(n, o, 100.0 * (i + 1)) for i, (n, o) in enumerate(zip(c['sizes'], c['offsets']))]
    want = []
    for i, (w, p) in enumerate(blocks):
        x = w.copy()
        x[PAD + c['offsets'][i]:PAD + c['offsets'][i] + c['sizes'][i]] += (i + 1) * c['times']
        want.append(x)
    for _ in range(c['times']):
        require(hi(*(p for w, p in blocks)) is None, 'the kernel returns something', key='result')
    for i, ((w, p), x) in enumerate(zip(blocks, want)):
        d = [k - PAD - c['offsets'][i] for k in range(len(x)) if w[k] != x[k]]
        require(not d, 'argument {0} of sizes {1}: wrong at places {2} (its size is {3})', i, c['sizes'], d[:10],
                c['sizes'][i], key='outside' if any(k < 0 or k >= c['sizes'][i] for k in d) else 'value')
    R.outcome((len(set(c['sizes'])), c['times']))
    return True


def wrong(c, R, hi):
    import numpy as np
    n, k = c['n'], c['arg']
    args = [np.arange(n, dtype=np.float64) for _ in range(3)]
    base = np.arange(4 * n, dtype=np.float64)
    b = c['wrong']
    args[k] = {'float32': lambda: np.arange(n, dtype=np.float32), 'int64': lambda: np.arange(n),
               'strided': lambda: base[::2][:n], 'reversed': lambda: base[::-1][:n],
               '2d': lambda: base.reshape(2, -1), 'list': lambda: [0.0] * n, 'none': lambda: None,
               'scalar': lambda: 1.0, 'bigendian': lambda: np.arange(n, dtype='>f8'),
               'readonly': lambda: np.arange(n, dtype=np.float64)}[b]()
    if b == 'readonly':
        args[k].flags.writeable = False
    held = [np.array(a, copy=True) if a is not None else None for a in args]
    whole = base.copy()
    try:
        hi(*args)
    except (TypeError, ValueError):
        ok = True
    else:
        ok = False
    # One element has no stride; SWIG arrays do not look at flags of writing.
    may = b == 'readonly' or n == 1 and b in ('strided', 'reversed')
    require(ok or may, 'an argument that cannot be used in place ({0}) is taken', b, key='taken')
    if ok:
        require(all(x is None and y is None or np.array_equal(x, y) for x, y in zip(held, args)) and
                np.array_equal(whole, base), 'a refused call changed arrays', key='refused')
    R.outcome((b, ok))
    return True


def describe(tier):
    return {'rule': 'One state = sizes, places in memory and number of calls of the kernel built from the sources; '
                    'every element of the arrays and of memory around them is compared.',
            'bounds': {'sizes': '0-{0} and some large'.format(39 if tier == 'quick' else 129), 'offsets': '0-3',
                       'different sizes': '< {0}'.format(7 if tier == 'quick' else 12), 'wrong arguments': 30},
            'assumptions': ['Memory further than {0} elements from an array is not looked at.'.format(PAD)]}
