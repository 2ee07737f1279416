"""C25: names of files tell the grid, the process and the time, and nothing else is taken for them."""
import itertools
import os

from mc import mesh, env, cli
from mc.core import require

STEMS = ['a', 'a_00000', 'a_000000000001', 'x.y', 'a+(b', 'имя', 'a b', '_', '0', '[a]', 'a*']
CHARS = ['_', '-', '.', '0', '9', 'a', ' ', '²', '٣', '\n']
NUMS = [(0, 0), (1, 10000000), (99999, 999999999999)]
DIGITS = '0123456789'


def right(fn, stem, ext):
    """stem_DDDDD_DDDDDDDDDDDD.ext"""
    r = fn[len(stem):]
    return fn[:len(stem)] == stem and len(r) == 23 and r[0] == r[6] == '_' and \
        all(c in DIGITS for c in r[1:6] + r[7:19]) and r[19:] == '.' + ext


def edits(s, at=None):
    """s with one character replaced, removed or put in."""
    at = range(len(s) + 1) if at is None else at
    for i in at:
        for c in CHARS:
            yield s[:i] + c + s[i:]
            if i < len(s) and s[i] != c:
                yield s[:i] + c + s[i + 1:]
        if i < len(s):
            yield s[:i] + s[i + 1:]


def shards(tier):
    deep = tier != 'quick'
    res = [{'kind': 'name', 'stem': s, 'num': n, 'ext': e, 'deep': deep}
           for s in range(len(STEMS)) for n in range(len(NUMS)) for e in ('cry', 'txt')]
    res += [{'kind': 'stamp', 'stem': s, 'deep': deep} for s in range(len(STEMS))]
    res += [{'kind': 'short', 'first': c} for c in CHARS]
    res += [{'kind': 'group'}, {'kind': 'flat'}, {'kind': 'numbers'}]
    res += [{'kind': 'merge', 'stem': s} for s in (0, 1, 3, 4, 6)]
    return res


def run_shard(s, R):
    k = s['kind']

    def go(c):
        R.step()
        if R.state(repr(c)):
            R.case(c)
    if k == 'name':
        st = STEMS[s['stem']]
        b = '{0}_{1:05}_{2:012}.{3}'.format(st, *NUMS[s['num']], s['ext'])
        go({'fn': b})
        sep = sorted({i + d for i in (len(st), len(st) + 6, len(st) + 19) for d in (-1, 0, 1)})
        for e in edits(b):
            go({'fn': e})
            if s['deep'] or s['num'] == 1 and s['stem'] in (0, 3):
                for e2 in edits(e, [i for i in sep if 0 <= i <= len(e)]):
                    go({'fn': e2})
        for other in ('dat', 'CRY', 'Txt', 'cr', 'txt2', 'cry.txt', 'txt.cry', ''):
            go({'fn': b[:-3] + other})
    elif k == 'stamp':
        for t in ('000000000000', '000010000000', '999999999999'):
            b = STEMS[s['stem']] + '_' + t
            go({'stamp': b})
            for e in edits(b):
                go({'stamp': e})
                if s['deep'] or s['stem'] < 2 and t == '000010000000':
                    for e2 in edits(e, range(len(e) - 14, len(e) + 1) if len(e) > 14 else range(len(e))):
                        go({'stamp': e2})
    elif k == 'short':
        for n in range(4):
            for w in itertools.product(CHARS, repeat=n):
                go({'stamp': s['first'] + ''.join(w)})
                go({'fn': s['first'] + ''.join(w)})
    elif k == 'group':
        pool = ['{0}_{1:05}_{2:012}.txt'.format(a, m, t) for a, m, t in
                (('a', 0, 1), ('a', 1, 1), ('a', 0, 2), ('a_b', 7, 2), ('a', 2, 10), ('a', 1, 10 ** 11), ('', 0, 1))]
        for n in range(5):
            for w in itertools.permutations(pool, n):
                go({'group': list(w)})
        # Many processes and times, in several orders.
        for n, t in ((13, 11), (101, 3), (3, 101), (257, 1)):
            w = ['a_{0:05}_{1:012}.txt'.format(i, j * j * 10) for i in range(n) for j in range(t)]
            for k in (1, 7, 5 * t + 1):
                if all(len(w) % q for q in range(2, k + 1) if k % q == 0):
                    go({'group': [w[i * k % len(w)] for i in range(len(w))]})
            go({'group': w[::-1]})
    elif k == 'flat':
        for n in range(6):
            for t in trees(n):
                go({'flat': t})
    elif k == 'numbers':
        # Every power of ten of both numbers, one below and one above.
        ms = sorted({x for p in range(6) for x in (10 ** p - 1, 10 ** p, 10 ** p + 1) if x < 10 ** 5})
        ts = sorted({x for p in range(13) for x in (10 ** p - 1, 10 ** p, 10 ** p + 1) if x < 10 ** 12})
        for st in STEMS:
            for m in ms:
                for t in ts:
                    go({'made': [st, m, t]})
    elif k == 'merge':
        st = STEMS[s['stem']]
        b = '{0}_00000_000000000001.txt'.format(st)
        bad = sorted({e for e in edits(b) if not right(e, st, 'txt') and '/' not in e and e.isprintable()})
        for i in range(0, len(bad), 6):
            go({'merge': st, 'bad': bad[i:i + 6]})


def trees(n):
    """Nested lists with n leaves and brackets in all."""
    def forests(k):
        if k == 0:
            yield []
            return
        for i in range(k):
            # The first element is a leaf or a list with i elements inside.
            for rest in forests(k - 1 - i):
                if i == 0:
                    for leaf in (0, 'ab', None):
                        yield [leaf] + rest
                for f in forests(i):
                    yield [f] + rest
    return forests(n)


def leaves(t):
    for x in t:
        if isinstance(x, list):
            yield from leaves(x)
        else:
            yield x


def run_case(c, R):
    import utils
    if 'fn' in c:
        fn, n = c['fn'], 0
        # Every beginning of the name can be the stem.
        for stem in STEMS + [fn[:-23], fn[:-22], fn[:-24], '']:
            for ext, f in (('cry', utils.is_filename_correct_crys_cry_file),
                           ('txt', utils.is_filename_correct_crys_txt_file)):
                w = right(fn, stem, ext)
                require(bool(f(fn, stem)) == w, '{0} with stem {1} is {2}a {3} file of the solver', repr(fn),
                        repr(stem), '' if w else 'not ', ext, key='name')
                n += w
        R.outcome(('fn', n))
    elif 'stamp' in c:
        s = c['stamp']
        t = s[-12:]
        w = len(s) > 12 and s[-13] == '_' and all(x in DIGITS for x in t)
        require(bool(utils.has_filename_timestamp(s)) == w, 'time stamp in {0}', repr(s), key='stamp')
        got = utils.get_filename_and_timestamp_pair(s)
        require(tuple(got) == ((s[:-13], t) if w else (s, '0' * 12)), '{0} is parted into {1}', repr(s), got,
                key='pair')
        R.outcome(('stamp', w))
    elif 'group' in c:
        fs = list(c['group'])
        got = utils.group_txt_files_by_timestamps(fs)
        want = {}
        for f in c['group']:
            want.setdefault(f.split('_')[-1].split('.')[0], []).append(f)
        require(dict(got) == want, 'files {0} are grouped into {1}', fs, got, key='group')
        require(fs == c['group'], 'the list was changed', key='group')
        R.outcome(('group', len(want)))
    elif 'flat' in c:
        import copy
        t = copy.deepcopy(c['flat'])
        got = utils.flatten(t)
        require(got == list(leaves(c['flat'])), 'flat {0} is {1}', c['flat'], got, key='flat')
        require(t == c['flat'], 'the list was changed', key='flat')
        R.outcome(('flat', len(got)))
    elif 'made' in c:
        st, m, t = c['made']
        for ext in ('cry', 'txt'):
            fn = '{0}_{1:05}_{2:012}.{3}'.format(st, m, t, ext)
            got = utils.dummy_split_filename(fn)
            require(tuple(got) == (st, m, t, ext), '{0} is read as {1}', fn, got, key='parts')
            require(bool(utils.is_filename_correct_crys_cry_file(fn, st)) == (ext == 'cry'), fn, key='name')
            require(bool(utils.is_filename_correct_crys_txt_file(fn, st)) == (ext == 'txt'), fn, key='name')
        R.outcome('made')
    else:
        merge(c, R)
    return True


def merge(c, R):
    """Names that are nearly right do not count when results are merged."""
    import merge as tool
    st = c['merge']
    with env.scratch() as d:
        m = mesh.make([(0, 1, 2)], [0], [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.)],
                      vars_=['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'], title='g')
        grid = mesh.write_dat(m, os.path.join(d, st + '.dat'))
        src, dst = os.path.join(d, 's'), os.path.join(d, 'r')
        os.mkdir(src)
        for i, fn in enumerate([st + '_00000_000000000007.txt'] + c['bad']):
            with open(os.path.join(src, fn), 'w') as f:
                f.write('VARIABLES="GloId", "T", "Hw", "Hi"\n')
                f.write('0 {0} 2 3\n'.format(100 + i))
        with env.quiet():
            tool.merge(grid, src, dst)
        require(sorted(os.listdir(dst)) == sorted(['report.txt', st + '_r_000000000007.dat']), 'results {0}',
                sorted(os.listdir(dst)), key='merge')
        r = mesh.parse_dat(os.path.join(dst, st + '_r_000000000007.dat'))
        require(r['zones'][0]['data']['T'] == [100.0], 'value of another file', key='merge')
    R.outcome('merge')


def describe(tier):
    return {'rule': 'Names of files of the solver with every replacement, insertion and removal of one character '
                    '(two next to separators); every beginning that can be a stem; time stamps likewise; all '
                    'short names; all lists of files and nested lists; directories with nearly right names merged.',
            'bounds': {'stems': len(STEMS), 'characters': len(CHARS), 'changes': '1-2', 'short names': '<= 4',
                       'lists': 'four of seven files, 143-303 files, trees up to 5 brackets and leaves'},
            'assumptions': ['Names of processes and times fit into 5 and 12 digits.']}
