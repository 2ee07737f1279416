"""
Runner shared by all checks: shards over processes, per-case time limit, evidence, findings.

A check module offers
    ID, LEVEL_NOTE-free constants, and
    shards(tier)        -> list of JSON-able shard descriptors (together: the whole bounded space),
    run_shard(shard, R) -> explores one shard, calling R.case(case) for each case,
    run_case(case, R)   -> one execution (or one exploration step) against the real code; reports
                           with R.violation(); raising counts as a violation as well,
    describe(tier)      -> dict(rule=..., bounds=..., assumptions=[...]).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import env

GIB = 1 << 30
CASE_LIMIT_S = 60          # one case takes milliseconds; this only turns a hang into a report
MEM_LIMIT = 6 * GIB
AFTER_VERDICT_S = 30       # how long to go on looking for smaller cases after a violation


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by oracles; carries a short key that identifies the failure."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class StopShard(Exception):
    """The shard has enough violations or its time is used up."""


def require(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key=key)


def _alarm(_s, _f):
    raise CaseTimeout('time limit of a case')


def digest(obj):
    """64-bit digest of a canonical state / case (any repr-stable object)."""
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


class Recorder:
    """Counts, violations and samples of one shard."""

    MAX_VIOL = 8

    def __init__(self, module, tier, seed, deadline, first=None, known=()):
        self.module, self.tier, self.seed, self.deadline = module, tier, seed, deadline
        self.states = set()
        self.outcomes = collections.Counter()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.samples = []
        self.counters = collections.Counter()
        self.capped = False
        self.case_limit = getattr(module, 'CASE_LIMIT_S', CASE_LIMIT_S)
        self.first = first          # time of the first violation seen by any worker (0: none)
        self.known = known

    # -- accounting ------------------------------------------------------------------------------

    def state(self, canon):
        """Register a canonical state; True if it is new in this shard."""
        k = digest(canon)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        self.outcomes[o] += 1

    def count(self, what, n=1):
        self.counters[what] += n

    def sample(self, case, limit=2):
        if len(self.samples) < limit:
            self.samples.append(case)

    # -- running ---------------------------------------------------------------------------------

    def violation(self, msg, case, key=None):
        self.violations.append({'message': str(msg)[:2000], 'case': case, 'key': key})
        if self.first is not None and key not in self.known and not self.first.value:
            self.first.value = time.time()
        if len(self.violations) >= self.MAX_VIOL * 4:
            raise StopShard()

    def case(self, case):
        """Run one case; the return value of run_case is handed through (None on a violation)."""
        now = time.time()
        if now > self.deadline or (self.first is not None and self.first.value
                                   and now > self.first.value + AFTER_VERDICT_S):
            self.capped = True
            raise StopShard()
        signal.setitimer(signal.ITIMER_REAL, self.case_limit)
        try:
            res = self.module.run_case(case, self)
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
            self.sample(case)
            return res
        except StopShard:
            raise
        except Violation as v:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.violation(str(v), case, v.key)
        except CaseTimeout:
            self.violation('no answer within {0} s'.format(self.case_limit), case, 'timeout')
            # One hang is a verdict; do not pay for it again and again.
            raise StopShard()
        except (Exception, SystemExit) as e:    # the code under test failed where it has to work
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('{0}:{1} {2}'.format(os.path.basename(t.filename), t.lineno, t.name)
                              for t in tb[-4:])
            msg = 'unexpected {0}: {1} [{2}]'.format(type(e).__name__, e, where)
            self.violation(msg, case, 'exception')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None

    def dump(self):
        return {'states': self.states, 'outcomes': self.outcomes, 'transitions': self.transitions,
                'traces': self.traces, 'violations': self.violations, 'samples': self.samples,
                'counters': self.counters, 'capped': self.capped}


def _limits():
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(modname, tier, seed, deadline, todo, done, first, known):
    _limits()
    module = importlib.import_module(modname)
    while True:
        item = todo.get()
        if item is None:
            return
        idx, shard = item
        rec = Recorder(module, tier, seed, deadline, first, known)
        err = None
        try:
            with env.quiet():
                module.run_shard(shard, rec)
        except StopShard:
            pass
        except CaseTimeout:
            rec.violations.append({'message': 'no answer (between cases)', 'case': {'shard': shard},
                                   'key': 'timeout'})
        except Violation as v:
            rec.violations.append({'message': str(v), 'case': {'shard': shard}, 'key': v.key})
        except (Exception, SystemExit) as e:
            tb = traceback.format_exc()
            if env.CODE in tb:
                rec.violations.append({'message': 'unexpected {0}: {1}'.format(type(e).__name__, e),
                                       'case': {'shard': shard, 'trace': tb}, 'key': 'exception'})
            else:
                err = tb
        done.put((idx, rec.dump(), err))


def load_findings(pid):
    """known_findings.txt: 'finding: property=ID key=KEY text' suppresses exactly KEY."""
    res = {}
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property={0} '.format(pid)):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                res[key[4:]] = text
    return res


def run_check(pid, tier, seed, jobs=None, budget=None):
    t0 = time.time()
    modname = 'checks.{0}'.format(pid.lower())
    env.scratch_root()
    try:
        env.load()
        module = importlib.import_module(modname)
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        if env.CODE not in tb:
            raise
        # The code under test cannot be imported: nothing can hold.
        path = write_replay(pid, {'import': True}, 'import failed: {0}'.format(e))
        print(tb)
        print('VIOLATION property={0} replay={1}'.format(pid, path))
        return 1
    if budget is None:
        budget = 480 if tier == 'quick' else 6 * 3600
    deadline = t0 + budget
    shards = module.shards(tier)
    jobs = jobs or min(8, len(shards))
    ctx = mp.get_context('fork')
    todo, done = ctx.SimpleQueue(), ctx.Queue()
    first, known = ctx.Value('d', 0.0, lock=False), set(load_findings(pid))
    procs = [ctx.Process(target=_worker, args=(modname, tier, seed, deadline, todo, done, first,
                                               known))
             for _ in range(jobs)]

    tot = Recorder(module, tier, seed, deadline)
    err = None
    pending = collections.deque(enumerate(shards))
    for p in procs:
        p.start()
    # Feed lazily so that a verdict can stop the rest early.
    outstanding = 0
    for _ in range(min(jobs * 2, len(pending))):
        todo.put(pending.popleft())
        outstanding += 1
    results = {}
    died = None
    import queue as _q
    while outstanding:
        try:
            idx, d, e = done.get(timeout=5)
        except _q.Empty:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                died = 'worker ended with {0}'.format(dead[0].exitcode)
                break
            if time.time() > deadline + 120:
                died = 'workers do not answer'
                break
            continue
        outstanding -= 1
        results[idx] = d
        err = err or e
        nviol = sum(len(r['violations']) for r in results.values())
        if pending and nviol < 40 and not err:
            todo.put(pending.popleft())
            outstanding += 1
    for p in procs:
        todo.put(None)
    if died:
        for p in procs:
            p.kill()
    for p in procs:
        p.join(30)
        if p.is_alive():
            p.kill()
    skipped = len(pending)
    for idx in sorted(results):
        d = results[idx]
        tot.states |= d['states']
        tot.outcomes.update(d['outcomes'])
        tot.transitions += d['transitions']
        tot.traces += d['traces']
        tot.violations += d['violations']
        tot.counters.update(d['counters'])
        tot.capped |= d['capped']
        if len(tot.samples) < 3:
            tot.samples += d['samples'][:3 - len(tot.samples)]
    if died and not tot.violations:
        # A worker that is gone (out of memory, crash in native code) while running the code under
        # test is an answer about that code only if some case shows it; report as harness error.
        err = err or died
    if hasattr(module, 'finish'):
        module.finish(tot, tier)
    return conclude(pid, module, tot, tier, seed, t0, err, skipped, len(shards))


def conclude(pid, module, tot, tier, seed, t0, err, skipped, nshards):
    findings = load_findings(pid)
    fresh, listed = [], collections.Counter()
    for v in tot.violations:
        if v['key'] in findings:
            listed[v['key']] += 1
        else:
            fresh.append(v)
    d = module.describe(tier)
    complete = not (tot.capped or skipped or err or fresh)
    cov = {
        'states': len(tot.states),
        'transitions': tot.transitions,
        'traces_validated_against_impl': tot.traces,
        'distinct_outcomes': len(tot.outcomes),
        'outcomes': {str(k): n for k, n in tot.outcomes.most_common(12)},
        'counters': {str(k): n for k, n in sorted(tot.counters.items())},
        'shards': nshards,
        'exhaustive': bool(complete),
        'rule': d['rule'],
        'bounds': d['bounds'],
        'samples': tot.samples or [{'note': 'no case completed'}],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': d.get('assumptions', []), 'wall_s': round(time.time() - t0, 3),
          'violations': len(fresh)}
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('{0} {1}: states={2} transitions={3} traces={4} outcomes={5} shards={6} '
          'exhaustive={7} wall={8:.1f}s'.format(pid, tier, len(tot.states), tot.transitions,
                                                 tot.traces, len(tot.outcomes), nshards,
                                                 complete, time.time() - t0))
    for k, n in sorted(tot.counters.items()):
        print('  {0}: {1}'.format(k, n))
    for key, text in findings.items():
        print('KNOWN-FINDING: property={0} {1}'.format(pid, text))
    if fresh:
        fresh.sort(key=lambda v: len(json.dumps(v['case'], default=str)))
        for v in fresh[:5]:
            print('  violated: {0}\n    case: {1}'.format(v['message'],
                                                          json.dumps(v['case'], default=str)[:600]))
        path = write_replay(pid, fresh[0]['case'], fresh[0]['message'])
        print('VIOLATION property={0} replay={1}'.format(pid, path))
        return 1
    if err:
        print(err)
        print('ERROR: the check itself failed')
        return 2
    if tot.traces == 0 or len(tot.states) == 0:
        print('ERROR: nothing was explored')
        return 2
    return 0


def write_replay(pid, case, message):
    d = os.path.join(env.VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'message': message, 'case': case,
                   'how': './check {0} replay {1}'.format(pid, path)}, f, indent=1, default=str)
        f.write('\n')
    return path


def replay(pid, path):
    """Run one recorded case without the explorer, twice, and compare what it reports."""
    env.load()
    _limits()
    module = importlib.import_module('checks.{0}'.format(pid.lower()))
    data = json.load(open(path))
    seen = []
    for _ in range(2):
        rec = Recorder(module, 'quick', 1, time.time() + 600)
        case = data['case']
        try:
            with env.quiet():
                if isinstance(case, dict) and set(case) <= {'shard', 'trace'}:
                    module.run_shard(case['shard'], rec)
                else:
                    rec.case(case)
        except StopShard:
            pass
        seen.append([v['message'] for v in rec.violations])
    for m in seen[0]:
        print('replayed:', m)
    if seen[0] != seen[1]:
        print('ERROR: the two replays differ: {0}'.format(seen[1]))
        return 2
    if seen[0]:
        print('VIOLATION property={0} replay={1}'.format(pid, path))
        return 1
    print('replay: no violation')
    return 0
