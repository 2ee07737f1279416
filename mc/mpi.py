"""
An MPI world under a controlled scheduler.

Every rank is a thread of this process that runs only between two MPI calls; all that MPI leaves
open is a choice of the explorer:
    run(r)    rank r executes its next MPI call and goes on to the one after it,
    read(m)   the content of the buffer of message m leaves the sender,
    write(m)  the content of message m arrives in the buffer of the receiver.
A message may be read at any time after it was posted (eager) or only after the receiver has posted
its side (rendezvous); until a request is completed by waiting, nothing is known about its buffer:
the buffer of a posted receive is filled with NaN, that of a posted send is read late.
Blocking calls are posting and waiting.  Messages between two ranks with the same tag do not
overtake each other.
"""
import sys
import threading
import types

import numpy as np

from .core import Violation, digest

ANY = -1


class Abort(BaseException):
    """Unwinds the threads of an execution that is not continued."""


def buf_of(b):
    if isinstance(b, (list, tuple)):
        b = b[0]
    if not isinstance(b, np.ndarray):
        raise Violation('buffer of type {0}'.format(type(b).__name__), key='buffer')
    if not b.flags['C_CONTIGUOUS']:
        raise Violation('buffer is not contiguous', key='buffer')
    return b


class Msg:
    def __init__(self, src, dst, tag, buf, sync):
        self.src, self.dst, self.tag, self.buf, self.sync = src, dst, tag, buf, sync
        self.content = None      # bytes once read
        self.recv = None         # matching receive
        self.done = False        # arrived

    def key(self):
        return (self.src, self.dst, self.tag, self.content, self.recv is not None, self.done)


class Recv:
    def __init__(self, dst, src, tag, buf):
        self.src, self.dst, self.tag, self.buf = src, dst, tag, buf
        self.msg = None
        self.done = False

    def key(self):
        return (self.src, self.dst, self.tag, self.done)


class Barrier:
    def __init__(self, no):
        self.no = no


class Request:
    """What a non-blocking call returns."""

    def __init__(self, world, rank, obj):
        self.w, self.r, self.obj = world, rank, obj
        self.waited = False
        world.requests.append(self)

    def Wait(self, status=None):
        self.w.call(self.r, 'wait', [self])
        return True
    wait = Wait

    def Test(self, status=None):
        return self.w.call(self.r, 'test', self)
    test = Test

    def complete(self):
        o = self.obj
        if isinstance(o, Msg):
            return o.content is not None
        if isinstance(o, Recv):
            return o.done
        if isinstance(o, Barrier):
            return all(n > o.no for n in self.w.bars)
        return True

    @staticmethod
    def Waitall(requests, statuses=None):
        requests = list(requests)
        if requests:
            requests[0].w.call(requests[0].r, 'wait', requests)
        return True
    waitall = Waitall


class Comm:
    """The face of the world towards one rank."""

    def __init__(self, world, rank):
        self.w, self.r = world, rank
        self.rank, self.size = rank, world.n

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.w.n

    def Isend(self, buf, dest, tag=0):
        return self.w.call(self.r, 'isend', (buf_of(buf), dest, tag, False))

    def Issend(self, buf, dest, tag=0):
        return self.w.call(self.r, 'isend', (buf_of(buf), dest, tag, True))

    def Irecv(self, buf, source=ANY, tag=ANY):
        return self.w.call(self.r, 'irecv', (buf_of(buf), source, tag))

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    def Ssend(self, buf, dest, tag=0):
        self.Issend(buf, dest, tag).Wait()

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        self.Irecv(buf, source, tag).Wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY,
                 status=None):
        a = self.Isend(sendbuf, dest, sendtag)
        b = self.Irecv(recvbuf, source, recvtag)
        Request.Waitall([a, b])

    def Ibarrier(self):
        return self.w.call(self.r, 'ibarrier', None)

    def Barrier(self):
        self.Ibarrier().Wait()
    barrier = Barrier

    # Collectives on objects: everybody deposits; results by rank.
    def coll(self, name, value, root):
        return self.w.call(self.r, 'coll', (name, value, root))

    def gather(self, sendobj, root=0):
        v = self.coll('gather', sendobj, root)
        return v if self.r == root else None

    def allgather(self, sendobj):
        return self.coll('allgather', sendobj, None)

    def bcast(self, obj, root=0):
        return self.coll('bcast', obj, root)[root]

    def allreduce(self, sendobj, op=None):
        import functools
        v = self.coll('allreduce', sendobj, None)
        return functools.reduce(op or (lambda a, b: a + b), v)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        v = self.coll('Gatherv', np.array(buf_of(sendbuf)).ravel(), root)
        if self.r != root:
            return
        spec = recvbuf
        arr = spec[0] if isinstance(spec, (list, tuple)) else spec
        counts = displs = None
        if isinstance(spec, (list, tuple)):
            rest = [x for x in spec[1:] if not isinstance(x, Datatype)]
            if rest and isinstance(rest[0], (list, tuple)) and len(rest[0]) == 2 \
                    and hasattr(rest[0][0], '__len__'):
                counts, displs = rest[0]
            else:
                counts = rest[0] if rest else None
                displs = rest[1] if len(rest) > 1 else None
        if counts is None:
            counts = [arr.size // self.w.n] * self.w.n
        counts = [int(c) for c in counts]
        if displs is None:
            displs = [sum(counts[:i]) for i in range(self.w.n)]
        flat = arr.reshape(-1)
        for i in range(self.w.n):
            if v[i].size > counts[i]:
                raise Violation('Gatherv: {0} values of rank {1}, room for {2}'.format(
                    v[i].size, i, counts[i]), key='truncate')
            if displs[i] + v[i].size > flat.size:
                raise Violation('Gatherv: out of the buffer', key='truncate')
            flat[displs[i]:displs[i] + v[i].size] = v[i]

    def Gather(self, sendbuf, recvbuf, root=0):
        v = self.coll('Gather', np.array(buf_of(sendbuf)).ravel(), root)
        if self.r == root:
            arr = buf_of(recvbuf).reshape(-1)
            n = v[0].size
            for i in range(self.w.n):
                arr[i * n:(i + 1) * n] = v[i]


class Datatype:
    pass


def mpi_module(world_of):
    """mpi4py for module code; world_of() gives the communicator of the current thread."""
    pkg, MPI = types.ModuleType('mpi4py'), types.ModuleType('mpi4py.MPI')

    class World:
        def __getattr__(self, name):
            return getattr(world_of(), name)
    MPI.COMM_WORLD = World()
    MPI.Request = Request
    MPI.ANY_SOURCE = MPI.ANY_TAG = ANY
    for t in ('DOUBLE', 'FLOAT', 'INT', 'INT64_T', 'LONG'):
        setattr(MPI, t, Datatype())
    MPI.SUM = lambda a, b: a + b
    MPI.MAX, MPI.MIN = max, min
    pkg.MPI = MPI
    return pkg, MPI


class World:
    """One execution.  body(comm) is what a rank runs; local(rank) describes its memory."""

    def __init__(self, n, body, local, eager):
        self.n, self.body, self.local, self.eager = n, body, local, eager
        self.msgs, self.recvs, self.requests = [], [], []
        self.bars = [0] * n          # barriers entered
        self.colls = []              # [{rank: value}], name
        self.ncoll = [0] * n
        self.pc = [0] * n
        self.pending = [None] * n    # (kind, args) of the call a rank stands at
        self.ended = [False] * n
        self.error = None
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.ret = [None] * n
        self.abort = False
        self.reduce = True
        self.threads = []

    # -- side of the ranks --------------------------------------------------------------------------

    def call(self, r, kind, args):
        self.pending[r] = (kind, args)
        self.back.release()
        self.go[r].acquire()
        if self.abort:
            raise Abort()
        v = self.ret[r]
        if isinstance(v, Violation):
            raise v
        return v

    def thread(self, r):
        self.go[r].acquire()
        try:
            if not self.abort:
                self.body(Comm(self, r))
        except Abort:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = (r, e)
        self.ended[r] = True
        self.pending[r] = None
        self.back.release()

    def resume(self, r):
        self.go[r].release()
        self.back.acquire()

    def start(self):
        for r in range(self.n):
            t = threading.Thread(target=self.thread, args=(r,), daemon=True)
            self.threads.append(t)
            t.start()
        for r in range(self.n):
            self.resume(r)

    def stop(self):
        self.abort = True
        for r in range(self.n):
            if not self.ended[r]:
                self.go[r].release()
                self.back.acquire(timeout=2)
        for t in self.threads:
            t.join(timeout=2)

    # -- side of the explorer -----------------------------------------------------------------------

    def match(self):
        """
        Pair posted receives with messages: in order of posting per pair of ranks and tag.
        Receives from any source are paired by a choice of the explorer.
        """
        for rv in self.recvs:
            if rv.msg is None and rv.src != ANY:
                for m in self.msgs:
                    if m.recv is None and m.dst == rv.dst and rv.src == m.src \
                            and rv.tag in (m.tag, ANY):
                        self.pair(rv, m)
                        break

    def pair(self, rv, m):
        rv.msg, m.recv = m, rv
        if m.buf.nbytes > rv.buf.nbytes or m.buf.dtype != rv.buf.dtype:
            raise Violation('{0} values of {1} are sent from {2} to {3}, room for {4} of {5}'.format(
                m.buf.size, m.buf.dtype, m.src, m.dst, rv.buf.size, rv.buf.dtype), key='truncate')

    def pairs(self):
        """Choices for receives from any source (in order of posting, first message per source)."""
        res, busy = [], set()
        for i, rv in enumerate(self.recvs):
            if rv.msg is None and rv.src == ANY and (rv.dst, rv.tag) not in busy:
                busy.add((rv.dst, rv.tag))
                srcs = set()
                for j, m in enumerate(self.msgs):
                    if m.recv is None and m.dst == rv.dst and rv.tag in (m.tag, ANY) \
                            and m.src not in srcs:
                        srcs.add(m.src)
                        res.append(('match', i, j))
        return res

    def enabled(self):
        res = self.pairs()
        for i, m in enumerate(self.msgs):
            if m.content is None:
                if (self.eager and not m.sync) or m.recv is not None:
                    res.append(('read', i))
            elif m.recv is not None and not m.done:
                res.append(('write', i))
        for r in range(self.n):
            if self.ended[r] or self.pending[r] is None:
                continue
            kind, args = self.pending[r]
            if kind == 'wait' and not all(q.complete() for q in args):
                continue
            if kind == 'leave' and not self.may_leave(r, *args):
                continue
            res.append(('run', r))
        return res

    def may_leave(self, r, k, root, name):
        need = range(self.n)
        if name in ('gather', 'Gather', 'Gatherv') and r != root:
            need = [r]
        elif name == 'bcast':
            need = [root]
        return all(j in self.colls[k][1] for j in need)

    def busy(self, r):
        """Does rank r have a buffer that MPI may still touch?"""
        return any(m.src == r and m.content is None for m in self.msgs) or \
            any(v.dst == r and not v.done for v in self.recvs)

    def choices(self):
        """Enabled transitions; one of them where it is independent of everything else."""
        en = self.enabled()
        if not self.reduce:
            return en
        for t in en:
            if t[0] == 'run' and not self.busy(t[1]):
                return [t]
        return en

    def step(self, t):
        what, i = t[:2]
        if what == 'match':
            self.pair(self.recvs[i], self.msgs[t[2]])
        elif what == 'read':
            m = self.msgs[i]
            m.content = m.buf.tobytes()
        elif what == 'write':
            m = self.msgs[i]
            flat = m.recv.buf.reshape(-1)
            x = np.frombuffer(m.content, dtype=m.buf.dtype)
            flat[:x.size] = x
            m.done = m.recv.done = True
        else:
            kind, args = self.pending[i]
            self.pc[i] += 1
            self.ret[i] = None
            if kind == 'isend':
                buf, dest, tag, sync = args
                if not 0 <= dest < self.n:
                    self.ret[i] = Violation('rank {0} sends to {1}'.format(i, dest), key='rank')
                else:
                    m = Msg(i, dest, tag, buf, sync)
                    self.msgs.append(m)
                    self.ret[i] = Request(self, i, m)
                    self.match()
            elif kind == 'irecv':
                buf, src, tag = args
                rv = Recv(i, src, tag, buf)
                if buf.dtype.kind == 'f':
                    buf.reshape(-1)[:] = np.nan
                self.recvs.append(rv)
                self.ret[i] = Request(self, i, rv)
                self.match()
            elif kind == 'ibarrier':
                b = Barrier(self.bars[i])
                self.bars[i] += 1
                self.ret[i] = Request(self, i, b)
            elif kind == 'wait':
                for q in args:
                    q.waited = True
            elif kind == 'test':
                self.ret[i] = args.waited = args.complete()
            elif kind == 'coll':
                # Entering and leaving are two steps of this call.
                name, value, root = args
                k = self.ncoll[i]
                if k == len(self.colls):
                    self.colls.append((name, {}))
                nm, box = self.colls[k]
                if nm != name:
                    raise Violation('rank {0} calls {1} where others call {2}'.format(i, name, nm),
                                    key='collective')
                box[i] = value
                self.ncoll[i] += 1
                self.pending[i] = ('leave', (k, root, name))
                return
            elif kind == 'leave':
                k, root, name = args
                self.ret[i] = [self.colls[k][1].get(j) for j in range(self.n)]
            self.pending[i] = None
            self.resume(i)
        if self.error is not None:
            r, e = self.error
            if isinstance(e, Violation):
                raise e
            raise e

    def key(self):
        return digest((self.pc, [x and (x[0], x[1] if x[0] == 'leave' else '') for x in
                                 self.pending], [m.key() for m in self.msgs],
                       [v.key() for v in self.recvs], self.bars, self.ncoll,
                       [self.local(r) for r in range(self.n)]))


def show(trace):
    return ' '.join(t[0] + '.'.join(map(str, t[1:])) for t in trace)


def dpor(make, check, order, limit=2000):
    """
    All schedules up to commuting independent steps.  Steps of different ranks touch different
    memory; a transfer commutes with every step of its sender that leaves the buffer as it is, so
    it is put off until something waits for it, and where a step does change the buffer of a
    message that is on its way both orders are explored.  Receive buffers are filled as late as
    possible (until then they hold NaN).  Returns (executions, steps, races).
    """
    todo, execs, steps, races = [{}], 0, 0, 0
    while todo:
        decided = todo.pop()
        w = make()
        trace = []
        try:
            w.start()
            if w.error:
                raise w.error[1]
            k = 0
            while not all(w.ended):
                en = w.enabled()
                if not en:
                    stuck = ['rank {0}: {1}'.format(r, w.pending[r][0]) for r in range(w.n)
                             if not w.ended[r]]
                    raise Violation('deadlock: ' + ', '.join(stuck), key='deadlock')
                runs = sorted((t for t in en if t[0] == 'run'), key=lambda t: order.index(t[1]))
                if runs:
                    r = runs[0][1]
                    for i in decided.get(k, ()):
                        w.step(('read', i))
                        trace.append(('read', i))
                    open_ = [(i, m, m.buf.tobytes()) for i, m in enumerate(w.msgs)
                             if m.src == r and m.content is None]
                    can = {t[1] for t in en if t[0] == 'read'}
                    w.step(runs[0])
                    trace.append(runs[0])
                    hit = [i for i, m, b in open_ if m.content is None and m.buf.tobytes() != b
                           and i in can]
                    if hit and k not in decided:
                        races += 1
                        for n in range(1, 1 << len(hit)):
                            todo.append({j: d for j, d in decided.items() if j < k} | {k: [h for x, h in enumerate(hit)
                                                          if n >> x & 1]})
                else:
                    ms = [t for t in en if t[0] == 'match']
                    if ms:
                        pick = decided.get(k)
                        if pick is None:
                            pick = ms[0]
                            todo += [{j: d for j, d in decided.items() if j < k} | {k: m}
                                     for m in ms[1:]]
                        w.step(tuple(pick))
                        trace.append(tuple(pick))
                    else:
                        w.step(en[0])
                        trace.append(en[0])
                k += 1
            execs += 1
            steps += len(trace)
            check(w)
            if execs > limit:
                raise Violation('more than {0} executions'.format(limit), key='limit')
        except Violation as v:
            raise Violation('{0}; schedule {1}'.format(v, show(trace)), key=v.key)
        finally:
            w.stop()
    return execs, steps, races


def explore(make, check, R, limit=200000):
    """
    All schedules of the world make() up to equality of states.  check(world) judges a finished
    execution.  Returns (executions, states, transitions); raises Violation with the schedule.
    """
    seen = set()
    stack = [[]]             # schedules: prefixes to execute
    execs = steps = 0
    while stack:
        prefix = stack.pop()
        w = make()
        trace = []
        try:
            w.start()
            if w.error:
                raise w.error[1]
            for t in prefix:
                w.step(tuple(t))
                trace.append(t)
            while True:
                if all(w.ended):
                    execs += 1
                    check(w)
                    break
                k = w.key()
                if k in seen:
                    break
                seen.add(k)
                if len(seen) > limit:
                    raise Violation('more than {0} states'.format(limit), key='limit')
                ch = w.choices()
                if not ch:
                    stuck = ['rank {0}: {1}'.format(r, w.pending[r][0]) for r in range(w.n)
                             if not w.ended[r]]
                    raise Violation('deadlock: ' + ', '.join(stuck), key='deadlock')
                for t in ch[1:]:
                    stack.append(trace + [t])
                steps += len(ch)
                w.step(ch[0])
                trace.append(ch[0])
        except Violation as v:
            raise Violation('{0}; schedule {1}'.format(v, show(trace)), key=v.key)
        finally:
            w.stop()
    return execs, len(seen), steps
