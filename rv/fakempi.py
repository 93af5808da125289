"""Thread-based MPI communicator used to observe the real MPI code paths without mpi4py.

Each rank is a thread running the code under test against `Comm`.  Objects are pickled at
send (ranks never share mutable state), messages are FIFO per (source, destination, tag),
every send can be delayed by a seeded random amount, and a waits-for monitor declares a
*logical* deadlock as soon as every unfinished rank is blocked and no message that any of
them could accept is in flight (no wall-clock verdicts).
A collective entered by ranks that disagree on which collective it is, is a mismatch.
"""
import pickle, threading, time, random, traceback

ANY_SOURCE = -1
ANY_TAG = -1


class MPIDeadlock(Exception):
    pass


class MPIMismatch(Exception):
    pass


class MPIAborted(BaseException):
    pass


class _World:
    def __init__(self, size, seed=0, delay=0.0, trace=None):
        self.size = size
        self.cv = threading.Condition(threading.RLock())
        self.rng = random.Random(seed)
        self.delay = delay
        self.waiting = {}          # world rank -> (predicate, description)
        self.done = set()
        self.dead = None           # exception broadcast to every rank
        self.trace = trace if trace is not None else []
        self.nmsg = 0
        self.ncoll = 0
        self.seq = 0

    def log(self, *ev):
        self.trace.append(ev)

    def jitter(self):
        if self.delay:
            time.sleep(self.rng.random() * self.delay)

    def wait(self, rank, pred, desc):
        with self.cv:
            while True:
                if self.dead is not None:
                    raise self.dead
                if pred():
                    self.waiting.pop(rank, None)
                    return
                self.waiting[rank] = (pred, desc)
                self._check()
                if self.dead is not None:
                    raise self.dead
                self.cv.wait(5.0)

    def _check(self):
        live = [r for r in range(self.size) if r not in self.done]
        if live and all(r in self.waiting for r in live) and not any(self.waiting[r][0]() for r in live):
            self.dead = MPIDeadlock('; '.join(f'rank {r}: {self.waiting[r][1]}' for r in live)
                                    + (f'; finished: {sorted(self.done)}' if self.done else ''))
            self.cv.notify_all()

    def finish(self, rank):
        with self.cv:
            self.done.add(rank)
            self.waiting.pop(rank, None)
            self._check()
            self.cv.notify_all()

    def kill(self, exc):
        with self.cv:
            if self.dead is None:
                self.dead = exc
            self.cv.notify_all()


class _Group:
    """state shared by the members of one communicator"""
    def __init__(self, world, members):
        self.world, self.members = world, members
        self.box = {}              # (src, dst) -> list of (tag, payload)
        self.coll = {}             # collective number -> dict(kind, data)
        self.children = {}


class Request:
    def __init__(self, value=None, fn=None):
        self._fn, self._v, self._d = fn, value, fn is None

    def wait(self, status=None):
        if not self._d:
            self._v = self._fn()
            self._d = True
        return self._v

    Wait = wait

    def test(self, status=None):
        return True, self.wait()


class Comm:
    def __init__(self, group, rank):
        self._g, self.rank = group, rank
        self.size = len(group.members)
        self._n = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # ---- point to point
    def send(self, obj, dest, tag=0):
        w = self._g.world
        data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        w.jitter()
        with w.cv:
            if w.dead is not None:
                raise w.dead
            if not 0 <= dest < self.size:
                raise ValueError(f'invalid destination rank {dest}')
            self._g.box.setdefault((self.rank, dest), []).append((tag, data))
            w.nmsg += 1
            w.log('send', self.rank, dest, tag, len(data))
            w.cv.notify_all()

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request()

    def _match(self, source, tag):
        srcs = range(self.size) if source == ANY_SOURCE else [source]
        for s in srcs:
            q = self._g.box.get((s, self.rank), [])
            for i, (t, d) in enumerate(q):
                if tag == ANY_TAG or t == tag:
                    return s, i
        return None

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self._g.world
        me = self._g.members[self.rank]
        w.wait(me, lambda: self._match(source, tag) is not None, f'recv(source={source},tag={tag})')
        with w.cv:
            s, i = self._match(source, tag)
            _, data = self._g.box[(s, self.rank)].pop(i)
        w.jitter()
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(fn=lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, obj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.send(obj, dest, sendtag)
        return self.recv(source=source, tag=recvtag)

    # ---- collectives (all are matched by per-communicator call number)
    def _collective(self, kind, root, payload):
        g, w = self._g, self._g.world
        w.jitter()
        n = self._n
        self._n += 1
        me = g.members[self.rank]
        with w.cv:
            if w.dead is not None:
                raise w.dead
            st = g.coll.setdefault(n, dict(kind=(kind, root), data={}, left=0))
            if st['kind'] != (kind, root):
                w.dead = MPIMismatch(f'collective {n}: rank {self.rank} calls {kind}(root={root}), others {st["kind"]}')
                w.cv.notify_all()
                raise w.dead
            st['data'][self.rank] = payload
            w.ncoll += 1
            w.log(kind, self.rank, root)
            w.cv.notify_all()
        # ranks that only contribute do not have to wait for the others
        if kind == 'barrier' or kind in ('allgather', 'split', 'allreduce', 'alltoall'):
            need = lambda: len(st['data']) == self.size
        elif kind in ('bcast', 'scatter'):
            need = lambda: root in st['data']
        elif kind in ('gather', 'reduce'):
            need = (lambda: len(st['data']) == self.size) if self.rank == root else (lambda: True)
        w.wait(me, need, f'{kind}(root={root}) call #{n}, arrived {sorted(st["data"])}')
        return st['data']

    def barrier(self):
        self._collective('barrier', None, None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        d = self._collective('bcast', root, pickle.dumps(obj) if self.rank == root else None)
        return obj if self.rank == root else pickle.loads(d[root])

    def gather(self, obj, root=0):
        d = self._collective('gather', root, pickle.dumps(obj))
        return [pickle.loads(d[r]) for r in range(self.size)] if self.rank == root else None

    def allgather(self, obj):
        d = self._collective('allgather', None, pickle.dumps(obj))
        return [pickle.loads(d[r]) for r in range(self.size)]

    def scatter(self, obj=None, root=0):
        if self.rank == root:
            obj = list(obj)
            if len(obj) != self.size:
                raise ValueError('scatter: wrong number of items')
        d = self._collective('scatter', root, [pickle.dumps(o) for o in obj] if self.rank == root else None)
        return pickle.loads(d[root][self.rank])

    def alltoall(self, objs):
        d = self._collective('alltoall', None, [pickle.dumps(o) for o in objs])
        return [pickle.loads(d[r][self.rank]) for r in range(self.size)]

    def allreduce(self, obj, op=None):
        d = self._collective('allreduce', None, obj)
        v = [d[r] for r in range(self.size)]
        f = op if callable(op) else (lambda a, b: a + b)
        out = v[0]
        for x in v[1:]:
            out = f(out, x)
        return out

    def reduce(self, obj, op=None, root=0):
        d = self._collective('reduce', root, obj)
        if self.rank != root:
            return None
        v = [d[r] for r in range(self.size)]
        f = op if callable(op) else (lambda a, b: a + b)
        out = v[0]
        for x in v[1:]:
            out = f(out, x)
        return out

    def Split(self, color=0, key=0):
        d = self._collective('split', None, (color, key))
        n = self._n
        mem = sorted([r for r in range(self.size) if d[r][0] == color], key=lambda r: (d[r][1], r))
        g = self._g
        with g.world.cv:
            child = g.children.setdefault((n, color), _Group(g.world, [g.members[r] for r in mem]))
        return Comm(child, mem.index(self.rank))

    def Abort(self, errorcode=0):
        self._g.world.kill(MPIAborted(f'Abort({errorcode}) by rank {self.rank}'))
        raise MPIAborted(f'Abort({errorcode}) by rank {self.rank}')

    def unreceived(self):
        return sum(len(q) for q in self._g.box.values())

    def __reduce__(self):
        raise TypeError('communicators cannot be pickled')


class RunResult:
    def __init__(self):
        self.values, self.errors = {}, {}
        self.deadlock = self.mismatch = self.aborted = None
        self.leftover = 0
        self.nmsg = self.ncoll = 0
        self.trace = []

    @property
    def ok(self):
        return not self.errors and self.deadlock is None and self.mismatch is None and self.aborted is None

    def describe(self):
        if self.errors:
            r = min(self.errors)
            return f'rank {r}: ' + ''.join(traceback.format_exception(self.errors[r]))[-1500:]
        return f'deadlock={self.deadlock} mismatch={self.mismatch} aborted={self.aborted}'


def run(size, fn, seed=0, delay=0.0):
    """fn(comm) on every rank; returns a RunResult (never hangs)"""
    world = _World(size, seed, delay)
    group = _Group(world, list(range(size)))
    res = RunResult()

    def body(r):
        try:
            res.values[r] = fn(Comm(group, r))
        except MPIDeadlock as e:
            res.deadlock = str(e)
        except MPIMismatch as e:
            res.mismatch = str(e)
        except MPIAborted as e:
            res.aborted = str(e)
        except BaseException as e:
            res.errors[r] = e
            world.kill(MPIAborted(f'rank {r} raised {type(e).__name__}'))
        finally:
            world.finish(r)

    th = [threading.Thread(target=body, args=(r,), daemon=True, name=f'rank{r}') for r in range(size)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    res.leftover = sum(len(q) for q in group.box.values())
    res.nmsg, res.ncoll, res.trace = world.nmsg, world.ncoll, world.trace
    if res.errors:
        res.aborted = None
    return res
