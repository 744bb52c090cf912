"""A stand-in for mpi4py that runs several ranks inside one process, under a chosen schedule.

Ranks are threads, but only one runs at a time: control passes to another rank only inside a communication call (or
when a rank ends), and which of the runnable ranks goes next is read off the schedule of the case.  A run is therefore
deterministic and can be replayed.  Every rank has its own numpy random state.  Collective calls must match on all ranks;
a mismatch, a rank that leaves while others wait, buffers of the wrong length and an exception on some of the ranks
only are reported as violations (a real run would hang, be aborted or corrupt memory)."""
import os, pickle, random, sys, threading, traceback, types
import numpy as np
from vp.core import Violation

_local = threading.local()


class Op(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)


def _max(a, b):
    return np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)


def _min(a, b):
    return np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)


class Datatype(object):
    def __init__(self, name, dtype):
        self.name, self.dtype = name, np.dtype(dtype)


class _MPI(types.ModuleType):
    SUM = Op("SUM", lambda a, b: a + b)
    PROD = Op("PROD", lambda a, b: a * b)
    MAX = Op("MAX", _max)
    MIN = Op("MIN", _min)
    INT = Datatype("INT", np.int32)
    LONG = Datatype("LONG", np.int64)
    INT64_T = Datatype("INT64_T", np.int64)
    DOUBLE = Datatype("DOUBLE", np.float64)
    FLOAT = Datatype("FLOAT", np.float32)
    BOOL = Datatype("BOOL", np.bool_)


class World(object):
    def __init__(self, size, schedule=()):
        self.size, self.schedule, self.step = size, list(schedule), 0
        self.posted = [None] * size          # the call a rank waits in
        self.answer = [None] * size
        self.ready = [threading.Semaphore(0) for _ in range(size)]
        self.runnable = set(range(size))
        self.done, self.results, self.errors = set(), [None] * size, [None] * size
        self.main = threading.Semaphore(0)
        self.abort = None
        self.rng = [np.random.RandomState(1000 + r).get_state() for r in range(size)]
        self.calls = 0

    # ---- scheduling
    def pick(self):
        """Hand control to the next rank, or back to the main thread when nothing can run."""
        if self.abort is None and not self.runnable:
            waiting = [r for r in range(self.size) if r not in self.done]
            if waiting:
                if self.done:
                    self.abort = "ranks %s ended while ranks %s wait in %s" % (
                        sorted(self.done), waiting, [self.posted[r][0] for r in waiting])
                else:
                    try:
                        self.complete()
                    except Violation as e:
                        self.abort = str(e)
        if self.abort is not None:
            alive = [r for r in range(self.size) if r not in self.done]
            if alive:
                self.ready[alive[0]].release()      # it raises, ends and passes on
            else:
                self.main.release()
            return
        if not self.runnable:
            self.main.release()
            return
        order = sorted(self.runnable)
        k = self.schedule[self.step % len(self.schedule)] if self.schedule else 0
        self.step += 1
        self.ready[order[k % len(order)]].release()

    def enter(self, r):
        self.ready[r].acquire()
        np.random.set_state(self.rng[r])

    def call(self, name, key, payload):
        r = _local.rank
        self.calls += 1
        self.posted[r] = (name, key, payload)
        self.runnable.discard(r)
        self.rng[r] = np.random.get_state()
        self.pick()
        self.enter(r)
        if self.abort is not None:
            raise Violation(self.abort)
        ans, self.answer[r] = self.answer[r], None
        return ans

    def complete(self):
        names = [p[:2] for p in self.posted]
        if any(n != names[0] for n in names):
            raise Violation("mismatched communication calls on the ranks: %s" % names)
        self.answer = getattr(self, "do_" + names[0][0])([p[2] for p in self.posted], *names[0][1])
        self.posted = [None] * self.size
        self.runnable = set(range(self.size))

    # ---- collective operations; payloads in rank order, result in rank order
    def do_barrier(self, p):
        return [None] * self.size

    def do_allgather(self, p):
        return [[pickle.loads(x) for x in p] for _ in p]

    def do_gather(self, p, root):
        return [[pickle.loads(x) for x in p] if r == root else None for r in range(self.size)]

    def do_bcast(self, p, root):
        return [pickle.loads(p[root]) for _ in p]

    def do_scatter(self, p, root):
        v = pickle.loads(p[root])
        if not hasattr(v, "__len__") or len(v) != self.size:
            raise Violation("scatter of %s items over %d ranks" % (len(v) if hasattr(v, "__len__") else type(v), self.size))
        return [v[r] for r in range(self.size)]

    def do_allreduce(self, p, op):
        out = []
        for _ in p:
            acc = pickle.loads(p[0])
            for x in p[1:]:
                acc = op(acc, pickle.loads(x))
            out.append(acc)
        return out

    def do_Allreduce(self, p, op):
        n = set(len(b) for s in p for b in s)
        if len(n) != 1:
            raise Violation("Allreduce of buffers of different lengths %s" % sorted(n))
        acc = p[0][0].copy()
        for s, _ in p[1:]:
            acc = op(acc, s)
        for _, b in p:
            b[:] = acc
        return [None] * self.size

    def do_Allgather(self, p):
        n = set(len(s) for s, _ in p)
        if len(n) != 1 or any(len(b) != self.size * len(s) for s, b in p):
            raise Violation("Allgather of buffers of lengths %s into %s" % ([len(s) for s, _ in p], [len(b) for _, b in p]))
        whole = np.concatenate([s for s, _ in p])
        for _, b in p:
            b[:] = whole
        return [None] * self.size

    def do_Bcast(self, p, root):
        n = set(len(b) for b in p)
        if len(n) != 1:
            raise Violation("Bcast of buffers of different lengths %s" % sorted(n))
        v = p[root].copy()
        for b in p:
            b[:] = v
        return [None] * self.size

    def do_Scatter(self, p, root):
        v = p[root][0].copy()
        for r, (_, b) in enumerate(p):
            if len(b) * self.size != len(v):
                raise Violation("Scatter of %d items into %d per rank" % (len(v), len(b)))
            b[:] = v[r * len(b):(r + 1) * len(b)]
        return [None] * self.size

    # ---- running
    def run(self, fn):
        """fn(rank) on every rank; the list of results. An exception raised alike on all ranks is raised."""
        saved = np.random.get_state()

        def body(r):
            _local.rank, _local.world = r, self
            self.enter(r)
            try:
                if self.abort is None:
                    self.results[r] = fn(r)
            except BaseException as e:
                self.errors[r] = e
                self.results[r] = traceback.format_exc()
            self.rng[r] = np.random.get_state()
            self.done.add(r)
            self.runnable.discard(r)
            self.posted[r] = None
            self.pick()

        threads = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        self.pick()
        self.main.acquire()
        for t in threads:
            t.join()
        np.random.set_state(saved)
        bad = [r for r in range(self.size) if self.errors[r] is not None and not isinstance(self.errors[r], Violation)]
        if bad and len(bad) == self.size and len(set(type(e) for e in self.errors)) == 1:
            raise self.errors[0]
        if bad:
            raise Violation("rank %d of %d raised %s: %s; others: %s\n%s" % (
                bad[0], self.size, type(self.errors[bad[0]]).__name__, self.errors[bad[0]], self.abort,
                self.results[bad[0]][-1500:]))
        for e in self.errors:
            if e is not None and str(e) != self.abort:
                raise e
        if self.abort is not None:
            raise Violation(self.abort)
        return self.results


def _buf(spec, write):
    """The numpy view of a buffer argument as mpi4py would read it."""
    dt = None
    if isinstance(spec, (list, tuple)):
        spec, dt = spec[0], spec[-1]
    if not isinstance(spec, np.ndarray):
        raise TypeError("not a buffer: %s" % type(spec))
    if not (spec.flags.c_contiguous or spec.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    if write and not spec.flags.writeable:
        raise BufferError("buffer is not writable")
    flat = spec.reshape(-1, order="C" if spec.flags.c_contiguous else "F")
    if flat.size and flat.__array_interface__["data"][0] != spec.__array_interface__["data"][0]:
        raise ValueError("buffer was copied")
    if dt is None:
        return flat
    return flat.view(dt.dtype)


class Comm(object):
    @property
    def _world(self):
        return getattr(_local, "world", None)

    @property
    def size(self):
        return self._world.size if self._world else 1

    @property
    def rank(self):
        return _local.rank if self._world else 0

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def _call(self, name, key, payload):
        w = self._world
        if w is None:
            w = World(1)
            w.posted = [(name, key, payload)]
            return getattr(w, "do_" + name)([payload], *key)[0]
        return w.call(name, key, payload)

    def barrier(self):
        self._call("barrier", (), None)
    Barrier = barrier

    def allgather(self, sendobj):
        return self._call("allgather", (), pickle.dumps(sendobj))

    def gather(self, sendobj, root=0):
        return self._call("gather", (root,), pickle.dumps(sendobj))

    def bcast(self, obj, root=0):
        ans = self._call("bcast", (root,), pickle.dumps(obj if self.rank == root else None))
        return obj if self.rank == root else ans

    def scatter(self, sendobj, root=0):
        return self._call("scatter", (root,), pickle.dumps(sendobj if self.rank == root else None))

    def allreduce(self, sendobj, op=_MPI.SUM):
        return self._call("allreduce", (op,), pickle.dumps(sendobj))

    def Allreduce(self, sendbuf, recvbuf, op=_MPI.SUM):
        self._call("Allreduce", (op,), (_buf(sendbuf, False), _buf(recvbuf, True)))

    def Allgather(self, sendbuf, recvbuf):
        self._call("Allgather", (), (_buf(sendbuf, False), _buf(recvbuf, True)))

    def Bcast(self, buf, root=0):
        self._call("Bcast", (root,), _buf(buf, True))

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._call("Scatter", (root,), (_buf(sendbuf, False) if self.rank == root else None, _buf(recvbuf, True)))


def world():
    """The world the calling thread is a rank of, if it has more than one rank."""
    w = getattr(_local, "world", None)
    return w if w is not None and w.size > 1 else None


def install():
    pkg = types.ModuleType("mpi4py")
    mpi = _MPI("mpi4py.MPI")
    mpi.COMM_WORLD = Comm()
    pkg.MPI = mpi
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mpi
