"""Simulated worker pools.

multiprocessing.Pool, multiprocessing.pool.ThreadPool, concurrent.futures
executors and joblib.Parallel are replaced by stand-ins whose every scheduling
decision (chunking, which worker takes which chunk, whose result arrives next)
and every fault comes from the plan.  Process pools keep real forked workers
and real pickling in both directions, driven in lockstep, so that state left
in a worker by an earlier chunk is visible to a later one.

plan:  {"choices": [int, ...],
        "faults": [{"kind": ..., "at": n}, ...]}
fault kinds: raise (the n-th task raises in its worker), kill (the worker is
killed while running its n-th chunk), spawn (the n-th worker cannot be
forked), reply (the n-th chunk's result cannot be sent back), slow (the n-th
chunk is the last one to finish), interrupt (KeyboardInterrupt while waiting).
"""
import concurrent.futures as cf
import concurrent.futures.process
import concurrent.futures.thread
import errno
import functools
import math
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import signal
import struct
import sys
import traceback

from .seams import CallFaults

EXC = {"memory": lambda: MemoryError("injected allocation failure"),
       "value": lambda: ValueError("injected failure"),
       "os": lambda: OSError(errno.EIO, "injected I/O error"),
       "float": lambda: FloatingPointError("injected failure"),
       "type": lambda: TypeError("injected failure"),
       "index": lambda: IndexError("injected failure"),
       "stop": lambda: StopIteration("injected failure"),
       "zero": lambda: ZeroDivisionError("injected failure")}


class SimHang(BaseException):
    """Nothing left that could ever wake the caller up."""


class World(object):
    def __init__(self, plan):
        self.choices = list(plan.get("choices", []))
        self.faults = [dict(f) for f in plan.get("faults", [])]
        self.pos = 0
        self.log = []
        self.tasks = 0
        self.chunks = 0
        self.spawned = 0
        self.waits = 0
        self.fired = []
        self.pools = []

    def choose(self, n):
        if n <= 1:
            return 0
        c = self.choices[self.pos] if self.pos < len(self.choices) else 0
        self.pos += 1
        return c % n

    def fault(self, kind, at):
        for f in self.faults:
            if f["kind"] == kind and f["at"] == at and not f.get("done"):
                f["done"] = True
                self.fired.append("%s@%d" % (kind, at))
                return f
        return None

    def faults_in(self, kind, lo, hi):
        for f in self.faults:
            if f["kind"] == kind and lo <= f["at"] < hi and \
                    not f.get("done"):
                f["done"] = True
                self.fired.append("%s@%d" % (kind, f["at"]))
                return f
        return None


W = None          # the current world


# ------------------------------------------------------------------- workers
def _write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv[:65536])
        mv = mv[n:]


def _read(fd):
    def exact(n):
        b = bytearray()
        while len(b) < n:
            c = os.read(fd, min(1 << 16, n - len(b)))
            if not c:
                raise EOFError
            b += c
        return bytes(b)
    return exact(struct.unpack("<Q", exact(8))[0])


class ProcWorker(object):
    def __init__(self, wid, initializer, initargs):
        self.wid = wid
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.tx, self.rx = w1, r2
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _serve(r1, w2, initializer, initargs)
            except EOFError:
                pass
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.alive = True

    def run(self, payload, fault):
        _write(self.tx, pickle.dumps((fault, payload)))
        return pickle.loads(_read(self.rx))

    def stop(self):
        if self.alive:
            self.alive = False
            os.close(self.tx)
            os.close(self.rx)
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)


def _serve(rx, tx, initializer, initargs):
    if initializer is not None:
        initializer(*initargs)
    while True:
        fault, payload = pickle.loads(_read(rx))
        _write(tx, _do(payload, fault))


def _do(payload, fault):
    """Unpickle, run and pickle one chunk: [(ok, value), ...]"""
    func, items, star = pickle.loads(payload)
    res = _run_chunk(func, items, star, fault)
    if fault and fault["kind"] == "reply":
        return pickle.dumps((False, ("encode", "injected: result too large")))
    try:
        return pickle.dumps((True, res), protocol=4)
    except Exception as e:
        return pickle.dumps((False, ("encode", repr(e))))


def _run_chunk(func, items, star, fault):
    out = []
    for i, it in enumerate(items):
        try:
            if fault and fault["kind"] == "raise" and fault["at"] == i:
                raise EXC[fault.get("exc", "value")]()
            if fault and fault["kind"] == "inner" and fault["at"] == i:
                out.append((True, _inner(func, it, star, fault)))
                continue
            out.append((True, func(*it) if star else func(it)))
        except Exception as e:
            out.append((False, e))
            break                       # a real chunk stops at its first error
    return out


def _inner(func, it, star, fault):
    """A library call the task makes fails inside the worker."""
    with CallFaults(fault["k"], EXC[fault["exc"]]) as cf:
        res = func(*it) if star else func(it)
    if cf.fired is None:                # fewer calls than that: fail here
        raise EXC[fault["exc"]]()
    return res


class LocalWorker(object):
    """A thread-pool worker: same process."""
    def __init__(self, wid, initializer, initargs):
        self.wid = wid
        self.alive = True
        if initializer is not None:
            initializer(*initargs)

    def stop(self):
        self.alive = False


# --------------------------------------------------------------------- engine
class Chunk(object):
    def __init__(self, cid, first, payload, live, n, done):
        self.cid, self.first, self.payload = cid, first, payload
        self.live, self.n, self.done = live, n, done


class Engine(object):
    """Queue, workers and the scheduler of one pool."""

    def __init__(self, nproc, procs=True, initializer=None, initargs=(),
                 lazy=False):
        if nproc is None:
            nproc = 3
        if nproc < 1:
            raise ValueError("Number of processes must be at least 1")
        self.nproc = nproc
        self.procs = procs
        self.init = (initializer, tuple(initargs))
        self.queue = []
        self.workers = []
        self.busy = {}
        self.lost = 0
        self.broken = False
        self.closed = False
        self.on_broken = None
        W.pools.append(self)
        if not lazy:
            self.spawn_all()

    def spawn_all(self):
        try:
            while len(self.workers) < self.nproc:
                self._spawn()
        except OSError:
            if self.on_broken is None:
                self.stop()          # multiprocessing.Pool cleans up,
            raise                    # a ProcessPoolExecutor does not

    def _spawn(self):
        n = W.spawned
        W.spawned += 1
        if self.procs and W.fault("spawn", n):
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        cls = ProcWorker if self.procs else LocalWorker
        self.workers.append(cls(n, *self.init))

    def put(self, func, items, star, done, first=None):
        """Queue one chunk; done(kind, value) is called when it is over."""
        first = W.tasks
        W.tasks += len(items)
        cid = W.chunks
        W.chunks += 1
        payload = None
        if self.procs:
            try:
                payload = pickle.dumps((func, items, star), protocol=4)
            except Exception as e:
                done("error", e)
                return
        self.queue.append(Chunk(cid, first, payload, (func, items, star),
                                len(items), done))

    def enabled(self):
        if self.broken or not self.workers:
            return False
        return bool(self.busy) or bool(self.queue)

    def step(self):
        """One scheduling decision.  False: nothing can ever happen."""
        if not self.enabled():
            return False
        idle = [w for w in range(len(self.workers)) if w not in self.busy]
        acts = []
        if self.queue and idle:
            acts.append("take")
        slow = [f["at"] for f in W.faults if f["kind"] == "slow"]
        fast = [w for w in sorted(self.busy)
                if self.busy[w].cid not in slow]
        ready = fast or (sorted(self.busy) if not (self.queue and idle)
                         else [])
        if ready:
            acts.append("finish")
        act = acts[W.choose(len(acts))]
        if act == "take":
            w = idle[W.choose(len(idle))]
            self.busy[w] = self.queue.pop(0)
            W.log.append(("take", w, self.busy[w].cid))
            return True
        w = ready[W.choose(len(ready))]
        ch = self.busy.pop(w)
        if ch.cid in slow:
            W.fired.append("slow@%d" % ch.cid)
        W.log.append(("finish", w, ch.cid))
        if self.procs and W.fault("kill", ch.cid):
            self.workers[w].stop()
            W.log.append(("killed", w, ch.cid))
            self._died(w, ch)
            return True
        fault = None
        f = W.faults_in("raise", ch.first, ch.first + ch.n) or \
            W.faults_in("inner", ch.first, ch.first + ch.n)
        if f:
            fault = dict(f, at=f["at"] - ch.first)
        elif self.procs and W.fault("reply", ch.cid):
            fault = {"kind": "reply"}
        if self.procs:
            ok, res = self.workers[w].run(ch.payload, fault)
        else:
            ok, res = True, _run_chunk(*(ch.live + (fault,)))
        if not ok:
            ch.done("error", multiprocessing.pool.MaybeEncodingError(
                res[1], "chunk %d" % ch.cid))
        else:
            ch.done("results", res)
        return True

    def _died(self, w, ch):
        if self.on_broken is not None:
            self.broken = True
            chunks = [ch] + list(self.busy.values()) + self.queue
            self.busy, self.queue = {}, []
            self.stop_workers()
            for c in chunks:
                self.on_broken(c)
            return
        self.lost += 1               # multiprocessing.Pool forgets the task
        cls = ProcWorker if self.procs else LocalWorker
        self.workers[w] = cls(W.spawned, *self.init)
        W.spawned += 1

    def wait(self, cond):
        W.waits += 1
        if W.fault("interrupt", W.waits - 1):
            for _ in range(W.choose(4)):
                self.step()
            raise KeyboardInterrupt("injected interrupt")
        while not cond():
            if not self.step():
                raise SimHang("waiting for a result that can never arrive")

    def stop_workers(self):
        for w in self.workers:
            w.stop()
        self.workers = []

    def stop(self):
        self.closed = True
        self.queue, self.busy = [], {}
        self.stop_workers()


# --------------------------------------------------------- multiprocessing API
class Result(object):
    def __init__(self, eng, nchunks, single=False, callback=None,
                 error_callback=None):
        self.eng = eng
        self.left = nchunks
        self.parts = [None] * nchunks
        self.err = None
        self.single = single
        self.cb, self.ecb = callback, error_callback
        if not nchunks:
            self._finish()

    def part(self, i):
        def done(kind, val):
            self.left -= 1
            if kind == "error":
                if self.err is None:
                    self.err = val
            else:
                bad = [v for ok, v in val if not ok]
                if bad and self.err is None:
                    self.err = bad[0]
                self.parts[i] = [v for ok, v in val if ok]
            if self.left == 0:
                self._finish()
        return done

    def _finish(self):
        if self.err is None and self.cb:
            self.cb(self._value())
        elif self.err is not None and self.ecb:
            self.ecb(self.err)

    def _value(self):
        if self.single:
            return self.parts[0][0]
        return [v for p in self.parts for v in p]

    def ready(self):
        return self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        return self.err is None

    def wait(self, timeout=None):
        if timeout is not None:
            for _ in range(W.choose(6)):
                if self.ready() or not self.eng.step():
                    break
            return
        self.eng.wait(self.ready)

    def get(self, timeout=None):
        if timeout is not None:
            self.wait(timeout)
            if not self.ready():
                raise multiprocessing.TimeoutError
        else:
            self.wait()
        if self.err is not None:
            raise self.err
        return self._value()


class SimPool(object):
    procs = True

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self.eng = Engine(processes, self.procs, initializer, initargs)
        self._processes = self.eng.nproc

    def _check(self):
        if self.eng.closed:
            raise ValueError("Pool not running")

    def _chunks(self, items, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.eng.nproc * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        return [items[i:i + chunksize]
                for i in range(0, len(items), chunksize)]

    def _map(self, func, iterable, chunksize, star, cb=None, ecb=None):
        self._check()
        chunks = self._chunks(list(iterable), chunksize)
        res = Result(self.eng, len(chunks), False, cb, ecb)
        for i, c in enumerate(chunks):
            self.eng.put(func, c, star, res.part(i))
        return res

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, False).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, True).get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._map(func, iterable, chunksize, False, callback,
                         error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._map(func, iterable, chunksize, True, callback,
                         error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        self._check()
        res = Result(self.eng, 1, True, callback, error_callback)
        self.eng.put(functools.partial(_apply, func, tuple(args), dict(kwds)),
                     [None], False, res.part(0))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1, _unordered=False):
        self._check()
        return _Imap(self, func, iterable, chunksize, _unordered)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self.imap(func, iterable, chunksize, True)

    def close(self):
        self.eng.closed = True

    def terminate(self):
        self.eng.stop()

    def join(self):
        if not self.eng.closed:
            raise ValueError("Pool is still running")
        while self.eng.step():
            pass
        if self.eng.lost:
            pass
        self.eng.stop()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class SimThreadPool(SimPool):
    procs = False

    def __init__(self, processes=None, initializer=None, initargs=()):
        SimPool.__init__(self, processes, initializer, initargs)


def _apply(func, args, kwds, _):
    return func(*args, **kwds)


class _Imap(object):
    def __init__(self, pool, func, iterable, chunksize, unordered):
        self.eng = pool.eng
        self.ready = []
        self.order = {}
        self.next_i = 0
        self.total = 0
        self.unordered = unordered
        items = list(iterable)
        self.n = len(items)
        k = 0
        for i in range(0, self.n, chunksize):
            c = items[i:i + chunksize]
            self.eng.put(func, c, False, self._done(k, len(c)))
            k += len(c)

    def _done(self, base, n):
        def done(kind, val):
            if kind == "error":
                out = [("err", val)] * n
            else:
                out = [("ok", v) if ok else ("err", v) for ok, v in val]
                while len(out) < n:
                    out.append(out[-1])
            for j, o in enumerate(out):
                self.order[base + j] = o
                self.ready.append(base + j)
        return done

    def __iter__(self):
        return self

    def __next__(self, timeout=None):
        if self.next_i >= self.n:
            raise StopIteration
        if self.unordered:
            self.eng.wait(lambda: len(self.ready) > self.next_i)
            i = self.ready[self.next_i]
        else:
            self.eng.wait(lambda: self.next_i in self.order)
            i = self.next_i
        self.next_i += 1
        kind, v = self.order[i]
        if kind == "err":
            raise v
        return v
    next = __next__


# -------------------------------------------------------- concurrent.futures
class SimFuture(cf.Future):
    eng = None

    def _drive(self, timeout):
        if timeout is not None:
            for _ in range(W.choose(6)):
                if self.done() or not self.eng.step():
                    break
            return
        self.eng.wait(self.done)

    def result(self, timeout=None):
        self._drive(timeout)
        return cf.Future.result(self, 0)

    def exception(self, timeout=None):
        self._drive(timeout)
        return cf.Future.exception(self, 0)


class _Exec(cf.Executor):
    procs = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), max_tasks_per_child=None,
                 thread_name_prefix=""):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.eng = Engine(max_workers, self.procs, initializer, initargs,
                          lazy=True)
        self.eng.on_broken = self._break
        self._futs = {}
        self._max_workers = self.eng.nproc

    def _break(self, chunk):
        chunk.done("error", cf.process.BrokenProcessPool(
            "A process in the process pool was terminated abruptly"))

    def submit(self, fn, /, *args, **kw):
        if self.eng.broken:
            raise cf.process.BrokenProcessPool("pool is broken")
        if self.eng.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self.eng.spawn_all()
        f = SimFuture()
        f.eng = self.eng

        def done(kind, val):
            if not f.set_running_or_notify_cancel():
                return
            if kind == "error":
                f.set_exception(val)
            else:
                ok, v = val[0]
                (f.set_result if ok else f.set_exception)(v)
        self.eng.put(functools.partial(_apply, fn, args, kw), [None], False,
                     done)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        if not self.procs:
            chunksize = 1
        items = list(zip(*iterables))
        fs = [self.submit(_chunk_map, fn, items[i:i + chunksize])
              for i in range(0, len(items), chunksize)]

        def gen():
            try:
                for f in fs:
                    for v in f.result():
                        yield v
            finally:
                for f in fs:
                    f.cancel()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if wait and not cancel_futures:
            while self.eng.step():
                pass
        if len(self.eng.workers) == self.eng.nproc or self.eng.broken:
            self.eng.stop()
        self.eng.closed = True


def _chunk_map(fn, items):
    return [fn(*a) for a in items]


class SimProcessExecutor(_Exec):
    procs = True


class SimThreadExecutor(_Exec):
    procs = False


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    seen = []
    order = []
    for f in fs:
        f.add_done_callback(order.append)
    while len(seen) < len(fs):
        new = [f for f in order if f not in seen]
        if new:
            seen.append(new[0])
            yield new[0]
            continue
        eng = [f.eng for f in fs if not f.done()][0]
        n = len(order)
        eng.wait(lambda: len(order) > n)


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)

    def enough():
        d = [f for f in fs if f.done()]
        if len(d) == len(fs):
            return True
        if return_when == cf.FIRST_COMPLETED:
            return bool(d)
        if return_when == cf.FIRST_EXCEPTION:
            return any(f.exception() for f in d)
        return False
    order = sorted(fs, key=id)
    if timeout is None:
        while not enough():
            eng = [f.eng for f in order if not f.done()][0]
            if not eng.step():
                raise SimHang("waiting for futures that can never finish")
    d = set(f for f in fs if f.done())
    return cf._base.DoneAndNotDoneFutures(d, fs - d)


# ------------------------------------------------------------------- joblib
class SimParallel(object):
    """joblib.Parallel: tasks run in a seeded order, results in task order."""

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs or 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __call__(self, iterable):
        tasks = list(iterable)
        out = [None] * len(tasks)
        left = list(range(len(tasks)))
        while left:
            i = left.pop(W.choose(len(left)))
            W.log.append(("job", i, len(tasks)))
            n = W.tasks
            W.tasks += 1
            f = W.fault("raise", n)
            if f:
                raise EXC[f.get("exc", "value")]()
            func, args, kw = tasks[i]
            out[i] = func(*args, **kw)
        return out


# --------------------------------------------------------------------- install
def install(plan):
    """Replace every pool the process can reach (call in a forked child)."""
    global W
    W = World(plan)
    orig = {}

    def sub(new, *olds):
        for o in olds:
            orig[o] = new
    sub(SimPool, multiprocessing.Pool, multiprocessing.pool.Pool)
    sub(SimThreadPool, multiprocessing.pool.ThreadPool)
    sub(SimProcessExecutor, cf.process.ProcessPoolExecutor)
    sub(SimThreadExecutor, cf.thread.ThreadPoolExecutor)
    sub(sim_as_completed, cf.as_completed)
    sub(sim_wait, cf.wait)
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.context.BaseContext.Pool = \
        lambda self, *a, **k: SimPool(*a, **k)
    cf.ProcessPoolExecutor = cf.process.ProcessPoolExecutor = \
        SimProcessExecutor
    cf.ThreadPoolExecutor = cf.thread.ThreadPoolExecutor = SimThreadExecutor
    cf.as_completed = sim_as_completed
    cf.wait = sim_wait
    import joblib
    orig[joblib.Parallel] = SimParallel
    import sklearn.utils.parallel
    orig[sklearn.utils.parallel.Parallel] = SimParallel
    mods = [m for n, m in list(sys.modules.items())
            if m is not None and (n.startswith("turbustat") or
                                  n.startswith("sklearn.metrics") or
                                  n == "sklearn.utils.parallel" or
                                  n == "joblib")]
    for m in mods:
        for k, v in list(vars(m).items()):
            try:
                new = orig.get(v)
            except TypeError:
                continue
            if new is not None:
                setattr(m, k, new)
    return W
