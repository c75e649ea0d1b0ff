"""multiprocessing.Pool replacement: worker processes become simulated threads.

Arguments and results still cross a pickle boundary (as they do between real
processes); which task runs when, when a worker dies and when a Ctrl-C arrives
are scheduler decisions.
"""
import multiprocessing
import multiprocessing.pool
import pickle

from . import kernel
from . import primitives


class PoolResult:

    def __init__(self, pool, callback=None, error_callback=None):
        self._pool = pool
        self._event = primitives.SimEvent()
        self._ok = None
        self._value = None
        self._cb = callback
        self._ecb = error_callback

    def _set(self, ok, value):
        self._ok, self._value = ok, value
        if ok and self._cb:
            self._cb(value)
        if not ok and self._ecb:
            self._ecb(value)
        self._event.set()

    def ready(self):
        return self._event.is_set()

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        return self._ok

    def wait(self, timeout=None):
        self._event.wait(timeout)

    def get(self, timeout=None):
        sim = kernel.current_sim()
        if sim is not None and getattr(sim, "pool_interrupt", None):
            sim.pool_interrupt(self)
        if not self._event.wait(timeout):
            raise multiprocessing.TimeoutError
        if sim is not None and getattr(sim, "pool_interrupt", None):
            sim.pool_interrupt(self)
        if not self._ok:
            raise self._value
        return self._value


class _MapResult:

    def __init__(self, parts, chunks=False):
        self._parts = parts

    def get(self, timeout=None):
        return [p.get(timeout) for p in self._parts]

    def wait(self, timeout=None):
        for p in self._parts:
            p.wait(timeout)

    def ready(self):
        return all(p.ready() for p in self._parts)

    def successful(self):
        return all(p.successful() for p in self._parts)

    def __iter__(self):
        for p in self._parts:
            yield p.get()


class SimPool:
    """Real pool semantics on simulated workers. Workers start lazily."""
    instances = []

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if processes is None:
            processes = multiprocessing.cpu_count()
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._processes = processes
        self._state = "RUN"
        self._sim = None
        self.nactive = 0
        self.max_active = 0
        self.submitted = 0
        SimPool.instances.append(self)

    def _ensure(self):
        sim = kernel.ACTIVE
        if self._sim is not sim or sim is None:
            self._sim = sim
            self._queue = primitives.SimSimpleQueue()
            self._workers = []
            self._pending = []
            if sim is not None:
                for i in range(self._processes):
                    t = kernel.SimThread(target=self._worker,
                                         name="PoolWorker-%d" % i, daemon=True)
                    self._workers.append(t)
                    t.start()

    def _worker(self):
        sim = kernel.ACTIVE
        while True:
            item = self._queue.get()
            if item is None or self._state == "TERMINATE":
                return
            res, blob = item
            self.nactive += 1
            self.max_active = max(self.max_active, self.nactive)
            sim.count("pool_tasks")
            try:
                func, args, kwds = pickle.loads(blob)
                fault = getattr(sim, "pool_task_fault", None)
                if fault is not None:
                    fault(self)
                out = (True, func(*args, **kwds))
                sim.yield_point("pool-task")
            except Exception as e:  # pylint: disable=broad-except
                out = (False, e)
            finally:
                self.nactive -= 1
            try:
                out = pickle.loads(pickle.dumps(out))
            except Exception as e:  # pylint: disable=broad-except
                out = (False, multiprocessing.pool.MaybeEncodingError(
                    e, repr(out[1])))
            if self._state == "TERMINATE":
                return
            res._set(*out)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def apply_async(self, func, args=(), kwds=None, callback=None,
                    error_callback=None):
        self._check()
        self._ensure()
        self.submitted += 1
        res = PoolResult(self, callback, error_callback)
        blob = pickle.dumps((func, args, kwds or {}))
        if kernel.ACTIVE is None:
            f, a, k = pickle.loads(blob)
            try:
                res._set(True, f(*a, **k))
            except Exception as e:  # pylint: disable=broad-except
                res._set(False, e)
            return res
        self._queue.put((res, blob))
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return _MapResult([self.apply_async(func, (x,)) for x in iterable])

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        return iter(_MapResult([self.apply_async(func, (x,)) for x in iterable]))

    imap_unordered = imap

    def starmap(self, func, iterable, chunksize=None):
        return _MapResult([self.apply_async(func, tuple(x)) for x in iterable]).get()

    def starmap_async(self, func, iterable, chunksize=None):
        return _MapResult([self.apply_async(func, tuple(x)) for x in iterable])

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            if self._sim is not None and self._sim is kernel.ACTIVE:
                for _ in self._workers:
                    self._queue.put(None)

    def terminate(self):
        self._state = "TERMINATE"
        if self._sim is not None and self._sim is kernel.ACTIVE:
            for _ in self._workers:
                self._queue.put(None)

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._sim is not None and self._sim is kernel.ACTIVE:
            for w in self._workers:
                w.join()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


def install():
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
