"""threading.* look-alikes whose blocking is decided by the simulator."""
import collections

from . import kernel
from .kernel import current_sim, SimKilled


class SimLock:

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = current_sim()
        if sim is None:
            if self._locked and blocking:
                if kernel.ACTIVE is None or kernel.ACTIVE.finished:
                    raise RuntimeError("lock still held after simulation end")
            got = not self._locked
            self._locked = True
            return got
        sim.yield_point("lock")
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = sim.now + timeout
        while self._locked:
            if not blocking:
                return False
            sim.count("lock_contention")
            if deadline is not None and sim.now >= deadline:
                return False
            sim.block(self._waiters, deadline, "lock")
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = current_sim()
        if sim is not None:
            sim.wake(self._waiters)
            if not sim.killed:
                sim.yield_point("unlock")

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = current_sim()
        me = sim.current if sim is not None else "outside"
        if self._owner is me:
            self._count += 1
            return True
        if sim is None:
            self._owner = me
            self._count = 1
            return True
        sim.yield_point("rlock")
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = sim.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            if deadline is not None and sim.now >= deadline:
                return False
            sim.block(self._waiters, deadline, "rlock")
        self._owner = me
        self._count = 1
        return True

    def release(self):
        sim = current_sim()
        me = sim.current if sim is not None else "outside"
        if self._owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if sim is not None:
                sim.wake(self._waiters)
                if not sim.killed:
                    sim.yield_point("runlock")

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        sim = current_sim()
        me = sim.current if sim is not None else "outside"
        return self._owner is me

    def _release_save(self):
        sim = current_sim()
        c = self._count
        self._count = 0
        self._owner = None
        if sim is not None:
            sim.wake(self._waiters)
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimCondition:

    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._cw = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        sim = current_sim()
        if sim is None:
            raise RuntimeError("Condition.wait outside simulation")
        deadline = None if timeout is None else sim.now + max(0.0, timeout)
        if isinstance(self._lock, SimRLock):
            saved = self._lock._release_save()
        else:
            saved = None
            self._lock._locked = False
            sim.wake(self._lock._waiters)
        ok = False
        try:
            ok = sim.block(self._cw, deadline, "cond")
        finally:
            if not sim.killed:
                if saved is not None:
                    self._lock._acquire_restore(saved)
                else:
                    self._lock.acquire()
            elif saved is not None:
                self._lock._owner = sim.current
                self._lock._count = saved
            else:
                self._lock._locked = True
        return ok

    def wait_for(self, predicate, timeout=None):
        sim = current_sim()
        deadline = None if timeout is None else sim.now + timeout
        r = predicate()
        while not r:
            rem = None
            if deadline is not None:
                rem = deadline - sim.now
                if rem <= 0:
                    break
            self.wait(rem)
            r = predicate()
        return r

    def notify(self, n=1):
        sim = current_sim()
        if sim is not None:
            sim.wake(self._cw, n)

    def notify_all(self):
        sim = current_sim()
        if sim is not None:
            sim.wake(self._cw)

    notifyAll = notify_all


class SimSemaphore:

    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._value = value
        self._w = []

    def acquire(self, blocking=True, timeout=None):
        sim = current_sim()
        if sim is None:
            if self._value > 0:
                self._value -= 1
                return True
            return False
        if blocking:
            sim.yield_point("sem")
        deadline = None if timeout is None else sim.now + max(0.0, timeout)
        while self._value == 0:
            if not blocking:
                return False
            if deadline is not None and sim.now >= deadline:
                return False
            sim.block(self._w, deadline, "sem")
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        sim = current_sim()
        if sim is not None:
            sim.wake(self._w)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimBoundedSemaphore(SimSemaphore):

    def __init__(self, value=1):
        super().__init__(value)
        self._initial = value

    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError("Semaphore released too many times")
        super().release(n)


class SimEvent:

    def __init__(self):
        self._flag = False
        self._w = []

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        sim = current_sim()
        if sim is not None:
            sim.wake(self._w)

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        sim = current_sim()
        if sim is None:
            return self._flag
        sim.yield_point("event")
        deadline = None if timeout is None else sim.now + max(0.0, timeout)
        while not self._flag:
            if deadline is not None and sim.now >= deadline:
                return False
            sim.block(self._w, deadline, "event")
        return True

    def _at_fork_reinit(self):
        pass


class SimBarrier:

    def __init__(self, parties, action=None, timeout=None):
        self._parties = parties
        self._action = action
        self._n = 0
        self._gen = 0
        self._w = []

    def wait(self, timeout=None):
        sim = current_sim()
        gen = self._gen
        i = self._n
        self._n += 1
        if self._n == self._parties:
            if self._action:
                self._action()
            self._n = 0
            self._gen += 1
            sim.wake(self._w)
            return i
        while self._gen == gen:
            sim.block(self._w, None, "barrier")
        return i


class SimSimpleQueue:
    """queue.SimpleQueue over simulated blocking."""

    def __init__(self):
        self._q = collections.deque()
        self._sem = SimSemaphore(0)

    def put(self, item, block=True, timeout=None):
        self._q.append(item)
        self._sem.release()
        sim = current_sim()
        if sim is not None and not sim.killed:
            sim.yield_point("put")

    put_nowait = put

    def get(self, block=True, timeout=None):
        import queue
        if not self._sem.acquire(block, timeout):
            raise queue.Empty
        return self._q.popleft()

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)
