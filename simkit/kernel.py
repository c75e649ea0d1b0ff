"""Deterministic scheduler.

Every thread of the system under test is a real OS thread that is parked on a
private semaphore; exactly one holds the baton at any instant.  Which thread
gets the baton next is decided here and nowhere else, from one PRNG (search) or
from a recorded sparse decision list (replay / minimisation).  Time is virtual:
when nothing is runnable the clock jumps to the next wake-up.
"""
import _thread
import hashlib
import os
import random
import sys
import threading

# Real primitives, captured before anything is patched.
_real_allocate_lock = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_get_ident = _thread.get_ident


class SimKilled(BaseException):
    """Unwinds a simulated thread (process crash, deadlock, end of run)."""


class SimDeadlock(Exception):
    """No thread can run and no timer is pending."""


class SimStepLimit(Exception):
    """The run used more scheduling steps than its cap."""


RUNNABLE, BLOCKED, DONE = 0, 1, 2

ACTIVE = None  # The Sim currently running in this process, if any.


def current_sim():
    """The active simulation if the calling OS thread is one of its threads."""
    sim = ACTIVE
    if sim is None or sim.finished:
        return None
    cur = sim.current
    if cur is None or cur._ident != _get_ident():
        return None
    return sim


class SimThread:
    """Stands in for threading.Thread (and is what current_thread() returns)."""
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
                 *, daemon=None):
        sim = ACTIVE
        self._sim = sim
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self._tid = None
        self._ident = None
        self._state = None
        self._sem = None
        self._wake_at = None
        self._wake_seq = 0
        self._timed_out = False
        self._waiting_on = None
        self._joiners = []
        self._prio = 0.0
        self._started_flag = False
        self.exc = None
        # Sets of threads iterate in hash order: not by address.
        self._hash = sim.next_object() if sim is not None else 0
        if name is None:
            n = sim.next_thread_name() if sim is not None else 0
            name = "Thread-%d" % n
        self.name = name
        self.daemon = bool(daemon)

    def __hash__(self):
        return self._hash

    # threading.Thread API
    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started_flag:
            raise RuntimeError("threads can only be started once")
        fault = self._sim.spawn_fault
        if fault is not None:
            fault()
        self._started_flag = True
        self._sim._start_thread(self)
        self._sim.yield_point("spawn")

    def join(self, timeout=None):
        sim = self._sim
        if self._state == DONE or sim.finished or current_sim() is None:
            return
        deadline = None if timeout is None else sim.now + max(0.0, timeout)
        while self._state != DONE:
            if deadline is not None and sim.now >= deadline:
                return
            sim.block(self._joiners, deadline, "join")

    def is_alive(self):
        return self._started_flag and self._state != DONE

    isDaemon = lambda self: self.daemon

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    @property
    def ident(self):
        return self._tid + 1000 if self._tid is not None else None

    native_id = ident


class Sim:

    def __init__(self, seed, schedule=None, strategy=None, max_steps=400000,
                 trace_files=None, trace_opcodes=False, trace_every=0,
                 keep_events=400):
        self.seed = seed
        self.rng = random.Random("sched-%s" % (seed,))
        self.replay = None
        if schedule is not None:
            self.replay = {int(k): v for k, v in schedule}
        self.decisions = []  # sparse: (step, tid) where choice != default
        self.strategy = strategy or "random"
        self.now = 0.0
        self.step = 0
        self.switches = 0
        self.max_steps = max_steps
        self.threads = []
        self.current = None
        self.finished = False
        self.killed = False
        self.crashed = False
        self.failure = None
        self._done_lock = _real_allocate_lock()
        self._done_lock.acquire()
        self._hash = hashlib.sha256()
        self._sched_hash = hashlib.sha256()
        self.events = []
        self.keep_events = keep_events
        self.nevents = 0
        self._wake_seq = 0
        self._tname = 0
        self._nobj = 0
        self.spawn_fault = None  # may raise when a thread is started
        self.counters = {}
        self.trace_files = trace_files
        self.trace_opcodes = trace_opcodes
        self.on_line = None  # optional callback at traced lines
        self._next_preempt = None
        self.trace_every = trace_every
        self.trace_count = 0
        # PCT state
        self._pct_points = set()
        if self.strategy == "pct":
            d = self.rng.randint(1, 4)
            self._pct_points = {self.rng.randint(1, 400) for _ in range(d)}
        self._random_p = self.rng.choice([0.1, 0.3, 0.5, 0.9])

    # -- bookkeeping -------------------------------------------------------
    def next_thread_name(self):
        self._tname += 1
        return self._tname

    def next_object(self):
        self._nobj += 1
        return self._nobj

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.nevents += 1
        self._hash.update(s.encode("utf-8", "replace"))
        self._hash.update(b"\n")
        if len(self.events) < self.keep_events:
            self.events.append("%d t=%.3f %s %s" %
                               (self.nevents, self.now,
                                self.current.name if self.current else "-", s))

    def digest(self):
        return self._hash.hexdigest()

    def sched_digest(self):
        return self._sched_hash.hexdigest()[:16]

    # -- threads -----------------------------------------------------------
    def _start_thread(self, th):
        th._sem = _real_allocate_lock()
        th._sem.acquire()
        th._tid = len(self.threads)
        th._state = RUNNABLE
        th._prio = self.rng.random()
        self.threads.append(th)

        def boot():
            th._sem.acquire()
            th._ident = _get_ident()
            threading._active[th._ident] = th
            try:
                if not self.killed:
                    if self.trace_files:
                        sys.settrace(self._trace)
                    th.run()
            except SimKilled:
                pass
            except BaseException as e:  # pylint: disable=broad-except
                th.exc = e
                if th._tid != 0:
                    self.log("thread-exc", type(e).__name__)
            finally:
                sys.settrace(None)
                threading._active.pop(th._ident, None)
                # Anything this thread still owns dies before the baton moves.
                th._target, th._args, th._kwargs = None, (), {}
                self._thread_done(th)

        _real_start_new_thread(boot, ())

    def _thread_done(self, th):
        th._state = DONE
        for j in th._joiners:
            self._make_runnable(j, False)
        th._joiners = []
        nxt = None
        try:
            nxt = self._pick(th, forced=True)
        except SimDeadlock as e:
            self._fail(e)
        if nxt is None and self.killed:
            nxt = self._any_live()
        if nxt is None:
            self.current = None
            self._done_lock.release()
            return
        self.current = nxt
        nxt._sem.release()

    def _any_live(self):
        for t in self.threads:
            if t._state != DONE:
                return t
        return None

    def _fail(self, exc):
        if self.failure is None:
            self.failure = exc
            self.log("sim-failure", type(exc).__name__)
        self.killed = True

    def _make_runnable(self, th, timed_out):
        if th._state == BLOCKED:
            th._state = RUNNABLE
            th._wake_at = None
            th._timed_out = timed_out
            if th._waiting_on is not None:
                try:
                    th._waiting_on.remove(th)
                except ValueError:
                    pass
                th._waiting_on = None

    def _pick(self, cur, forced=False):
        """Chooses the next thread. Returns None if every thread is done."""
        if self.killed:
            return self._any_live()
        runnable = [t for t in self.threads if t._state == RUNNABLE]
        if not runnable:
            timed = [t for t in self.threads
                     if t._state == BLOCKED and t._wake_at is not None]
            if not timed:
                if all(t._state == DONE for t in self.threads):
                    return None
                # Daemon-only leftovers (e.g. idle pool workers) are not a
                # deadlock once the main thread is done.
                if self.threads[0]._state == DONE:
                    self.killed = True
                    return self._any_live()
                raise SimDeadlock(
                    "deadlock: " + ", ".join(
                        "%s blocked" % t.name for t in self.threads
                        if t._state == BLOCKED))
            t0 = min(timed, key=lambda t: (t._wake_at, t._wake_seq))
            if t0._wake_at > self.now:
                self.now = t0._wake_at
            for t in timed:
                if t._wake_at <= self.now:
                    self._make_runnable(t, True)
            runnable = [t for t in self.threads if t._state == RUNNABLE]
        if len(runnable) == 1:
            return runnable[0]
        self.step += 1
        if self.step > self.max_steps:
            raise SimStepLimit("more than %d scheduling steps" % self.max_steps)
        default = cur if cur._state == RUNNABLE else runnable[0]
        if self.replay is not None:
            want = self.replay.get(self.step)
            choice = default
            if want is not None:
                for t in runnable:
                    if t._tid == want:
                        choice = t
        elif self.strategy == "pct":
            if self.step in self._pct_points and cur._state == RUNNABLE:
                cur._prio = -self.rng.random()
            choice = max(runnable, key=lambda t: (t._prio, -t._tid))
        elif self.strategy == "serial":
            choice = default
        else:
            if cur._state != RUNNABLE or self.rng.random() < self._random_p:
                choice = runnable[self.rng.randrange(len(runnable))]
            else:
                choice = default
        if choice is not default:
            self.decisions.append((self.step, choice._tid))
        self._sched_hash.update(b"%d," % choice._tid)
        return choice

    def yield_point(self, tag=""):
        cur = self.current
        if self.killed:
            raise SimKilled()
        try:
            nxt = self._pick(cur)
        except (SimDeadlock, SimStepLimit) as e:
            self._fail(e)
            raise SimKilled()
        if nxt is not cur:
            self._handoff(cur, nxt)

    def _handoff(self, cur, nxt):
        self.switches += 1
        self.current = nxt
        nxt._sem.release()
        cur._sem.acquire()
        if self.killed:
            raise SimKilled()

    def block(self, waitlist, deadline=None, tag=""):
        """Parks the current thread. Returns False if it timed out."""
        cur = self.current
        if self.killed:
            raise SimKilled()
        cur._state = BLOCKED
        cur._timed_out = False
        cur._wake_at = deadline
        self._wake_seq += 1
        cur._wake_seq = self._wake_seq
        if waitlist is not None:
            waitlist.append(cur)
            cur._waiting_on = waitlist
        try:
            nxt = self._pick(cur, forced=True)
        except (SimDeadlock, SimStepLimit) as e:
            self._fail(e)
            cur._state = RUNNABLE
            raise SimKilled()
        if nxt is not cur:
            self._handoff(cur, nxt)
        if self.killed:
            raise SimKilled()
        return not cur._timed_out

    def wake(self, waitlist, n=None):
        ths = list(waitlist) if n is None else list(waitlist)[:n]
        for t in ths:
            self._make_runnable(t, False)

    def sleep(self, dt):
        if dt <= 0:
            self.yield_point("sleep0")
            return
        self.block(None, self.now + float(dt), "sleep")

    def kill_process(self):
        """Simulated process crash: nothing of this process runs any more."""
        self.crashed = True
        self.killed = True
        self.log("CRASH")
        raise SimKilled()

    # -- line / opcode level preemption -------------------------------------
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not self._traced(fn):
            return None
        if self.trace_opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = self.on_line is not None
        return self._local_trace

    _trace_cache = {}

    def _traced(self, fn):
        r = self._trace_cache.get(fn)
        if r is None:
            r = any(p in fn for p in self.trace_files) and "/test_" not in fn
            self._trace_cache[fn] = r
        return r

    def _local_trace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.finished:
                return None
            self.trace_count += 1
            if self.on_line is not None:
                self.on_line(frame)
            if len(self.threads) > 1 and (
                    self.trace_every <= 1 or
                    self.trace_count % self.trace_every == 0):
                self.yield_point("line")
        return self._local_trace

    # -- entry ---------------------------------------------------------------
    def run(self, fn):
        """Runs `fn` as the main simulated thread. Returns (status, value).

        status: 'ok', 'raised' (value: exception), 'crashed', or 'failed'
        (deadlock / step limit; self.failure says which).
        """
        global ACTIVE
        assert ACTIVE is None
        box = {}

        def main():
            box["ret"] = fn()

        ACTIVE = self
        self._trace_cache = {}
        try:
            th = SimThread(target=main, name="main")
            self._start_thread(th)
            self.current = th
            th._sem.release()
            self._done_lock.acquire()
        finally:
            self.finished = True
            ACTIVE = None
        if self.crashed:
            return "crashed", None
        if self.failure is not None:
            return "failed", self.failure
        if th.exc is not None:
            return "raised", th.exc
        if "ret" not in box:
            return "failed", self.failure
        return "ok", box["ret"]
