"""Process bootstrap: installs the seams, then imports the code under test.

Must be imported before any `spins` module.  Third-party libraries are imported
first (with the real primitives); from then on every lock, event, queue, thread,
clock, sleep and random source that spins code can reach is simulated.
"""
import os
import sys

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("MPLBACKEND", "agg")
os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
sys.dont_write_bytecode = True

import _thread
import builtins
import concurrent.futures
import concurrent.futures.thread
import copy
import datetime as _datetime_mod
import gc
import glob
import io
import json
import logging
import logging.handlers
import multiprocessing
import multiprocessing.pool
import pathlib
import pickle
import queue
import random
import shutil
import signal
import tempfile
import threading
import time
import uuid
import warnings
import weakref

import h5py
import numpy as np
import pandas
import requests
import requests.adapters
import schematics
import scipy.optimize
import scipy.sparse.linalg
import urllib3
import matplotlib.pyplot

from . import kernel
from . import primitives

REPO = os.environ.get("SIM_REPO", "/repo")

REAL = {
    "Lock": threading.Lock,
    "RLock": threading.RLock,
    "Condition": threading.Condition,
    "Event": threading.Event,
    "Semaphore": threading.Semaphore,
    "BoundedSemaphore": threading.BoundedSemaphore,
    "Barrier": threading.Barrier,
    "Thread": threading.Thread,
    "SimpleQueue": queue.SimpleQueue,
    "sleep": time.sleep,
    "time": time.time,
    "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
    "strftime": time.strftime,
    "localtime": time.localtime,
    "uuid1": uuid.uuid1,
    "uuid4": uuid.uuid4,
    "id": builtins.id,
    "open": builtins.open,
    "cpu_count": os.cpu_count,
    "Pool": multiprocessing.Pool,
    "datetime": _datetime_mod.datetime,
    "get_ident": threading.get_ident,
    "signal": signal.signal,
}

EPOCH = 1500000000.0  # virtual time zero


def _vtime():
    sim = kernel.ACTIVE
    if sim is None:
        return EPOCH
    return EPOCH + sim.wall_offset() + sim.now


def sim_time():
    sim = kernel.current_sim()
    if sim is None:
        return REAL["time"]() if kernel.ACTIVE is None else _vtime()
    return _vtime()


def sim_monotonic():
    sim = kernel.ACTIVE
    if sim is None:
        return REAL["monotonic"]()
    return 1000.0 + sim.now


def sim_perf_counter():
    sim = kernel.ACTIVE
    if sim is None:
        return REAL["perf_counter"]()
    return 1000.0 + sim.now


def sim_sleep(dt):
    sim = kernel.current_sim()
    if sim is None:
        return REAL["sleep"](dt)
    sim.count("sleeps")
    sim.log("sleep %.6f" % dt)
    sim.sleep(dt)


def sim_localtime(secs=None):
    if secs is None:
        secs = sim_time()
    return REAL_GMTIME(secs)


REAL_GMTIME = time.gmtime


def sim_gmtime(secs=None):
    if secs is None:
        secs = sim_time()
    return REAL_GMTIME(secs)


def sim_strftime(fmt, t=None):
    if t is None:
        t = sim_localtime()
    return REAL["strftime"](fmt, t)


def sim_cpu_count():
    sim = kernel.ACTIVE
    if sim is None:
        return REAL["cpu_count"]()
    return getattr(sim, "cpu_knob", 4)


def sim_uuid1(node=None, clock_seq=None):
    sim = kernel.ACTIVE
    if sim is None:
        return REAL["uuid1"](node, clock_seq)
    return sim.make_uuid(1)


def sim_uuid4():
    sim = kernel.ACTIVE
    if sim is None:
        return REAL["uuid4"]()
    return sim.make_uuid(4)


class _SimDateTimeMeta(type(_datetime_mod.datetime)):

    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL["datetime"])


class SimDateTime(_datetime_mod.datetime, metaclass=_SimDateTimeMeta):

    @classmethod
    def now(cls, tz=None):
        if kernel.ACTIVE is None:
            return REAL["datetime"].now(tz)
        return REAL["datetime"].fromtimestamp(_vtime(), tz or _datetime_mod.timezone.utc).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def _wall_offset(self):
    return getattr(self, "clock_offset", 0.0)


def _make_uuid(self, version):
    rng = getattr(self, "_uuid_rng", None)
    if rng is None:
        rng = self._uuid_rng = random.Random("uuid-%s" % (self.seed,))
    if version == 1:
        # Like a real uuid1: unique through its clock field, fixed host part.
        self._uuid_n = getattr(self, "_uuid_n", 0) + 1
        t = 0x1ea0000000000000 // 16 + self._uuid_n * 7919 + rng.randrange(1000)
        return uuid.UUID(fields=(t & 0xffffffff, (t >> 32) & 0xffff,
                                 (t >> 48) & 0x0fff, 0x80 | 5, 7, 0x0242ac110002),
                         version=1)
    return uuid.UUID(int=rng.getrandbits(128), version=4)


kernel.Sim.wall_offset = _wall_offset
kernel.Sim.make_uuid = _make_uuid


# -- object identity --------------------------------------------------------
class IdTable:
    """Replaces id(): seeded numbers, and numbers of dead objects get reused.

    Address reuse is a real source of nondeterminism (an identity that outlives
    its object); here it is a scheduler decision.
    """

    def __init__(self, seed):
        self.rng = random.Random("id-%s" % (seed,))
        self.byaddr = {}
        self.free = []
        self.reused = 0

    def __call__(self, obj):
        a = REAL["id"](obj)
        ent = self.byaddr.get(a)
        if ent is not None:
            return ent[0]
        if self.free and self.rng.random() < 0.6:
            n = self.free.pop(self.rng.randrange(len(self.free)))
            self.reused += 1
        else:
            n = self.rng.randrange(1 << 44) * 16 + 140000000000000
        try:
            ref = weakref.ref(obj, lambda _, a=a, n=n: self._dead(a, n))
        except TypeError:
            ref = obj  # keep it alive: its address can not be reused
        self.byaddr[a] = (n, ref)
        return n

    def _dead(self, a, n):
        self.byaddr.pop(a, None)
        self.free.append(n)


_id_table = None


def sim_id(obj):
    t = _id_table
    if t is None:
        return REAL["id"](obj)
    sim = kernel.ACTIVE
    if sim is None:
        return REAL["id"](obj)
    return t(obj)


def sim_signal(signum, handler):
    """Inside a run handlers belong to the simulated process, not this one."""
    sim = kernel.current_sim()
    if sim is None:
        return REAL["signal"](signum, handler)
    table = sim.__dict__.setdefault("signal_handlers", {})
    old = table.get(int(signum), signal.SIG_DFL)
    table[int(signum)] = handler
    return old


# -- installation -------------------------------------------------------------
def _install():
    threading.Lock = primitives.SimLock
    threading.RLock = primitives.SimRLock
    threading.Condition = primitives.SimCondition
    threading.Event = primitives.SimEvent
    threading.Semaphore = primitives.SimSemaphore
    threading.BoundedSemaphore = primitives.SimBoundedSemaphore
    threading.Barrier = primitives.SimBarrier
    threading.Thread = kernel.SimThread
    queue.SimpleQueue = primitives.SimSimpleQueue
    concurrent.futures.thread._global_shutdown_lock = primitives.SimLock()
    time.sleep = sim_sleep
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.perf_counter = sim_perf_counter
    time.strftime = sim_strftime
    time.localtime = sim_localtime
    time.gmtime = sim_gmtime
    os.cpu_count = sim_cpu_count
    multiprocessing.cpu_count = sim_cpu_count
    uuid.uuid1 = sim_uuid1
    uuid.uuid4 = sim_uuid4
    builtins.id = sim_id
    signal.signal = sim_signal
    _datetime_mod.datetime = SimDateTime
    from . import simpool
    simpool.install()
    from . import simfs
    simfs.install()
    from . import simnet
    simnet.install()
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys.unraisablehook = lambda *_: None


_installed = False


def bootstrap():
    """Installs the seams and imports spins from REPO."""
    global _installed
    if _installed:
        return
    _installed = True
    _install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import spins
    src = os.path.dirname(os.path.abspath(spins.__file__))
    if not src.startswith(REPO + "/"):
        raise RuntimeError("spins imported from %s, not %s" % (src, REPO))


class _Names:
    """Deterministic tempfile name sequence."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "sim%05d" % self.n


def begin_run(seed, sim):
    """Per-run determinism: randomness, ids, temp names, gc."""
    global _id_table
    gc.disable()
    random.seed("rand-%s" % (seed,))
    np.random.seed(int.from_bytes(
        __import__("hashlib").sha256(str(seed).encode()).digest()[:4], "big"))
    tempfile._name_sequence = _Names()
    _id_table = IdTable(seed)
    sim.id_table = _id_table


def end_run():
    global _id_table
    _id_table = None
    gc.enable()
