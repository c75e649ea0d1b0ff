"""One simulated run: sets up the world, calls the check, collects the outcome."""
import hashlib
import json
import os
import shutil
import traceback

from . import env
from . import kernel
from . import runner
from . import simfs

_real_open = env.REAL["open"]


class World:
    """Handed to a check's `run(world, case)`."""

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.features = set()
        self.nontrivial = False
        self.sample = None
        self.counters = {}
        self.vtime = 0.0
        self.steps = 0
        self.hash = hashlib.sha256()
        self.state = hashlib.sha256()
        self.sched = hashlib.sha256()
        self.decisions = []
        self.events = []
        self.fired = []
        self.root = os.path.join(runner.scratch_dir(), "w")
        self.nsims = 0

    # -- oracles ------------------------------------------------------------
    def violation(self, kind, msg, sig=None):
        self.violations.append({"kind": kind, "sig": sig or kind,
                                "msg": str(msg)[:1500]})
        self.note("VIOLATION", kind)

    def check(self, cond, kind, msg, sig=None):
        if not cond:
            self.violation(kind, msg, sig)
        return cond

    def note(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.hash.update(s.encode("utf-8", "replace") + b"\n")
        self.events.append(s[:300])

    def feature(self, f):
        self.features.add(f)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def state_mark(self, *parts):
        self.state.update(" ".join(str(p) for p in parts).encode())

    # -- simulations -----------------------------------------------------------
    def sim(self, **kw):
        """A new Sim for this case (a run may use several, e.g. restarts)."""
        case = self.case
        kw.setdefault("strategy", case.get("strategy", "random"))
        sched = case.get("schedule")
        if sched is not None:
            sched = [e[1:] for e in sched if e[0] == self.nsims]
        s = kernel.Sim("%s#%d" % (case.get("sched_seed", case.get("run")),
                                  self.nsims), schedule=sched, **kw)
        s.cpu_knob = case.get("cpus", 4)
        s.simno = self.nsims
        self.nsims += 1
        return s

    def run_sim(self, sim, fn, fs=None):
        env.begin_run(sim.seed, sim)
        try:
            if fs is not None:
                with simfs.active(fs):
                    status, val = sim.run(fn)
            else:
                status, val = sim.run(fn)
        finally:
            env.end_run()
        self.decisions += [[sim.simno, st, tid] for st, tid in sim.decisions]
        self.absorb(sim, fs)
        return status, val

    def absorb(self, sim, fs=None):
        for k, n in sim.counters.items():
            self.count(k, n)
        self.vtime += sim.now
        self.steps += sim.step
        self.hash.update(sim.digest().encode())
        self.sched.update(sim._sched_hash.digest())
        self.events += sim.events
        if fs is not None:
            self.fired += fs.fired

    def mkroot(self, name="d"):
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p


def execute(check, case):
    w = World(case)
    os.makedirs(w.root, exist_ok=True)
    try:
        check.run(w, case)
    except Exception as e:  # pylint: disable=broad-except
        # An error nobody asked for that comes out of the code under test is
        # a violation; anything else is a harness error.
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(env.REPO + "/") for f in frames):
            raise
        w.violation("unexpected-error", "%r from %s" % (e, " <- ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno)
            for f in reversed(frames[-6:]))))
    finally:
        shutil.rmtree(runner.scratch_dir(), ignore_errors=True)
    return {
        "violations": w.violations,
        "digest": w.hash.hexdigest(),
        "state_digest": w.state.hexdigest(),
        "sched_digest": w.sched.hexdigest()[:16] if w.steps else "",
        "decisions": w.decisions,
        "counters": w.counters,
        "vtime": w.vtime,
        "steps": w.steps,
        "features": sorted(w.features),
        "nontrivial": w.nontrivial,
        "sample": w.sample,
        "events": (w.events if case.get("keep_log") else
                   w.events[-400:] if w.violations else []),
        "fired": w.fired,
    }
