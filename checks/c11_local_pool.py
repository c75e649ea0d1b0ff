"""C11: the local parallel solver gives every caller its own exact answer."""
import threading

import numpy as np

from checks import goosgraph as gg
from checks import remotelib as rl

LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: several callers solving different "
        "problems on one worker pool, with failing worker tasks or a keyboard "
        "interrupt, under one schedule; non-trivial = at least two solves "
        "reached the pool; distinct by (problems, faults)")
REAL = ["spins.fdfd_solvers.local_matrix_solvers (MultiprocessingSolver, "
        "DirectSolver, problem assembly)", "scipy sparse direct solver",
        "pickling of matrices, right-hand sides and results"]
STUBS = ["multiprocessing.Pool (simulated workers behind a pickle boundary)",
         "signal delivery", "thread scheduler (simkit)"]
ASSUMPTIONS = ["a pool worker may fail a task with an exception; a worker "
               "process killed by the OS is not handled by multiprocessing.Pool "
               "itself and is not simulated",
               "Python delivers a keyboard interrupt to the main thread only"]
SHRINK_LISTS = ["faults", "callers"]


class TaskFailed(RuntimeError):
    pass


def gen(rng, tier):
    nc = rng.randint(1, 4)
    solves = [dict(rl.gen_solve(rng), eig=0) for _ in range(rng.randint(1, 4))]
    for s in solves:
        s["E0"] = False
    callers = [[rng.randrange(len(solves)) for _ in range(rng.randint(1, 3))]
               for _ in range(nc)]
    total = sum(map(len, callers))
    faults = sorted({rng.randint(1, total)
                     for _ in range(rng.choice([0, 0, 1, 2]))})
    interrupt = rng.randint(1, 2 * total) if nc == 1 and rng.random() < 0.5 \
        else 0
    return {"solves": solves, "callers": callers, "faults": faults,
            "interrupt": interrupt, "procs": rng.choice([1, 2, 4]),
            "default_procs": rng.random() < 0.2, "cpus": rng.choice([1, 2, 4]),
            "durations": [rng.choice([0.0, 0.5, 3.0, 3.0, 4000.0]) for _ in range(5)],
            "strategy": rng.choice(gg.SCHED),
            "trace": rng.choice(["none", "none", "line"])}


def run(w, case):
    from spins.fdfd_solvers import local_matrix_solvers as lms
    from simkit import simpool
    tf = ["/fdfd_solvers/local_matrix_solvers"] if case["trace"] != "none" \
        else None
    sim = w.sim(trace_files=tf)
    st = {"n": 0, "failed": [], "gets": 0, "interrupted": False}

    def task(pool):
        st["n"] += 1
        n = st["n"]
        sim.sleep(case["durations"][n % len(case["durations"])])
        if n in case["faults"]:
            sim.count("fault:pool-task")
            st["failed"].append(n)
            raise TaskFailed("task %d" % n)

    def interrupt(res):
        st["gets"] += 1
        if case["interrupt"] and st["gets"] == case["interrupt"]:
            st["interrupted"] = True
            sim.count("fault:keyboard-interrupt")
            raise KeyboardInterrupt()

    sim.pool_task_fault = task
    sim.pool_interrupt = interrupt
    refs = [rl.reference(s) for s in case["solves"]]
    args = [rl.args_of(s) for s in case["solves"]]
    out = []

    def caller(solver, ci, seq):
        for k, pi in enumerate(seq):
            try:
                out.append((ci, k, pi, "ok", solver.solve(**args[pi])))
            except TaskFailed as e:
                out.append((ci, k, pi, "failed", e))
            except KeyboardInterrupt:
                out.append((ci, k, pi, "interrupted", None))
                return

    def main():
        npool = len(simpool.SimPool.instances)
        solver = lms.MultiprocessingSolver(
            lms.DirectSolver(), *([] if case["default_procs"] else
                                  [case["procs"]]))
        procs = case["cpus"] if case["default_procs"] else case["procs"]
        if len(case["callers"]) == 1:
            caller(solver, 0, case["callers"][0])
        else:
            ts = [threading.Thread(target=caller, args=(solver, i, seq))
                  for i, seq in enumerate(case["callers"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        pools = simpool.SimPool.instances[npool:]
        for p in pools:
            w.count("probe:pool-max-active-%d" % p.max_active)
            w.check(p.max_active <= procs, "too-many-workers",
                    "%d solves ran at once on %d processes" %
                    (p.max_active, procs))

    status, val = w.run_sim(sim, main)
    if status == "failed":
        w.violation("no-progress", "a solve never returned: %s" % (val,))
    elif status == "raised":
        raise val
    w.nontrivial = st["n"] > 1
    w.count("probe:solves", st["n"])
    nfailed = 0
    for ci, k, pi, kind, v in out:
        if kind == "ok":
            w.check(v is not None and np.shape(v) == np.shape(refs[pi]) and
                    np.allclose(v, refs[pi], rtol=1e-8, atol=1e-11),
                    "wrong-fields", "caller %d solve %d got %s, which does not "
                    "solve its own problem" % (ci, k, type(v).__name__))
        elif kind == "failed":
            nfailed += 1
        else:
            w.check(st["interrupted"], "spurious-interrupt", "interrupt out of "
                    "nowhere")
    if status == "ok" and not st["interrupted"]:
        w.check(nfailed == len(st["failed"]), "lost-failure",
                "%d solver tasks failed but %d solves raised" %
                (len(st["failed"]), nfailed))
        w.check(len(out) == sum(map(len, case["callers"])), "lost-solve",
                "some solves never returned a result")
    if st["interrupted"]:
        w.check(any(o[3] == "interrupted" for o in out), "lost-interrupt",
                "a keyboard interrupt during a solve was swallowed")
    w.state_mark([s["seed"] for s in case["solves"]], case["callers"],
                 case["faults"], case["interrupt"])
    w.sample = {"callers": case["callers"], "faults": case["faults"],
                "interrupt": case["interrupt"], "procs": case["procs"]}
