"""C05: the legacy simulation objects are a linearizable memo of the solver."""
import threading

import numpy as np
import scipy.sparse

from checks import goosgraph as gg
from simkit import kernel

LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: a history of forward and adjoint "
        "requests from one or several caller threads with solver delays and "
        "failures, under one schedule; non-trivial = at least two requests "
        "reached the object; distinct by (history, faults)")
REAL = ["spins.invdes.problem.simulation.FdfdSimulation",
        "spins.invdes.problem.simulation.AdjointFdfdSimulation",
        "spins.fdfd_tools.vec/unvec", "numpy, scipy.sparse"]
STUBS = ["electromagnetic solver (cheap injective function of its arguments, "
         "virtual duration, injected failures)",
         "thread scheduler and locks (simkit)"]
ASSUMPTIONS = ["callers may reuse and overwrite their own structure arrays and "
               "the fields they got between requests"]
DIMS = [2, 1, 2]
N = 3 * 4


class SolverDown(RuntimeError):
    pass


class Solver:

    def __init__(self, sim, fail):
        self.sim, self.fail = sim, set(fail)
        self.calls = 0
        self.active = []
        self.done = []
        self.overlap = []
        self.ok = 0

    def solve(self, **a):
        self.calls += 1
        n = self.calls
        key = _key(a)
        if key in self.active:
            self.overlap.append(key)
        self.active.append(key)
        self.sim.log("solve", n, key)
        try:
            d = (n * 7) % 5
            if d:
                self.sim.sleep(d * 0.5)
            else:
                self.sim.yield_point("solve")
            if n in self.fail:
                self.sim.count("fault:solver-error")
                raise SolverDown("solve %d" % n)
        finally:
            self.active.remove(key)
        self.done.append(key)
        return pure(**a)


def _key(a):
    import hashlib
    h = hashlib.sha256()
    for k in ("omega", "epsilon", "J", "dxes"):
        h.update(np.ascontiguousarray(np.asarray(a[k], dtype=complex)).tobytes()
                 if k != "dxes" else
                 b"".join(np.asarray(x, dtype=complex).tobytes()
                          for g in a[k] for x in g))
    return h.hexdigest()[:12]


def pure(omega, epsilon, J, dxes, mu=None, pec=None, pmc=None, pemc=None,
         symmetry=None, bloch_vec=None, **_):
    """Stand-in for an electromagnetic solve: depends on all its arguments."""
    e = np.asarray(epsilon, dtype=complex)
    j = np.asarray(J, dtype=complex)
    s = sum(np.sum(np.asarray(x) * (i + 1) * (k + 2))
            for i, g in enumerate(dxes) for k, x in enumerate(g))
    for i, x in enumerate((mu, pec, pmc, pemc, symmetry, bloch_vec)):
        if x is not None:
            x = np.asarray(x, dtype=complex)
            s = s + np.sum(x * np.arange(1, len(x) + 1)) * (0.1 + 0.01 * i)
    return (1 + 2j) * omega * e * e + j * (3 - 1j) + np.cumsum(e * j) + s


def fortran(f):
    return None if f is None else np.concatenate(
        [np.ravel(x, order="F") for x in f])


def expected_fwd(c, z):
    a = settings(c)
    return pure(a["omega"], fortran(a["epsilon"]) + a["S"] @ z,
                fortran(a["J"]), a["dxes"], fortran(a["mu"]),
                fortran(a["pec"]), fortran(a["pmc"]), a["pemc"],
                a["symmetry"], a["bloch_vec"])


def expected_adj(c, z, J):
    """A' x = J through the solver of the symmetrized operator.

    All coefficients are conjugated, the source is divided and the result
    multiplied by the cell volumes that symmetrize the operator.
    """
    a = settings(c)
    p, d = a["dxes"]
    vol = []
    for k in range(3):
        g = [d[q] if q != k else p[q] for q in range(3)]
        vol.append(np.ravel(np.einsum("i,j,k->ijk", *g), order="F"))
    vol = np.concatenate(vol)
    conj = lambda x: None if x is None else np.conj(x)
    x = pure(np.conj(a["omega"]), np.conj(fortran(a["epsilon"]) + a["S"] @ z),
             J / vol, [[np.conj(x) for x in g] for g in a["dxes"]],
             conj(fortran(a["mu"])), fortran(a["pec"]), fortran(a["pmc"]),
             None, None, a["bloch_vec"])
    return x * vol


def setup():
    import spins.invdes.problem.simulation  # noqa


def gen(rng, tier):
    nk = rng.randint(1, 4)
    concurrent = rng.random() < 0.7
    nthreads = rng.randint(2, 4) if concurrent else 1
    threads = []
    for _ in range(nthreads):
        ops = []
        for _ in range(rng.randint(1, 5 if concurrent else 14)):
            ops.append([rng.choice(["fwd", "fwd", "adj"]), rng.randrange(nk),
                        rng.randrange(2), rng.random() < 0.5])
        threads.append(ops)
    fail = sorted({rng.randint(1, 8) for _ in range(rng.choice([0, 0, 1, 2]))})
    return {"cache": rng.choice([1, 1, 2, 3]), "nk": nk, "threads": threads,
            "faults": fail, "strategy": rng.choice(gg.SCHED), "cpus": 4,
            "inplace": rng.random() < 0.5, "scribble": rng.random() < 0.3,
            "mu": rng.random() < 0.3, "pec": rng.random() < 0.3,
            "bloch": rng.random() < 0.3,
            # Not supported by adjoint simulations.
            "symmetry": all(o[0] == "fwd" for t in threads for o in t) and
            rng.random() < 0.5,
            "like": [rng.choice(["", "tiny", "last", "order", "half"]),
                     rng.choice(["", "tiny", "last", "order", "half"]),
                     rng.choice(["", "tiny", "sign", "phase", "order"])],
            "trace": rng.choice(["none", "none", "line", "opcode"])}


SHRINK_LISTS = ["faults"]


def shrink(case):
    import copy
    for i in range(len(case["threads"])):
        if len(case["threads"]) > 1:
            c = copy.deepcopy(case)
            del c["threads"][i]
            yield c
        for j in range(len(case["threads"][i])):
            c = copy.deepcopy(case)
            del c["threads"][i][j]
            yield c


def alike(x, how, d):
    """Another array that some comparisons take for the same one."""
    y = np.array(x)
    if how == "tiny":
        y[2] += 1e-7 * d
    elif how == "last":
        y[-1] += d
    elif how == "order":
        y = np.roll(y, int(d / 0.37 + 0.5))
    elif how == "sign":
        y = -y * d
    elif how == "phase":
        y = y * np.exp(1j * d) if np.iscomplexobj(y) else y + d
    elif how == "half":
        y[len(y) // 2:] += d
    else:
        y = y + d
    return y


def settings(c):
    dxes = [[np.array([1.0, 1.5 + 0.2j]) + 0.1 * i, np.array([2.0 - 0.3j * i]),
             np.array([0.5 + 0.2 * i, 0.7])] for i in range(2)]
    ramp = np.arange(4.0).reshape(DIMS)
    on = lambda k, f: [f(i) for i in range(3)] if c.get(k) else None
    return {"omega": 1.5 + 0.25j, "dxes": dxes,
            "J": [0.3 + 1j * i + ramp for i in range(3)],
            "epsilon": [2.0 + i + 0.5j * ramp for i in range(3)],
            "S": np.eye(N)[:, :6] + 0.1 * np.eye(N)[::-1, :6],
            "mu": on("mu", lambda i: 1.0 + 0.1j * i + ramp),
            "pec": on("pec", lambda i: ramp > i),
            "pmc": on("pec", lambda i: ramp < i),
            "pemc": np.array([0, 1, 0, 0, 1, 0]) if c.get("symmetry") else
            np.zeros(6), "symmetry": np.array([0, 1, 1.0])
            if c.get("symmetry") else np.zeros(3),
            "bloch_vec": np.array([0.1, 0.2, 0.3]) if c.get("bloch") else
            np.zeros(3)}


def mk(solver, c):
    from spins.invdes.problem import simulation
    a = settings(c)
    kw = {k: a[k] for k in ("mu", "pec", "pmc", "bloch_vec")}
    if c.get("symmetry"):
        kw.update(pemc=a["pemc"], symmetry=a["symmetry"])
    fs = simulation.FdfdSimulation(
        solver, DIMS, a["omega"], a["dxes"], a["J"],
        scipy.sparse.csr_matrix(a["S"]), a["epsilon"], cache_size=c["cache"],
        **kw)
    return fs, simulation.AdjointFdfdSimulation(fs)


def run(w, case):
    tf = None
    if case["trace"] != "none":
        tf = ["/spins/invdes/problem/simulation"]
    sim = w.sim(trace_files=tf, trace_opcodes=case["trace"] == "opcode")
    z0 = np.linspace(0, 1, 6)
    zs = [z0] + [alike(z0, case["like"][k % 2], 0.37 * k)
                 for k in range(1, case["nk"])]
    J0 = np.linspace(-1, 1, N) * (1 + 1j)
    Js = [J0, alike(J0, case["like"][2], 1.0)]
    want = {}
    for k in range(case["nk"]):
        want["fwd", k, 0] = want["fwd", k, 1] = expected_fwd(case, zs[k])
        for j in range(2):
            want["adj", k, j] = expected_adj(case, zs[k], Js[j])
    solver = Solver(sim, case["faults"])
    nreq = [0]

    def main():
        f, a = mk(solver, case)

        def client(ti, ops):
            buf = np.zeros(6)
            jbuf = np.zeros(N, dtype=complex)
            # Reference for a single caller: least recently used memo.
            lru = {"fwd": [], "adj": []}
            for oi, (kind, k, j, own) in enumerate(ops):
                z, J = zs[k], Js[j]
                if case["inplace"] and own:
                    buf[:] = zs[k]
                    jbuf[:] = Js[j]
                    z, J = buf, jbuf
                before = solver.calls
                nreq[0] += 1
                key = k if kind == "fwd" else (k, j)
                hit = key in lru[kind]
                try:
                    r = f.simulate(z) if kind == "fwd" else a.simulate(z, J)
                except SolverDown:
                    w.count("probe:solver-error-raised")
                    if len(case["threads"]) == 1:
                        w.check(not hit, "lost-entry",
                                "request %d (%s) re-solved a cached structure "
                                "and failed" % (oi, key))
                    continue
                except Exception as e:  # pylint: disable=broad-except
                    w.violation("spurious-error",
                                "request %s raised %r" % ((kind, k, j), e))
                    return
                w.check(np.allclose(r, want[kind, k, j], rtol=1e-10,
                                    atol=1e-12), "stale-fields",
                        "thread %d request %d: %s of structure %d source %d "
                        "did not return the fields of this request" %
                        (ti, oi, kind, k, j))
                if case.get("scribble"):
                    r *= 2
                if len(case["threads"]) == 1:
                    w.check(solver.calls - before == (0 if hit else 1),
                            "memo-miss", "request %d (%s %s): %d solves, the "
                            "memo of size %d should have %s" %
                            (oi, kind, key, solver.calls - before,
                             case["cache"], "hit" if hit else "missed"))
                    if hit:
                        lru[kind].remove(key)
                    lru[kind] = (lru[kind] + [key])[-case["cache"]:]

        ths = [threading.Thread(target=client, args=(i, ops))
               for i, ops in enumerate(case["threads"])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    status, val = w.run_sim(sim, main)
    if status == "failed":
        w.violation("no-progress", "a request never returned: %s" % (val,))
    elif status == "raised":
        raise val
    w.check(not solver.overlap, "duplicate-solve",
            "two identical solves in flight at once: %s" % solver.overlap[:3])
    reqs = [o for t in case["threads"] for o in t]
    if len({o[1] for o in reqs if o[0] == "fwd"}) <= case["cache"] and \
            len({(o[1], o[2]) for o in reqs if o[0] == "adj"}) <= case["cache"]:
        w.count("probe:all-fit-in-cache")
        dup = sorted({k for k in solver.done if solver.done.count(k) > 1})
        w.check(not dup, "solved-again",
                "everything fits in the cache but %s was solved %d times" %
                (dup[:1], solver.done.count(dup[0]) if dup else 0))
    w.nontrivial = nreq[0] > 1
    w.state_mark(case["threads"], case["faults"], case["cache"])
    w.sample = {"threads": case["threads"], "cache": case["cache"],
                "solver_faults": case["faults"], "solves": solver.calls}
