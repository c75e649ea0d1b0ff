"""C25: optimizers honour every bound and constraint, also when resumed."""
import numpy as np
import scipy.optimize

from checks import c14_budget
from checks import goosplan as gp
from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 12000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded convex problem (bounds, up to two "
        "equality and three inequality constraints, frozen variables) "
        "optimized by the plan of one of the two stacks, once without faults "
        "and once killed and resumed up to four times; non-trivial = at least "
        "two constraints, or a process was killed; distinct by (problem, "
        "faults fired)")
REAL = gp.REAL_COMP + ip.REAL_COMP
STUBS = gp.STUB_COMP + ip.STUB_COMP[2:]
ASSUMPTIONS = gp.ASSUME + [
    "quadratic objectives with a feasible point; the iteration limit is far "
    "above what the optimizer needs", "the optimum is computed by the harness "
    "with scipy on the whole problem at once"]
SHRINK_LISTS = ["crashes"]


def setup():
    c14_budget.record()
    gp.setup()
    ip.setup()


def gen(rng, tier):
    while True:
        c = _gen(rng)
        if solve(c) is not None:
            return c


BIG = 1e3  # stands for "no bound" in a list of bounds


def gen_bounds(rng, inside):
    """Bounds around a point: none, one pair for all, or one per element."""
    n = len(inside)
    r = rng.random()
    if r < 0.3:
        return None, None
    if r < 0.55:
        return -1.0, 1.0
    lo = [-BIG if rng.random() < 0.25 else
          round(x - rng.uniform(0, 0.6), 3) for x in inside]
    hi = [BIG if rng.random() < 0.25 else
          round(x + rng.uniform(0, 0.6), 3) for x in inside]
    return lo, hi


def gen_cons(rng, inside, neq, nineq):
    cons = {}
    for k, most in (("eq", neq), ("ineq", nineq)):
        cons[k] = []
        for _ in range(rng.randint(0, max(0, most))):
            a = ip.rvec(rng, len(inside))
            b = -float(np.dot(a, inside))
            if k == "ineq":
                b -= round(rng.uniform(0, 0.3), 3)
            cons[k].append([a, b])
    return cons


def _gen(rng):
    goos = rng.random() < 0.5
    nv = rng.randint(1, 3) if goos else 1
    shapes = [rng.choice([[], [1], [2], [3], [2, 2], [1, 2]])
              for _ in range(nv)] if goos else [[rng.randint(2, 5)]]
    sizes = [int(np.prod(s)) for s in shapes]
    size = sum(sizes)
    inside = np.array(ip.rvec(rng, size))
    parts = np.split(inside, np.cumsum(sizes)[:-1])
    frozen = [q > 0 and rng.random() < 0.3 for q in range(nv)]
    free = sum(n for n, f in zip(sizes, frozen) if not f)
    method = rng.choice(["SLSQP"] * 5 + ["L-BFGS-B", "TNC", "COBYLA"])
    if not goos and rng.random() < 0.25:
        method = "penalty"
    bounds = [list(gen_bounds(rng, x)) for x in parts]
    if method == "COBYLA" and not goos:
        bounds = [[None, None]]  # has no bounds there
    cons = {"eq": [], "ineq": []}
    if method not in ("L-BFGS-B", "TNC"):
        cons = gen_cons(rng, inside, 0 if method == "COBYLA" else
                        min(2, free - 1), 3)
    c = {"stack": "goos" if goos else "invdes", "shapes": shapes,
         "bounds": bounds, "cons": cons, "frozen": frozen,
         "init": [float(inside[i]) if f else round(rng.uniform(-0.9, 0.9), 4)
                  for i, f in enumerate(np.repeat(frozen, sizes))],
         "target": [round(rng.uniform(-2, 2), 3) for _ in range(size)],
         "total": round(rng.uniform(-2, 2), 3) if goos else None,
         "method": method, "monitors": rng.random() < 0.8,
         "maximize": goos and rng.random() < 0.25, "before": None,
         "crashes": ip.gen_crashes(rng)}
    if goos and rng.random() < 0.35:
        # Another optimization under other bounds and constraints comes first.
        c["before"] = {"bounds": [list(gen_bounds(rng, x)) for x in parts],
                       "cons": gen_cons(rng, inside, min(2, free - 1), 2),
                       "method": "SLSQP"}
    if rng.random() < 0.1 and nv == 1 and size < 4:
        # Ends at the best of many points it tried, not at the last one.
        c.update(method="Nelder-Mead", bounds=[[None, None]], before=None,
                 cons={"eq": [], "ineq": []}, maximize=False)
    return c


def sizes_of(c):
    return [int(np.prod(s)) for s in c["shapes"]]


def expand(b, n):
    """Lower or upper bounds, one per element."""
    return [None if x is None or abs(x) >= BIG else x
            for x in (b if isinstance(b, list) else [b] * n)]


def objective(c, z):
    f = float(np.sum((z - np.array(c["target"]))**2))
    if c["total"] is not None:
        f += float((np.sum(z) - c["total"])**2)
    return f


def solve(c):
    """The optimum of the whole problem, or None if it is not clear."""
    z0 = np.array(c["init"])
    sizes = sizes_of(c)
    free = np.repeat([not f for f in c["frozen"]], sizes)

    def full(y):
        z = z0.copy()
        z[free] = y
        return z

    cons = [{"type": "eq", "fun": (lambda y, a=a, b=b:
                                   np.dot(a, full(y)) + b)}
            for a, b in c["cons"]["eq"]]
    cons += [{"type": "ineq", "fun": (lambda y, a=a, b=b:
                                      -np.dot(a, full(y)) - b)}
             for a, b in c["cons"]["ineq"]]
    bounds = [p for q, n in enumerate(sizes) for p in
              zip(expand(c["bounds"][q][0], n), expand(c["bounds"][q][1], n))
              if not c["frozen"][q]]
    r = scipy.optimize.minimize(
        lambda y: objective(c, full(y)), z0[free], method="SLSQP",
        bounds=bounds, constraints=cons,
        options={"maxiter": 300, "ftol": 1e-13})
    if not r.success or violated(c, full(r.x), 1e-7) or r.nit > 30:
        return None
    return full(r.x)


def violated(c, z, tol):
    """Names of the bounds and constraints the point breaks."""
    bad = []
    at = 0
    near = tol if c["method"] == "COBYLA" else min(tol, 1e-5)
    for q, n in enumerate(sizes_of(c)):
        x = z[at:at + n]
        if c["frozen"][q]:
            if not np.array_equal(x, c["init"][at:at + n]):
                bad.append("frozen variable %d" % q)
        elif any((lo is not None and v < lo - near) or
                 (hi is not None and v > hi + near)
                 for v, lo, hi in zip(x, expand(c["bounds"][q][0], n),
                                      expand(c["bounds"][q][1], n))):
            bad.append("bounds of variable %d" % q)
        at += n
    for i, (a, b) in enumerate(c["cons"]["eq"]):
        if abs(np.dot(a, z) + b) > tol:
            bad.append("equality constraint %d by %g" % (i, np.dot(a, z) + b))
    for i, (a, b) in enumerate(c["cons"]["ineq"]):
        if np.dot(a, z) + b > tol:
            bad.append("inequality constraint %d by %g" %
                       (i, np.dot(a, z) + b))
    return bad


def inf(b, sign):
    """Bounds as a goos user would write them."""
    if isinstance(b, list):
        return [sign * np.inf if abs(x) >= BIG else x for x in b]
    return b


def run_goos(w, c):
    sizes = sizes_of(c)
    at = np.cumsum([0] + sizes)
    first = c["before"] or c
    vs = [{"init": c["init"][at[q]:at[q + 1]], "shape": c["shapes"][q],
           "lo": inf(first["bounds"][q][0], -1), "hi":
           inf(first["bounds"][q][1], 1), "parameter": False}
          for q in range(len(sizes))]
    for v in vs:
        for k in ("lo", "hi"):
            if not isinstance(v[k], list) and v[k] is not None:
                v[k] = [v[k]] * len(v["init"])
    opt = lambda d: dict(d["cons"], kind="scipy", obj=0, iters=200, ftol=1e-11,
                         method=d["method"], monitors=c["monitors"],
                         maximize=c["maximize"])
    acts = [{"kind": "freeze", "var": q} for q in range(len(sizes))
            if c["frozen"][q]]
    if c["before"]:
        acts.append(opt(c["before"]))
        for q, n in enumerate(sizes):
            lo, hi = [[s * np.inf if x is None else x
                       for x in expand(c["bounds"][q][k], n)]
                      for k, s in ((0, -1), (1, 1))]
            acts.append({"kind": "bounds", "var": q, "lo": lo, "hi": hi})
    acts.append(opt(c))
    case = {"n": 1, "vars": vs, "crashes": c["crashes"],
            "objs": [{"bowl": [c["target"], c["total"]], "heavy": False}],
            "actions": acts}
    r = gp.execute(w, case)
    if r is None:
        return None
    r0, _, incs, _ = r
    return [(np.concatenate([np.ravel(i.rec.final["x%d" % q]["value"])
                             for q in range(len(sizes))]), i.rec)
            for i in (r0, incs[-1])]


def run_invdes(w, c):
    lo, hi = c["bounds"][0]
    b = None if lo is None else lo + hi if isinstance(lo, list) else [lo, hi]
    t = dict(c["cons"], kind="scipy", param=0, set=[], obj=0, maxiter=200,
             ftol=1e-11, method=c["method"], monitors=c["monitors"])
    if c["method"] == "penalty":
        t.update(kind="penalty", con=False, mu0=2.0, tau=1.5, cycles=8,
                 maxiter=100)
    case = {"params": [{"kind": "direct", "init": c["init"], "bounds": b}],
            "parameters": [], "crashes": c["crashes"],
            "objs": [{"target": c["target"], "weight": 1.0, "factor": None,
                      "lin": None}], "transforms": [t]}
    r = ip.execute(w, case)
    if r is None:
        return None
    r0, ref, incs, folder = r
    return [(ip.vectors(ip.read_chkpts(f)["t0"])["param_0"], i.rec)
            for f, i in ((ref, r0), (folder, incs[-1]))]


def run(w, case):
    best = solve(case)
    if best is None:
        return
    f = run_goos if case["stack"] == "goos" else run_invdes
    got = f(w, case)
    k = case["cons"]
    w.nontrivial = w.nontrivial or len(k["eq"]) + len(k["ineq"]) > 1
    w.state_mark(case["stack"], case["method"], len(k["eq"]), len(k["ineq"]),
                 case["frozen"], case["crashes"])
    if got is None:
        return
    tol, ftol = (1e-5, 1e-4) if case["method"] != "penalty" else (1e-2, 2e-2)
    if case["method"] == "COBYLA":
        tol = 1e-3
    for name, (z, rec) in zip(("uninterrupted", "resumed"), got):
        tried = rec.evals
        if rec.results:
            # The design ends where the optimizer ended.
            free = z[np.repeat([not f for f in case["frozen"]],
                               sizes_of(case))]
            w.count("probe:results")
            if not w.check(all(np.min(np.abs(rec.results[-1] - x)) < 1e-7
                               for x in free),
                           "not-the-result", "%s run ended at %s although the "
                           "optimizer returned %s" %
                           (name, z, rec.results[-1])):
                return
        if case["method"] == "Nelder-Mead" and tried:
            a, b = objective(case, z), min(objective(case, x) for x in tried)
            if not w.check(a <= b + 1e-12 * (1 + b), "not-the-result", "%s "
                           "run ended at %s with objective %g although it had "
                           "found %g" % (name, z, a, b)):
                return
            if a > objective(case, best) + 1e-2:
                w.count("probe:not-converged")
            continue
        if case["method"] == "COBYLA" and name == "resumed":
            continue  # starts over, with what is left of the iterations
        bad = violated(case, z, tol)
        if not w.check(not bad, "constraint-violated", "%s run ended with %s, "
                       "which breaks %s" % (name, z, ", ".join(bad))):
            return
        if case["method"] in ("COBYLA", "TNC"):
            continue  # these may stop early
        a, b = objective(case, z), objective(case, best)
        if not w.check(a <= b + ftol * (1 + abs(b)), "not-optimal", "%s run "
                       "ended at %s with objective %g, %s gives %g" %
                       (name, z, a, best, b)):
            return
