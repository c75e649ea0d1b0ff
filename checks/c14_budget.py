"""C14: crashes and resumes do not extend or repeat an iteration budget."""
import os

import numpy as np

from checks import goosplan as gp
from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 20000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded plan of scipy (both stacks) and penalty "
        "optimizations with up to four crashes or disk errors; non-trivial = at least one "
        "fault ended a process; distinct by (plan, faults fired)")
REAL = ip.REAL_COMP + gp.REAL_COMP
STUBS = ip.STUB_COMP + gp.STUB_COMP
ASSUMPTIONS = ip.ASSUME + gp.ASSUME
SHRINK_LISTS = ["crashes"]


def record():
    """Notes every point that scipy accepts or returns."""
    import scipy.optimize
    real = scipy.optimize.minimize
    if getattr(real, "recorded", False):
        return

    def minimize(*args, **kw):
        cb = kw.get("callback")
        if cb is not None:

            def callback(x, *rest):
                rec = gp.CUR if gp.CUR is not None else ip.CUR
                if rec is not None:
                    rec.accepted.append(np.array(x))
                return cb(x, *rest)

            kw["callback"] = callback
        res = real(*args, **kw)
        rec = gp.CUR if gp.CUR is not None else ip.CUR
        if rec is not None:
            rec.results.append(np.array(res["x"]))
        return res

    minimize.recorded = True
    scipy.optimize.minimize = minimize


def setup():
    record()
    ip.setup()
    gp.setup()


def accepted(w, name, pts, recs, exact):
    """Each recorded iteration holds a point that the optimizer accepted.

    Arguments are (number, values) of the records. Points may hold more
    elements (slack variables); the order of elements is not compared.
    """
    if not pts:
        return  # the recorder saw no callback
    w.count("probe:accepted-points", len(pts))

    def match(p, x):
        return np.all(np.isin(np.ravel(x), p))

    if exact and not w.check(len(pts) == len(recs), "iterations-missing",
                             "%s run: %d accepted points, %d records" %
                             (name, len(pts), len(recs))):
        return
    for i, (n, x) in enumerate(recs):
        ok = match(pts[i], x) if exact else any(match(p, x) for p in pts)
        if not w.check(ok, "not-the-iterate", "%s run: log %d holds %s, which "
                       "the optimizer did not accept in that iteration%s" %
                       (name, n, x, " (%s)" % pts[i] if exact else "")):
            return


def shrink(case):
    return (gp if "actions" in case else ip).shrink(case)


def gen_goos(rng):
    while True:
        c = gp.gen_plan(rng, ("scipy", "scipy", "scipy", "set", "freeze"),
                        (1, 4))
        if any(a["kind"] == "scipy" for a in c["actions"]):
            break
    free = all(v["lo"] is None for v in c["vars"])
    for a in c["actions"]:
        if a["kind"] == "scipy" and rng.random() < 0.35:
            a["method"] = rng.choice(["SLSQP"] + ["CG", "BFGS", "Nelder-Mead",
                                                  "Powell"] * free)
    c["crashes"] = ip.gen_crashes(rng)
    return c


def run_goos(w, case):
    r = gp.execute(w, case)
    if r is None:
        return
    r0, ref, incs, s = r
    logs = gp.read_logs(s.folder)
    for name, lg, pts in (
            ("uninterrupted", gp.read_logs(ref.folder), r0.rec.accepted),
            ("resumed", logs, [p for i in incs for p in i.rec.accepted])):
        accepted(w, name, pts, [
            (n, np.concatenate([np.ravel(v["value"]) for v in
                                lg[n]["variable_data"].values()
                                if not v["frozen"]]))
            for n in sorted(lg)
            if case["actions"][lg[n]["action_ptr"]]["kind"] == "scipy"],
            name == "uninterrupted")
    for name, lg in (("uninterrupted", gp.read_logs(ref.folder)),
                     ("resumed", logs)):
        for i, a in enumerate(case["actions"]):
            if a["kind"] != "scipy":
                continue
            its = [lg[n]["event"]["iteration"] for n in sorted(lg)
                   if lg[n]["action_ptr"] == i]
            w.count("probe:goos-scipy-iterations", len(its))
            w.check(its == list(range(1, len(its) + 1)),
                    "iterations-not-contiguous", "%s run: action %d logged "
                    "iterations %s" % (name, i, its))
            w.check(len(its) <= a["iters"], "budget-exceeded", "%s run: action "
                    "%d performed %d iterations with max_iters=%d" %
                    (name, i, len(its), a["iters"]))
    n = 0
    for k, inc in enumerate(incs):
        got = inc.rec.resumed and gp.STEP.match(inc.rec.resumed)
        if not got or not inc.rec.evals:
            continue
        g = logs[int(got.group(1))]
        a = case["actions"][g["action_ptr"]]
        if a["kind"] != "scipy" or g["event"]["iteration"] >= a["iters"]:
            continue
        n += 1
        x = [np.array(g["variable_data"]["x%d" % i]["value"])
             for i in range(len(case["vars"]))]
        want = gp.value(case["objs"][a["obj"]]["expr"], x)
        w.check(ip.close(inc.rec.evals[0], want), "restarted-elsewhere",
                "incarnation %d resumed from %s, where the objective's "
                "argument is %s, but evaluated it at %s first" %
                (k, inc.rec.resumed, want, inc.rec.evals[0]))
    w.count("probe:goos-resumed-mid-optimization", n)
    if not w.violations:
        twice(w, case, ref)


def twice(w, case, ref):
    """Resuming from one log twice in one process does the same twice."""
    from spins import goos
    logs = gp.read_logs(ref.folder)
    own = [n for n in sorted(logs)
           if case["actions"][logs[n]["action_ptr"]]["kind"] == "scipy"]
    if not own:
        return
    path = os.path.join(ref.folder, "step%d.pkl" % own[len(own) // 2])
    out = []

    def body():
        with goos.OptimizationPlan() as p:
            p.load(ref.folder)
            for _ in range(2):
                k = len(gp.CUR.accepted)
                p.resume(path)
                d = p.get_state_dict()["variable_data"]
                out.append([[np.array(x) for x in gp.CUR.accepted[k:]],
                            {v: np.array(d[v]["value"]) for v in d}])

    r = ref.launch(body=body)
    if r.status == "raised":
        raise r.val
    (a, x), (b, y) = out
    w.count("probe:resumed-twice")
    w.check(len(a) == len(b) and all(map(np.array_equal, a, b)) and
            all(np.array_equal(x[v], y[v]) for v in x), "resumed-differently",
            "resuming from %s twice in one process: %d iterations to %s, then "
            "%d to %s" % (os.path.basename(path), len(a), x, len(b), y))


def gen(rng, tier):
    if rng.random() < 0.45:
        return gen_goos(rng)
    c = ip.gen_plan(rng, trans=("scipy", "scipy", "penalty"), nt=(1, 3))
    for t in c["transforms"]:
        t["monitors"] = rng.random() < 0.95
        if t["kind"] == "scipy" and rng.random() < 0.25:
            t["method"] = rng.choice(["SLSQP", "CG", "BFGS", "Nelder-Mead",
                                      "Powell"])
    c["crashes"] = ip.gen_crashes(rng)
    return c


def run(w, case):
    if "actions" in case:
        return run_goos(w, case)
    r = ip.execute(w, case)
    if r is None:
        return
    r0, ref, incs, folder = r
    for name, lg, pts in (
            ("uninterrupted", ip.read_logs(ref), r0.rec.accepted),
            ("resumed", ip.read_logs(folder),
             [p for i in incs for p in i.rec.accepted])):
        accepted(w, name, pts, [
            (n, lg[n]["parametrization"]["vector"]) for n in sorted(lg)
            if lg[n]["event"]["state"] == "optimizing"],
            name == "uninterrupted" and
            all(t["monitors"] for t in case["transforms"]))
    for name, logs in (("uninterrupted", ip.read_logs(ref)),
                       ("resumed", ip.read_logs(folder))):
        for i, t in enumerate(case["transforms"]):
            recs = [logs[n] for n in sorted(logs)
                    if logs[n]["transformation"] == "t%d" % i]
            budget(w, name, i, t, recs)
    if w.violations:
        return
    continues(w, case, incs, folder)


def budget(w, name, i, t, recs):
    states = [g["event"]["state"] for g in recs]
    its = [g["event"]["iteration"] for g in recs
           if g["event"]["state"] == "optimizing"]
    w.check(states[:1] == ["start"] and states[-1:] == ["end"] and
            states.count("start") == states.count("end") == 1,
            "wrong-stages", "%s run: transformation %d logged the stages %s" %
            (name, i, states))
    w.check(its == list(range(1, len(its) + 1)), "iterations-not-contiguous",
            "%s run: transformation %d logged iterations %s" % (name, i, its))
    if t["kind"] == "scipy":
        w.check(len(its) <= t["maxiter"], "budget-exceeded",
                "%s run: transformation %d performed %d iterations with "
                "maxiter=%d" % (name, i, len(its), t["maxiter"]))
        if t["monitors"]:
            w.count("probe:scipy-iterations", len(its))
        return
    cyc = [(g["event"]["cycle_num"], g["event"]["mu"]) for g in recs
           if g["event"]["state"] == "optimizing"]
    w.check(all(a[0] <= b[0] for a, b in zip(cyc, cyc[1:])) and
            all(0 <= c < t["cycles"] for c, _ in cyc), "cycle-order",
            "%s run: transformation %d ran the cycles %s of %d" %
            (name, i, [c for c, _ in cyc], t["cycles"]))
    for c, mu in cyc:
        want = t["mu0"]
        for _ in range(c):
            want = want**t["tau"]
        w.check(ip.close(mu, want), "wrong-mu", "%s run: transformation %d "
                "used mu=%s in cycle %d, the schedule gives %s" %
                (name, i, mu, c, want))


def continues(w, case, incs, folder):
    """A resumed optimization starts from the last logged vector."""
    logs = ip.read_logs(folder)
    n = 0
    for k, inc in enumerate(incs):
        if k and inc.first is not None and inc.resumed_from:
            g = logs.get(inc.resumed_from)
            if g is None or g["event"]["state"] != "optimizing":
                continue
            t = case["transforms"][int(g["transformation"][1:])]
            if t["kind"] != "scipy":
                continue
            its = g["event"]["iteration"]
            if its >= t["maxiter"]:
                continue
            n += 1
            w.check(ip.close(inc.first, g["parametrization"]["vector"]),
                    "restarted-elsewhere", "incarnation %d resumed from log %d "
                    "at %s but evaluated %s first" %
                    (k, inc.resumed_from, g["parametrization"]["vector"],
                     inc.first))
    w.count("probe:resumed-mid-optimization", n)
