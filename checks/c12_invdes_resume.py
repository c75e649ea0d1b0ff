"""C12: a crashed and resumed plan ends where the uninterrupted one ends."""
import os

import numpy as np

from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 30000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded plan run once without faults and once "
        "with up to four crashes or disk errors, resumed after each; "
        "non-trivial = at least one fault ended a process; distinct by (plan, "
        "faults fired)")
REAL, STUBS, ASSUMPTIONS = ip.REAL_COMP, ip.STUB_COMP, ip.ASSUME
SHRINK_LISTS = ["crashes"]
setup = ip.setup
shrink = ip.shrink


def gen(rng, tier):
    c = ip.gen_plan(rng, ("direct", "direct", "drawn"))
    c["crashes"] = ip.gen_crashes(rng)
    c["first_resume"] = rng.random() < 0.2
    return c


def run(w, case):
    r = ip.execute(w, case, first_resume=case["first_resume"])
    if r is None:
        return
    r0, ref, incs, folder = r
    m = ip.Model(case)
    chk0, chk = ip.read_chkpts(ref), ip.read_chkpts(folder)
    w.check(set(chk) == set(chk0) ==
            {"t%d" % i for i in range(len(case["transforms"]))},
            "checkpoint-missing", "checkpoints %s, expected one for each of %d "
            "transformations" % (sorted(chk), len(case["transforms"])))
    for i, want in enumerate(m.chkpts):
        for name, c in (("uninterrupted", chk0), ("resumed", chk)):
            got = c.get("t%d" % i)
            if got is None:
                continue
            v = ip.vectors(got)
            for k, x in want["parametrizations"].items():
                if k not in v and k not in want["must"]:
                    continue
                w.check(k in v and ip.close(v[k], x), "wrong-state",
                        "%s run: after transformation %d %s is %s, expected %s"
                        % (name, i, k, v.get(k), x), "wrong-state")
            for k, x in want["parameters"].items():
                if k not in got["parameters"] and k not in want["must"]:
                    continue
                w.check(k in got["parameters"] and
                        ip.close(got["parameters"][k], x), "wrong-parameter",
                        "%s run: after transformation %d parameter %s is %s, "
                        "expected %s" % (name, i, k,
                                         got["parameters"].get(k), x))
    a, b = r0.rec.objects, incs[-1].rec.objects
    for k in b:
        i = int(k.split("_")[1])
        if i in m.x:
            w.check(ip.close(b[k].to_vector(), m.x[i]), "wrong-final-state",
                    "resumed run ended with %s = %s, expected %s" %
                    (k, b[k].to_vector(), m.x[i]))
            if k in a:
                w.check(np.array_equal(a[k].to_vector(), b[k].to_vector()),
                        "not-identical", "%s differs from the uninterrupted "
                        "run: %s vs %s" % (k, b[k].to_vector(),
                                           a[k].to_vector()))
    exported(w, case, m, folder, "resumed run")
    # Resuming a finished plan changes nothing.
    before = {k: v["parametrizations"] for k, v in chk.items()}
    logs = ip.read_logs(folder)
    again = ip.launch(w, ip.build(case), folder, True)
    w.check(again.status == "ok", "resume-finished-failed",
            "resuming a finished plan: %s %r" % (again.status, again.val))
    w.check(not again.rec.steps, "reran-finished", "resuming a finished plan "
            "ran %s again" % again.rec.steps)
    w.check(sorted(ip.read_logs(folder)) == sorted(logs), "logs-changed",
            "resuming a finished plan wrote log files")
    exported(w, case, m, folder, "finished run that was resumed again")


def exported(w, case, m, folder, name):
    """The final design of a parametrization that can be drawn."""
    last = case["transforms"][-1]["param"]
    if case["params"][last]["kind"] != "drawn":
        return
    got = ip.read_gds(os.path.join(folder, "spins_design.gds"))
    want = sorted(np.sort(np.ravel(p)).tolist()
                  for p in ip.drawing(m.vec(last), 1.0))
    w.count("probe:exported-designs")
    w.check(np.shape(got) == np.shape(want) and
            np.allclose(got, want, atol=1.5), "wrong-export", "%s: the exported "
            "design is %s, expected %s" % (name, got, want))
