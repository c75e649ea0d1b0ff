"""C15: a killed and resumed goos plan ends where the uninterrupted one ends."""
import os

import numpy as np

from checks import goosplan as gp
from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 25000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded goos plan run once without faults and "
        "once with up to four crashes or disk errors, loaded and resumed after "
        "each; non-trivial = at least one fault ended a process; distinct by "
        "(plan, faults fired)")
REAL, STUBS, ASSUMPTIONS = gp.REAL_COMP, gp.STUB_COMP, gp.ASSUME
SHRINK_LISTS = ["crashes"]
setup = gp.setup
shrink = gp.shrink


def gen(rng, tier):
    kinds = ("descend", "descend", "set", "set", "freeze", "bounds")
    if rng.random() < 0.4:
        kinds += ("noted", "noted")
    c = gp.gen_plan(rng, kinds)
    c["crashes"] = ip.gen_crashes(rng)
    return c


def run(w, case):
    r = gp.execute(w, case)
    if r is None:
        return
    r0, _, incs, s = r
    m = gp.Model(case)
    for name, got in (("uninterrupted", r0.rec.final),
                      ("resumed", incs[-1].rec.final)):
        bad = gp.same_state(got, m.state())
        w.check(not bad, "wrong-final-state", "%s run ended with %s, expected "
                "%s" % (name, {k: got.get(k) for k in bad},
                        {k: m.state()[k] for k in bad}))
    for k, d in r0.rec.final.items():
        e = incs[-1].rec.final.get(k)
        w.check(e is not None and np.array_equal(d["value"], e["value"]),
                "not-identical", "%s is %s after a resume, %s without" %
                (k, e and e["value"], d["value"]))
    if w.violations or not case["actions"]:
        return
    # Resuming what is already complete changes nothing.
    before = sorted(os.listdir(s.folder))
    again = s.launch()
    w.check(again.status == "ok", "resume-finished-failed", "resuming a "
            "finished plan from %s: %s %r" % (again.rec.resumed, again.status,
                                              again.val))
    if again.status == "ok":
        w.check(not again.rec.runs and
                not gp.same_state(again.rec.final, m.state()),
                "reran-finished", "resuming a finished plan from %s ran %s "
                "and ended with %s" % (again.rec.resumed, again.rec.runs,
                                       again.rec.final))
        w.check(sorted(os.listdir(s.folder)) == before, "logs-changed",
                "resuming a finished plan wrote files")
