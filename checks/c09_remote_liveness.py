"""C09: remote solves make progress, back off, and clean up after themselves."""
import os

from checks import remotelib as rl

LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 14000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: one or two remote solves with "
        "connection faults that stop at some point; progress is bounded in "
        "virtual time; non-trivial = at least 30 HTTP exchanges; distinct by "
        "(fault plan, outages, outcomes)")
REAL, STUBS = rl.REAL, rl.STUBS
ASSUMPTIONS = ["the server itself eventually solves every request it accepted"]
SHRINK_LISTS = rl.SHRINK_LISTS
setup = rl.setup


def gen(rng, tier):
    c = rl.gen(rng, tier, kinds=["refused", "timeout", "reset_send",
                                 "reset_recv", "short_body", "slow"],
               dense=rng.random() < 0.4, nsolve=(1, 2))
    if rng.random() < 0.25:
        t = rng.choice([0.0, 0.2, 5.0, 60.0])
        c["outages"].append([t, t + rng.choice([300.0, 5000.0, 40000.0])])
    return c


def run(w, case):
    r = rl.simulate(w, case)
    if not w.check(r.status == "ok", "no-progress",
                   "the solves never returned: %s" % (r.val,)):
        return
    for i, o in enumerate(r.outcomes):
        w.check(o[0] == "ok", "gave-up", "solve %d raised %r after connection "
                "faults" % (i, o[1]))
    if w.violations:
        return
    slow = sum(f[1][1] for f in case["faults"] if f[1][0] == "slow")
    per = 90 * max(case["latency"] + [0.01]) + case["pickup"] + \
        case["solve_time"] + 40
    bound = r.net.last_fault_time + slow + 30 + per * len(case["solves"])
    end = max(s[1] for s in r.spans)
    w.check(end <= bound, "late",
            "faults stopped at t=%.1f s and the solves should have returned by "
            "t=%.1f s, but returned at t=%.1f s" %
            (r.net.last_fault_time, bound, end))
    att = r.net.attempts
    for a, b in zip(att, att[1:]):
        failed = not isinstance(a[4], int) and not str(a[4])[:1].isdigit()
        if failed or str(a[4]).endswith("short_body"):
            w.count("probe:backoffs")
            w.check(b[0] - a[1] >= 4.99, "hammering",
                    "a failed %s at t=%.2f was retried after %.2f s" %
                    (a[2], a[1], b[0] - a[1]))
        elif a[2] == b[2] == "GET" and a[3] == b[3]:
            w.check(b[0] - a[1] >= 0.99, "hammering",
                    "%s polled again after %.2f s" % (a[3][-12:], b[0] - a[1]))
    w.check(not os.listdir(r.tmp), "temp-files-left",
            "temporary files left behind: %s" % os.listdir(r.tmp)[:4])
