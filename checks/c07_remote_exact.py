"""C07: a remote solve returns exactly the server's answer to the user's problem."""
from checks import remotelib as rl

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 14000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: one or two remote solves against the "
        "simulated server under a seeded fault plan; non-trivial = at least 30 "
        "HTTP exchanges; distinct by (fault plan, outages, outcomes)")
REAL, STUBS = rl.REAL, rl.STUBS
ASSUMPTIONS = ["the server stores uploads under their key and answers GET with "
               "the stored bytes; it may keep the bytes of an aborted upload"]
SHRINK_LISTS = rl.SHRINK_LISTS
setup = rl.setup


def gen(rng, tier):
    return rl.gen(rng, tier, dense=rng.random() < 0.3, nsolve=(1, 2))


def run(w, case):
    r = rl.simulate(w, case)
    errs = any(f[1][0] == "http_error" for f in case["faults"])
    for i, (s, o) in enumerate(zip(case["solves"], r.outcomes)):
        if o is None:
            continue
        if o[0] == "ok":
            w.check(rl.correct(s, o[1]), "wrong-fields",
                    "solve %d returned fields that are not the solution of the "
                    "problem it was given" % i)
        else:
            w.count("probe:solve-raised")
            if isinstance(o[1], rl.ServerFailed):
                w.violation("unusable-inputs", "solve %d: the server was asked "
                            "to solve unusable inputs: %s" % (i, o[1]))
                continue
            w.check(errs, "gave-up",
                    "solve %d raised %r although the server only suffered "
                    "connection faults; at %s" % (i, o[1], o[2]))
    w.check(r.status == "ok", "no-progress",
            "the solves never returned: %s" % (r.val,))
