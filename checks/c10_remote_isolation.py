"""C10: concurrent remote solves never see each other's data."""
import copy

from checks import remotelib as rl

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 12000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: two to four concurrent remote solves "
        "sharing a client, a server, a temp directory and the process-wide "
        "random state, under one schedule and fault plan; non-trivial = at "
        "least 30 HTTP exchanges; distinct by (fault plan, outages, outcomes)")
REAL, STUBS = rl.REAL, rl.STUBS
ASSUMPTIONS = ["uuid1 yields distinct values within one host"]
SHRINK_LISTS = rl.SHRINK_LISTS
setup = rl.setup


def gen(rng, tier):
    c = rl.gen(rng, tier, nsolve=(2, 4), conc=True)
    if rng.random() < 0.5:
        # Same problem shape, only the permittivity and source differ.
        base = c["solves"][0]
        for s in c["solves"][1:]:
            seed = s["seed"]
            s.clear()
            s.update(copy.deepcopy(base), seed=seed)
    if rng.random() < 0.15:
        c["solves"][1] = copy.deepcopy(c["solves"][0])
    return c


def run(w, case):
    r = rl.simulate(w, case)
    errs = any(f[1][0] == "http_error" for f in case["faults"])
    for i, (s, o) in enumerate(zip(case["solves"], r.outcomes)):
        if o is None:
            continue
        if o[0] == "ok":
            w.check(rl.correct(s, o[1]), "wrong-fields",
                    "concurrent solve %d got fields that do not solve its own "
                    "problem" % i)
        elif isinstance(o[1], rl.ServerFailed):
            w.violation("mixed-inputs", "solve %d: the server was sent unusable "
                        "inputs: %s" % (i, o[1]))
        else:
            w.check(errs, "gave-up", "solve %d raised %r" % (i, o[1:]))
    w.check(r.status == "ok", "no-progress",
            "the solves never returned: %s" % (r.val,))
    if not w.violations:
        left = list(case["solves"])
        for rid, got in sorted(r.server.solved.items()):
            hit = [s for s in left if rl.input_mismatch(s, got) is None]
            if not w.check(bool(hit), "mixed-inputs",
                           "a request mixed the inputs of several solves"):
                break
            left.remove(hit[0])
