"""C08: the server sees a request only once all of its inputs are complete."""
from checks import remotelib as rl

LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 14000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: one to three remote solves under a "
        "dense upload fault plan; the server checks what is stored at the "
        "instant a request becomes visible; non-trivial = at least 30 HTTP "
        "exchanges; distinct by (fault plan, outages, outcomes)")
REAL, STUBS = rl.REAL, rl.STUBS
ASSUMPTIONS = ["an aborted upload may leave a truncated file on the server "
               "until the same name is uploaded again"]
SHRINK_LISTS = rl.SHRINK_LISTS
setup = rl.setup


def gen(rng, tier):
    c = rl.gen(rng, tier, kinds=["refused", "timeout", "reset_send",
                                 "reset_send", "reset_recv", "short_body",
                                 "http_error"],
               dense=rng.random() < 0.6, nsolve=(1, 3),
               conc=rng.random() < 0.3)
    # Concentrate on the upload phase.
    for f in c["faults"]:
        if rng.random() < 0.6:
            f[0] = 1 + f[0] % 28
    c["faults"] = sorted({f[0]: f for f in c["faults"]}.values(),
                         key=lambda f: f[0])
    return c


def run(w, case):
    r = rl.simulate(w, case)
    left = list(range(len(case["solves"])))
    for rid, snap in sorted(r.server.req_snap.items()):
        missing = [k for k in rl.INPUTS if k not in snap]
        torn = [k for k in rl.INPUTS if k in snap and not snap[k][0]]
        if not w.check(not missing, "missing-inputs",
                       "a request was visible on the server before %s" %
                       missing[:4]):
            continue
        if not w.check(not torn, "torn-inputs",
                       "a request was visible while %s were only partly "
                       "uploaded" % torn[:4]):
            continue
        try:
            got = rl.decode({k: v[1] for k, v in snap.items()})
        except Exception as e:  # pylint: disable=broad-except
            w.violation("unreadable-inputs", "a request was visible on the "
                        "server with unreadable inputs: %r" % (e,))
            continue
        why = [rl.input_mismatch(case["solves"][i], got) for i in left]
        hit = [i for i, x in zip(left, why) if x is None]
        if w.check(bool(hit), "wrong-inputs",
                   "the inputs of a request match none of the solves asked "
                   "for: %s differ" % why):
            left.remove(hit[0])
    for rid, suffix, same in r.server.uploads_after:
        w.check(same, "changed-after-request",
                "%s was changed on the server after its request" % suffix)
    w.count("probe:requests", len(r.server.req_snap))
