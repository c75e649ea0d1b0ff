"""C20: a checkpoint carries all state of a parametrization that matters."""
from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 20000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded plan over direct, cubic, hermite, grating "
        "and composite parametrizations with up to four crashes or disk "
        "errors; non-trivial = at least one fault ended a process; distinct "
        "by (plan, faults fired)")
REAL, STUBS, ASSUMPTIONS = ip.REAL_COMP, ip.STUB_COMP, ip.ASSUME
SHRINK_LISTS = ["crashes"]
setup = ip.setup
shrink = ip.shrink

KINDS = ("direct", "cubic", "hermite", "grating", "composite")


def gen(rng, tier):
    c = ip.gen_plan(rng, kinds=KINDS, nt=(1, 1))
    c["params"] = []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(KINDS)
        n = {"direct": rng.randint(4, 8), "grating": rng.choice([2, 4])}.get(
            kind, rng.randint(2, 4))
        if kind == "composite" and rng.random() < 0.5:
            n = rng.randint(11, 14)
        init = [round(rng.random(), 4) for _ in range(n)]
        c["params"].append({"kind": kind, "init": init, "bounds":
                            rng.choice([None, [-5.0, 5.0]])
                            if kind not in ("cubic", "hermite") else None})
    direct = [i for i, p in enumerate(c["params"]) if p["kind"] == "direct"]
    ts = []
    for _ in range(rng.randint(2, 6)):
        pi = rng.randrange(len(c["params"]))
        kind = c["params"][pi]["kind"]
        k = rng.choice(["descend", "descend", "affine", "special", "probe",
                        "probe"])
        if k == "special":
            if kind in ("cubic", "hermite"):
                k = "setk"
            elif kind == "grating" and direct:
                k = "edgefit"
            else:
                k = "descend"
        if kind == "composite" and k == "descend":
            k = "affine"  # its gradient cannot be back-propagated
        t = {"kind": k, "param": pi, "set": []}
        if c["parameters"] and rng.random() < 0.3:
            t["set"].append({"parameter": rng.randrange(len(c["parameters"])),
                             "coef": ip.rvec(rng, 2),
                             "offset": round(rng.uniform(2, 3), 3),
                             "param": rng.randrange(len(c["params"])),
                             "inverse": rng.random() < 0.4})
        if k == "descend":
            t.update(obj=rng.randrange(len(c["objs"])),
                     iters=rng.randint(1, 4), lr=0.01,
                     beta=rng.choice([0.0, 0.5]), monitors=True, log=True)
        elif k == "affine":
            t.update(a=rng.choice([0.5, 1.1]), b=round(rng.random(), 3),
                     parameter=None)
        elif k == "setk":
            t["k"] = rng.choice([0.0, 0.75, 1.0, 2.5, 3.0, 9.0])
        elif k == "edgefit":
            t["source"] = rng.choice(direct)
            t["feature"] = rng.choice([1.0, 1.6])
        ts.append(t)
    c["transforms"] = ts
    c["crashes"] = ip.gen_crashes(rng)
    return c


def run(w, case):
    r = ip.execute(w, case)
    if r is None:
        return
    r0, _, incs, _ = r
    want = dict(r0.rec.probes)
    seen = 0
    for k, inc in enumerate(incs):
        for tag, snap in inc.rec.probes:
            if k:
                seen += 1
            diff = [f for f in snap if snap[f] != want[tag][f]]
            w.check(not diff, "state-lost", "incarnation %d: at transformation "
                    "%d the %s differs in %s: %s, uninterrupted %s" %
                    (k, tag, snap["type"], diff, [snap[f] for f in diff],
                     [want[tag][f] for f in diff]))
    a, b = r0.rec.objects, incs[-1].rec.objects
    for k in sorted(set(a) & set(b)):
        sa, sb = ip.snapshot(a[k]), ip.snapshot(b[k])
        diff = [f for f in sa if sa[f] != sb[f]]
        w.check(not diff, "final-state-differs", "%s (%s) ends with another "
                "%s: %s, uninterrupted %s" %
                (k, sa["type"], diff, [sb[f] for f in diff],
                 [sa[f] for f in diff]))
    w.count("probe:probes-after-resume", seen)
