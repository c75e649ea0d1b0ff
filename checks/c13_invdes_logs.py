"""C13: log and checkpoint files are complete, contiguous and never rewritten."""
import numpy as np

from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 25000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded plan with up to four crashes or disk "
        "errors, the directory inspected before every filesystem operation "
        "and after every process end; non-trivial = at least one fault ended "
        "a process; distinct by (plan, faults fired)")
REAL, STUBS, ASSUMPTIONS = ip.REAL_COMP, ip.STUB_COMP, ip.ASSUME
SHRINK_LISTS = ["crashes"]
setup = ip.setup
shrink = ip.shrink


def gen(rng, tier):
    if rng.random() < 0.3:
        c = ip.gen_plan(rng, trans=("descend", "scipy", "affine", "penalty"),
                        nt=(1, 3))
    else:
        c = ip.gen_plan(rng, trans=("descend", "descend", "affine"),
                        nt=(1, 5))
    c["crashes"] = ip.gen_crashes(rng)
    for t in c["transforms"]:
        if t["kind"] == "descend" and rng.random() < 0.03:
            # Numbers of two and three digits.
            t.update(iters=rng.choice([12, 12, 104]), lr=0.01, log=True)
            break
    return c


def run(w, case):
    r = ip.execute(w, case, watch=True)
    if r is None:
        return
    _, ref, _, folder = r
    logs0, logs = ip.read_logs(ref), ip.read_logs(folder)
    consistent(w, case, logs)
    if any(t["kind"] in ("scipy", "penalty") for t in case["transforms"]):
        return
    want = ip.Model(case).logs
    for name, got in (("uninterrupted", logs0), ("resumed", logs)):
        if not w.check(sorted(got) == list(range(1, len(want) + 1)),
                       "log-count", "%s run: %d log files, the plan logs %d "
                       "events" % (name, len(got), len(want))):
            continue
        for i, x in enumerate(want):
            g = got[i + 1]
            same = (g["transformation"] == x["transformation"] and
                    same_event(g["event"], x["event"]) and
                    ip.close(g["parametrization"]["vector"], x["vector"]))
            w.check(same, "wrong-record", "%s run: log %d is %s %s vector %s, "
                    "expected %s %s vector %s" %
                    (name, i + 1, g["transformation"], g["event"],
                     g["parametrization"]["vector"], x["transformation"],
                     x["event"], x["vector"]))
            mon = g["monitor_data"]
            w.check(set(mon) == set(x["monitor_data"]) and all(
                ip.close(np.ravel(mon[k])[0], v)
                for k, v in x["monitor_data"].items()),
                "wrong-monitor", "%s run: log %d holds monitors %s, expected "
                "%s" % (name, i + 1, mon, x["monitor_data"]))
            w.check(all(ip.close(g["parameters"][k], v)
                        for k, v in x["parameters"].items()
                        if k in g["parameters"]),
                    "wrong-parameter", "%s run: log %d holds parameters %s, "
                    "expected %s" % (name, i + 1, g["parameters"],
                                     x["parameters"]))
            if not same:
                break


def same_event(a, b):
    a, b = dict(a), dict(b)
    va, vb = a.pop("velocity", []), b.pop("velocity", [])
    return a == b and ip.close(va, vb)


def consistent(w, case, logs):
    """Every record describes one moment: monitors match the logged state."""
    m = ip.Model(dict(case, transforms=[]))
    order = []
    for n in sorted(logs):
        g = logs[n]
        i = int(g["transformation"][1:])
        order.append(i)
        x = np.array(g["parametrization"]["vector"])
        for k, v in g["parameters"].items():
            m.p[int(k.split("_")[1])] = v
        for k, v in g["monitor_data"].items():
            want = m.value(case["objs"][int(k.split("_")[1])], x)
            w.check(ip.close(np.ravel(v)[0], want), "torn-record", "log %d: "
                    "monitor %s is %s but the logged vector and parameters "
                    "give %s" % (n, k, v, want))
    w.check(order == sorted(order), "log-order",
            "transformations are logged in the order %s" % order)
