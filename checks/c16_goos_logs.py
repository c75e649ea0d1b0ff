"""C16: goos log and checkpoint files are complete, contiguous, never lost."""
import numpy as np

from checks import goosplan as gp
from checks import invplan as ip

LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 20000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded goos plan with up to four crashes or disk "
        "errors, the directory inspected before every filesystem operation and "
        "after every process end; non-trivial = at least one fault ended a "
        "process; distinct by (plan, faults fired)")
REAL, STUBS, ASSUMPTIONS = gp.REAL_COMP, gp.STUB_COMP, gp.ASSUME
SHRINK_LISTS = ["crashes"]
setup = gp.setup
shrink = gp.shrink


def gen(rng, tier):
    kinds = ("descend", "descend", "set", "freeze", "bounds")
    if rng.random() < 0.3:
        kinds += ("scipy", "scipy")
    c = gp.gen_plan(rng, kinds)
    c["crashes"] = ip.gen_crashes(rng)
    for a in c["actions"]:
        if a["kind"] == "descend" and rng.random() < 0.03:
            # Numbers of two and three digits.
            a.update(iters=rng.choice([12, 12, 104]), lr=0.001, log=True)
            break
    return c


def run(w, case):
    r = gp.execute(w, case, watch=True)
    if r is None:
        return
    _, ref, _, s = r
    logs = gp.read_logs(s.folder)
    consistent(w, case, logs)
    checkpoints(w, case, ref.folder, s.folder)
    if any(a["kind"] == "scipy" for a in case["actions"]):
        return
    want = gp.Model(case).logs
    for name, got in (("uninterrupted", gp.read_logs(ref.folder)),
                      ("resumed", logs)):
        if not w.check(sorted(got) == list(range(1, len(want) + 1)),
                       "log-count", "%s run: %d log files, the plan logs %d "
                       "events" % (name, len(got), len(want))):
            continue
        for i, x in enumerate(want):
            g = got[i + 1]
            bad = gp.same_state(g["variable_data"], x["state"])
            ok = w.check(
                not bad and g["action_ptr"] == x["ptr"] and
                g["event"]["iteration"] == x["iteration"], "wrong-record",
                "%s run: log %d is action %s iteration %s with %s, expected "
                "action %d iteration %d with %s" %
                (name, i + 1, g["action_ptr"], g["event"]["iteration"],
                 {k: g["variable_data"].get(k) for k in bad}, x["ptr"],
                 x["iteration"], {k: x["state"][k] for k in bad}))
            mon = g["monitor_data"]
            w.check(set(mon) == set(x["monitors"]) and all(
                ip.close(np.ravel(mon[k]), np.ravel(v))
                for k, v in x["monitors"].items()), "wrong-monitor",
                "%s run: log %d holds monitors %s, expected %s" %
                (name, i + 1, mon, x["monitors"]))
            if not ok:
                break


def consistent(w, case, logs):
    """Monitors of a record are those of the variables in the same record."""
    ptrs = []
    for n in sorted(logs):
        g = logs[n]
        ptrs.append(g["action_ptr"])
        if not w.check(set(g["variable_data"]) == {
                "x%d" % i for i in range(len(case["vars"]))},
                "incomplete-record", "log %d holds the variables %s" %
                (n, sorted(g["variable_data"]))):
            return
        a = case["actions"][g["action_ptr"]]
        w.check(set(g["monitor_data"]) == set(gp.monitor_names(a)),
                "wrong-monitor", "log %d holds monitors %s, the action logs "
                "%s" % (n, sorted(g["monitor_data"]), gp.monitor_names(a)))
        x = [np.array(g["variable_data"]["x%d" % i]["value"])
             for i in range(len(case["vars"]))]
        for k, v in g["monitor_data"].items():
            if k[0] == "x":
                want = x[int(k[1:])]
            else:
                o = case["objs"][int(k[3:])]
                y = gp.value(o["expr"], x)
                want = o["weight"] * np.sum((y - np.resize(o["target"],
                                                           y.shape))**2)
            w.check(ip.close(np.ravel(v), np.ravel(want)), "torn-record", "log %d: "
                    "monitor %s is %s but the logged variables give %s" %
                    (n, k, v, want))
    w.check(ptrs == sorted(ptrs), "log-order",
            "actions are logged in the order %s" % ptrs)


def checkpoints(w, case, *folders):
    """Every finished action has its checkpoint, holding its outcome."""
    scipy = any(a["kind"] == "scipy" for a in case["actions"])
    m = None if scipy else gp.Model(case)
    for f in folders:
        ck = gp.read_chkpts(f)
        if not w.check(sorted(ck) == list(range(len(case["actions"]))),
                       "checkpoints-missing", "%d actions finished, "
                       "checkpoints exist for %s" % (len(case["actions"]),
                                                     sorted(ck))):
            return
        for i, d in ck.items():
            w.check(d["action_ptr"] == i + 1, "wrong-checkpoint", "the "
                    "checkpoint of action %d continues at action %s" %
                    (i, d["action_ptr"]))
            bad = m and gp.same_state(d["variable_data"], m.after[i])
            w.check(not bad, "wrong-checkpoint", "the checkpoint of action %d "
                    "holds %s, expected %s" % (
                        i, {k: d["variable_data"].get(k) for k in bad or ()},
                        {k: m.after[i][k] for k in bad or ()}))
