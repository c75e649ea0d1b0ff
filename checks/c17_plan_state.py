"""C17: only actions change a goos plan, and a failing one leaves it usable."""
import copy
import errno
import os

import numpy as np

from checks import goosplan as gp
from checks import invplan as ip
from simkit import simfs

LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded history of 4-22 calls on a plan (adding, "
        "running and failing actions, modifications from outside, evaluations, "
        "nested plans, checkpoints and rollbacks, in-place changes of arrays "
        "handed in or out), state compared with a model after every call; "
        "non-trivial = an action failed or a forbidden call was made; distinct "
        "by history")
REAL, STUBS = gp.REAL_COMP, gp.STUB_COMP
ASSUMPTIONS = ["an action that fails is run again from the state it left by "
               "the next run()"]
SHRINK_LISTS = ["ops"]
setup = gp.setup
ERRORS = {"ValueError": ValueError, "RuntimeError": RuntimeError,
          "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError,
          "KeyboardInterrupt": KeyboardInterrupt}


# -- generation -----------------------------------------------------------------
def gen(rng, tier):
    while True:
        c = gp._gen_plan(rng, na=(0, 0))
        c["autorun"] = rng.random() < 0.25
        c["save"] = rng.random() < 0.6
        c["ops"] = [gen_op(rng, c) for _ in range(rng.randint(4, 22))]
        if rng.random() < 0.15:
            c["ops"][rng.randrange(len(c["ops"])):] = gen_retry(rng, c)
        m = Model(c)
        big = 0.0
        with np.errstate(all="ignore"):
            for i, o in enumerate(c["ops"]):
                m.apply(i, o)
                big = max([big] + [np.max(np.abs(x)) for x in m.x])
        if np.isfinite(big) and big < 1e3:
            return c


def gen_retry(rng, c):
    """Resuming in the middle of an action, then failing in the next one."""
    def descend(fault):
        d = {"op": "action", "kind": "descend",
             "var": 0, "obj": rng.randrange(len(c["objs"])),
             "iters": rng.randint(2, 4), "lr": 0.02,
             "beta": rng.choice([0., .5]), "log": True, "monitors": True}
        if fault:
            d["fault"] = fault
        return d

    return [descend(rng.choice([None, ["iteration", 1, "ValueError"]])),
            {"op": "run"}, descend(["grad", 0, "RuntimeError"]),
            {"op": "rollback", "which": rng.randrange(6), "file": "step",
             "resume": rng.choice(["file", "after"])},
            {"op": "retry"}, {"op": "run"}]


def gen_op(rng, c):
    nv = len(c["vars"])
    v = rng.randrange(nv)
    r = rng.random()
    if r < 0.34:
        k = rng.choice(["set", "set", "freeze", "thaw", "descend", "descend",
                        "descend", "mutate"])
        a = {"op": "action", "kind": k, "var": v}
        if k == "set":
            if rng.random() < 0.6:
                a["expr"] = ["affine", gp.gen_expr(rng, nv, 1),
                             rng.choice([0.5, -0.8]),
                             round(rng.uniform(-1, 1), 3)]
            else:
                a["const"] = ip.rvec(rng, c["n"])
        elif k == "descend":
            a.update(obj=rng.randrange(len(c["objs"])),
                     iters=rng.randint(1, 4), lr=rng.choice([0.02, 0.1]),
                     beta=rng.choice([0., .5]), log=rng.random() < 0.8,
                     monitors=rng.random() < 0.7)
            if rng.random() < 0.5:
                ph = rng.choice(["grad", "iteration", "iteration", "log",
                                 "disk-log", "disk-ckpt"])
                a["fault"] = [ph, rng.randrange(a["iters"]), rng.choice(
                    sorted(ERRORS) if ph == "iteration" else
                    [e for e in sorted(ERRORS) if e[0] != "K"])]
        elif k == "mutate":
            a.update(what=[gen_mut(rng, c) for _ in range(rng.randint(1, 4))],
                     raises=rng.random() < 0.3)
        return a
    if r < 0.36:
        return {"op": "retry"}
    if r < 0.53:
        return {"op": "run"}
    if r < 0.63:
        return {"op": "outside", "var": v, "what": rng.choice(
            ["set", "freeze", "thaw", "bounds", "event", "thawed"])}
    if r < 0.70:
        return {"op": "eval", "expr": gp.gen_expr(rng, nv)}
    if r < 0.75:
        return {"op": "grad", "obj": rng.randrange(len(c["objs"]))}
    if r < 0.83:
        return {"op": "alias", "var": v, "what": rng.choice(
            ["value", "bounds", "get", "state", "const", "grad"])}
    if r < 0.87:
        return {"op": "nested", "raises": rng.random() < 0.5,
                "val": ip.rvec(rng, c["n"]), "same_names": rng.random() < 0.7}
    if r < 0.91:
        return {"op": "snapshot"}
    return {"op": "rollback", "which": rng.randrange(6),
            "file": rng.choice(["user", "user", "step", "step", "action"]),
            "resume": rng.choice(["no", "file", "after"])}


def gen_mut(rng, c):
    v = rng.randrange(len(c["vars"]))
    k = rng.choice(["set", "set", "force", "freeze", "thaw", "bounds",
                    "thawed"])
    d = {"what": k, "var": v}
    if k in ("set", "force"):
        d["val"] = ip.rvec(rng, c["n"])
    elif k == "bounds":
        d["val"] = [ip.rvec(rng, c["n"]), ip.rvec(rng, c["n"])]
    return d


# -- reference model -------------------------------------------------------------
class Model(gp.Model):

    def __init__(self, case):
        super().__init__(dict(case, actions=[]))
        self.actions = []  # (index of op, op)
        self.ptr = 0
        self.used = set()
        self.snaps = []
        # Whether there may be an event to resume from.
        self.pending = False
        self.thawed = []

    def copy_state(self):
        return copy.deepcopy((self.x, self.frozen, self.bounds, self.ptr))

    def apply(self, i, o, found=None):
        """`found` is the content of the log or checkpoint that is read.

        Returns the name of the exception the call must raise, or None."""
        k = o["op"]
        if k == "action":
            if o["kind"] == "thaw" and \
                    self.case["vars"][o["var"]]["parameter"]:
                return "ValueError"
            self.actions.append((i, o))
            return self.go() if self.case["autorun"] else None
        if k == "run":
            return self.go()
        if k == "retry":
            return None if self.pending else self.go()
        if k == "outside":
            return "ValueError"
        if k == "snapshot":
            self.snaps.append(self.copy_state())
        if k == "rollback":
            event = None
            if o["file"] == "user":
                if not self.snaps:
                    return None
                s = copy.deepcopy(self.snaps[o["which"] % len(self.snaps)])
                self.x, self.frozen, self.bounds, self.ptr = s
            elif found is None:
                return None
            else:
                event = self.restore(found)
            self.pending = bool(event)
            if o["resume"] != "no":
                return self.go(event)
        return None

    def restore(self, d):
        for q in range(len(self.x)):
            v = d["variable_data"]["x%d" % q]
            self.x[q] = np.array(v["value"])
            self.frozen[q] = bool(v["frozen"])
            self.bounds[q] = [np.array(b) for b in v["bounds"]]
        self.ptr = d["action_ptr"]
        return d.get("event")

    def go(self, event=None):
        if event and self.ptr < len(self.actions):
            i, a = self.actions[self.ptr]
            if a["kind"] == "descend":
                a = dict(a, **{"from": (event["iteration"], {
                    int(k[1:]): np.array(u)
                    for k, u in event["velocity"].items()})})
            e = self.one(i, a)
            if e and e != "disk-ckpt":
                return e
            self.ptr += 1
            self.pending = False
            if e:
                return "OSError"
        while self.ptr < len(self.actions):
            i, a = self.actions[self.ptr]
            e = self.one(i, a)
            if e != "disk-ckpt" and e:
                return e
            self.ptr += 1
            self.pending = False
            if e:
                return "OSError"
        return None

    def one(self, i, a):
        k = a["kind"]
        v = a["var"]
        if k == "set":
            if self.frozen[v] and not self.case["vars"][v]["parameter"]:
                return "ValueError"
            self.act(i, a)
        elif k == "mutate":
            for d in a["what"]:
                e = self.mutate(d)
                if e:
                    return e
            if a["raises"] and i not in self.used:
                self.used.add(i)
                return "RuntimeError"
        elif k == "descend":
            f = a.get("fault") if i not in self.used else None
            if f and f[0] != "disk-ckpt" and f[1] < a.get("from", (0,))[0]:
                f = None
            o = self.case["objs"][a["obj"]]
            vs = [q for q in sorted(gp.expr_vars(o["expr"]))
                  if not self.frozen[q]]
            if f and f[0] == "grad" and not vs or \
                    f and f[0] == "log" and not (a["log"] and
                                                 a["monitors"]) or \
                    f and f[0] == "disk-log" and not (a["log"] and
                                                      self.case["save"]) or \
                    f and f[0] == "disk-ckpt" and not self.case["save"]:
                f = None
            if f is None:
                self.act(i, a)
                return None
            self.used.add(i)
            self.pending = self.pending or a["log"] and (
                f[1] > 0 or f[0] in ("log", "disk-log"))
            if f[0] == "disk-ckpt":
                self.act(i, a)
                return "disk-ckpt"
            n = f[1] + (f[0] != "grad")
            self.act(i, dict(a, iters=n))
            return "OSError" if f[0] == "disk-log" else f[2]
        else:
            self.act(i, a)
        return None

    def mutate(self, d):
        v = d["var"]
        k = d["what"]
        if k == "set":
            if self.frozen[v]:
                return "ValueError"
            self.x[v] = np.array(d["val"])
        elif k == "force":
            self.x[v] = np.array(d["val"])
        elif k in ("freeze", "thaw"):
            if k == "freeze" or not self.case["vars"][v]["parameter"]:
                self.frozen[v] = k == "freeze"
        elif k == "bounds":
            self.bounds[v] = [np.array(b) for b in d["val"]]
        elif k == "thawed":
            self.thawed.append(["x%d" % q for q in range(len(self.x))
                                if not self.frozen[q]])
        return None


# -- the real plan ----------------------------------------------------------------
class Real:

    def __init__(self, w, case, plan, folder, rec):
        from spins import goos
        self.w, self.case, self.plan, self.folder = w, case, plan, folder
        self.rec = rec
        self.goos = goos
        self.inits = [np.array(v["init"]) for v in case["vars"]]
        bounds = [(gp.arg(v["lo"]), gp.arg(v["hi"])) for v in case["vars"]]
        self.vs = [goos.Variable(self.inits[i], lower_bounds=bounds[i][0],
                                 upper_bounds=bounds[i][1],
                                 parameter=v["parameter"], name="x%d" % i)
                   for i, v in enumerate(case["vars"])]
        self.cinit = np.arange(1.0, case["n"] + 1)
        self.const = goos.Constant(self.cinit, name="k")
        for a in self.inits + [self.cinit] + [b for p in bounds for b in p]:
            if isinstance(a, np.ndarray):
                a += 100.0
        self.objs = []
        for i, o in enumerate(case["objs"]):
            f = gp.N["Sq"](self.mk(o["expr"]), o["target"], o["weight"],
                           name="obj%d" % i)
            if o["heavy"]:
                f.parallelize()
            self.objs.append(f)
        self.nsnaps = 0
        self.faults = {}
        self.thawed = []
        rec.fault = self.point
        rec.mutate = self.mutate

    def mk(self, e):
        if e[0] == "var":
            return self.vs[e[1]]
        if e[0] == "affine":
            return self.mk(e[1]) * e[2] + np.full(self.case["n"], e[3])
        if e[0] == "sum":
            return self.mk(e[1]) + self.mk(e[2])
        return self.mk(e[1])**2

    def point(self, what):
        if not self.rec.phase:
            return
        i, ph, it = self.rec.phase
        f = self.faults.get(i)
        if f and f[0] == ph and f[1] == it:
            del self.faults[i]
            self.w.count("fault:%s@%s" % (f[2], ph))
            raise ERRORS[f[2]]("injected")

    def disk(self, kind, rel):
        if not self.rec.phase:
            return
        i, ph, it = self.rec.phase
        f = self.faults.get(i)
        if f and (f[0] == "disk-log" and ph == "log" and f[1] == it or
                  f[0] == "disk-ckpt" and ph == "done"):
            del self.faults[i]
            self.w.count("fault:EIO@%s" % f[0])
            raise OSError(errno.EIO, "injected", rel)

    def apply(self, i, o, pending=False):
        k = o["op"]
        plan, goos = self.plan, self.goos
        v = self.vs[o["var"]] if "var" in o else None
        if k == "action":
            a = o["kind"]
            if "fault" in o:
                self.faults[i] = o["fault"]
            if a == "set":
                arg = self.mk(o["expr"]) if "expr" in o else \
                    np.array(o["const"])
                v.set(arg)
                if isinstance(arg, np.ndarray):
                    arg += 100.0
            elif a == "freeze":
                v.freeze()
            elif a == "thaw":
                v.thaw()
            elif a == "mutate":
                if o["raises"]:
                    self.faults[i] = ["mutate"]
                plan.add_action(gp.N["Mutate"](i))
            else:
                ob = self.case["objs"][o["obj"]]
                obj = self.objs[o["obj"]]
                plan.add_action(gp.N["Descend"](
                    obj, ["x%d" % q for q in sorted(
                        gp.expr_vars(ob["expr"]))], o["iters"], o["lr"],
                    o["beta"], o["log"], i, [obj] if o["monitors"] else []))
        elif k == "run":
            plan.run()
        elif k == "retry":
            if not pending:
                plan.resume()
        elif k == "outside":
            x = np.full(self.case["n"], 9.25)
            what = o["what"]
            if what == "set":
                plan.set_var_value(v, x, check_frozen=False)
            elif what == "freeze":
                plan.freeze_var(v)
            elif what == "thaw":
                plan.thaw_var(v)
            elif what == "bounds":
                plan.set_var_bounds(v, [x, x])
            elif what == "event":
                plan.write_event({"state": "no"}, [])
            else:
                plan.get_thawed_vars()
        elif k == "eval":
            return self.mk(o["expr"]).get().array
        elif k == "grad":
            obj = self.objs[o["obj"]]
            return [g.array_grad for g in obj.get_grad(self.vs)]
        elif k == "alias":
            if o["what"] == "value":
                plan.get_var_value(v)[...] = 77.0
            elif o["what"] == "bounds":
                b = plan.get_var_bounds(v)
                b[0][...] = 77.0
                b[1] = None
            elif o["what"] == "state":
                d = plan.get_state_dict()["variable_data"]
                d = d["x%d" % o["var"]]
                d["value"][...] = 77.0
                d["bounds"][0][...] = 77.0
                d["bounds"][1] = None
                d["frozen"] = not d["frozen"]
            elif o["what"] == "const":
                self.const.get().array[...] = 77.0
            elif o["what"] == "grad":
                for g in self.objs[0].get_grad(self.vs):
                    g.array_grad[...] = 77.0
            else:
                v.get().array[...] = 77.0
        elif k == "nested":
            self.nested(o)
        elif k == "snapshot":
            plan.write_checkpoint(self.snap(self.nsnaps))
            self.nsnaps += 1
        elif k == "rollback":
            f = self.file(o)
            if f is None:
                pass
            elif o["resume"] == "file":
                plan.resume(f)
            else:
                plan.read_checkpoint(f)
                if o["resume"] == "after":
                    plan.resume()
        return None

    def file(self, o):
        """The file a rollback goes to, if there is one."""
        if o["file"] == "user":
            return self.snap(o["which"] % self.nsnaps) if self.nsnaps else None
        pat = gp.STEP if o["file"] == "step" else gp.CHKPT
        names = sorted(n for n in gp._listdir(self.folder) if pat.match(n))
        if not names:
            return None
        return os.path.join(self.folder, names[o["which"] % len(names)])

    def snap(self, i):
        return os.path.join(self.folder, "user%d.chkpt" % i)

    def mutate(self, plan, index):
        for d in self.case["ops"][index]["what"]:
            v = self.vs[d["var"]]
            k = d["what"]
            if k in ("set", "force"):
                x = np.array(d["val"])
                plan.set_var_value(v, x, check_frozen=k == "set")
                x += 100.0
            elif k == "freeze":
                plan.freeze_var(v)
            elif k == "thaw":
                if not self.case["vars"][d["var"]]["parameter"]:
                    plan.thaw_var(v)
            elif k == "bounds":
                b = [np.array(x) for x in d["val"]]
                plan.set_var_bounds(v, b)
                b[0][...] = 55.0
                b[1] = None
            else:
                self.thawed.append([q._goos_name
                                    for q in plan.get_thawed_vars()])
        if self.faults.pop(index, None):
            self.w.count("fault:RuntimeError@action")
            raise RuntimeError("injected")

    def nested(self, o):
        """A plan inside the plan: neither sees the other's state."""
        goos = self.goos
        x = np.array(o["val"])
        try:
            with goos.OptimizationPlan() as inner:
                y = goos.Variable(x, name="x0" if o["same_names"] else "y")
                z = y * 2.0 + np.full(len(x), 1.0)
                y.set(z)
                inner.run()
                self.w.check(ip.close(y.get().array, x * 2 + 1),
                             "nested-wrong", "an inner plan evaluated %s, "
                             "expected %s" % (y.get().array, x * 2 + 1))
                if o["raises"]:
                    raise ZeroDivisionError("inner")
        except ZeroDivisionError:
            pass
        self.w.check(goos.get_default_plan() is self.plan, "wrong-default-plan",
                     "the default plan is another one after an inner plan")


def observe(case, plan, vs):
    d = plan.get_state_dict()
    out = {}
    for i, v in enumerate(vs):
        out["x%d" % i] = (np.array(plan.get_var_value(v)),
                          bool(d["variable_data"]["x%d" % i]["frozen"]),
                          [np.array(b) for b in plan.get_var_bounds(v)])
    return out, d["action_ptr"]


def run(w, case):
    from spins import goos
    folder = w.mkroot("plan")
    sim = w.sim()
    fs = simfs.SimFS(sim, folder, [])
    fs.run_clock()
    rec = gp.Recorder()
    gp.CUR = rec
    gp.fresh_process()

    def main():
        with goos.OptimizationPlan(save_path=folder if case["save"] else None,
                                   autorun=case["autorun"]) as plan:
            real = Real(w, case, plan, folder, rec)
            fs.hook = real.disk
            model = Model(case)
            for i, o in enumerate(case["ops"]):
                found = None
                if o["op"] == "rollback" and o["file"] != "user":
                    f = real.file(o)
                    found = f and gp.read_pickle(f)
                    w.count("probe:rollback-%s" % o["file"], bool(f))
                pending = model.pending
                want = model.apply(i, o, found)
                got = val = None
                try:
                    val = real.apply(i, o, pending)
                except (Exception, KeyboardInterrupt) as e:
                    got = e
                    rec.phase = None
                rec.phase = None
                name = "call %d (%s %s)" % (i, o["op"], o.get(
                    "kind", o.get("what", "")))
                if want:
                    w.nontrivial = True
                    w.count("probe:failed-call")
                kind = type(got).__name__ if got is not None else None
                if not w.check(kind == want, "wrong-outcome", "%s: got %r, "
                               "expected %s" % (name, got, want)):
                    return
                if not compare(w, case, model, real, name):
                    return
                if not values(w, case, model, o, val, name):
                    return
                w.check(model.thawed == real.thawed, "wrong-thawed",
                        "%s: thawed variables %s, expected %s" %
                        (name, real.thawed, model.thawed))
                if w.violations:
                    return

    try:
        status, val = w.run_sim(sim, main, fs=fs)
    finally:
        gp.CUR = None
        gp.fresh_process()
    if status == "raised":
        raise val
    w.check(status == "ok", "no-progress", "%s %s" % (status, val))
    w.state_mark([(o["op"], o.get("kind"), o.get("what"), o.get("fault"))
                  for o in case["ops"]], case["autorun"])
    w.sample = {"ops": [[o["op"]] + [str(o[k]) for k in ("kind", "fault")
                                     if k in o] for o in case["ops"]],
                "autorun": case["autorun"]}


def compare(w, case, model, real, name):
    got, ptr = observe(case, real.plan, real.vs)
    for i in range(len(case["vars"])):
        x, fr, b = got["x%d" % i]
        if not w.check(x.shape == model.x[i].shape and ip.close(
                x, model.x[i]), "wrong-value", "after %s variable %d is %s, "
                "expected %s" % (name, i, x, model.x[i])):
            return False
        if not w.check(fr == model.frozen[i], "wrong-frozen", "after %s "
                       "variable %d has frozen=%s" % (name, i, fr)):
            return False
        if not w.check(all(np.array_equal(p, q) for p, q in
                           zip(b, model.bounds[i])), "wrong-bounds",
                       "after %s variable %d has bounds %s, expected %s" %
                       (name, i, b, model.bounds[i])):
            return False
    k = real.const.get().array
    if not w.check(ip.close(k, np.arange(1.0, case["n"] + 1)),
                   "wrong-constant", "after %s a constant is %s" % (name, k)):
        return False
    return w.check(ptr == model.ptr, "wrong-position", "after %s the plan is "
                   "at action %s, expected %d" % (name, ptr, model.ptr))


def values(w, case, model, o, val, name):
    if o["op"] == "eval":
        want = gp.value(o["expr"], model.x)
        return w.check(ip.close(val, want), "wrong-eval", "%s gave %s, "
                       "expected %s" % (name, val, want))
    if o["op"] == "grad":
        ob = case["objs"][o["obj"]]
        v = gp.value(ob["expr"], model.x)
        g = ob["weight"] * 2 * (v - np.resize(ob["target"], v.shape))
        for i in range(len(case["vars"])):
            want = gp.deriv(ob["expr"], model.x, i, g)
            if model.frozen[i]:
                continue
            if not w.check(ip.close(val[i], want), "wrong-grad", "%s gave %s "
                           "for variable %d, expected %s" %
                           (name, val[i], i, want)):
                return False
    return True
