"""goos optimization plans run, killed, loaded and resumed.

A case holds variables, objectives and a list of actions, plus per process
incarnation the filesystem operation at which it dies or the disk fails.
`Model` interprets the actions sequentially and independently.
"""
import copy
import os
import pickle
import re
from typing import List

import numpy as np

from checks import invplan as ip
from simkit import env
from simkit import kernel
from simkit import simfs

_open = env.REAL["open"]
_listdir = simfs._real["listdir"]
close = ip.close

CUR = None
_done = False


class Recorder:

    def __init__(self):
        self.evals = []
        self.accepted = []  # points passed to scipy's callback
        self.results = []  # points returned by scipy
        self.runs = []
        self.final = None
        self.fault = None  # callable(point) raising an injected error
        self.resumed = None
        self.phase = None

    def point(self, what):
        if self.fault is not None:
            self.fault(what)


def setup():
    global _done
    if _done:
        return
    _done = True
    from spins import goos

    class Sq(goos.Function):
        node_type = "verif.plan.sq"

        def __init__(self, fun: goos.Function, target: List[float],
                     weight: float) -> None:
            super().__init__([fun])
            self.t, self.w = np.array(target), weight

        def eval(self, inputs):
            sim = kernel.current_sim()
            if sim is not None:
                sim.yield_point("node")
            x = inputs[0].array
            if CUR is not None:
                CUR.evals.append(np.array(x))
                CUR.point("eval")
            return goos.NumericFlow(self.w * np.sum((x - np.resize(
                self.t, x.shape))**2))

        def grad(self, inputs, grad_val):
            x = inputs[0].array
            if CUR is not None:
                CUR.point("grad")
            return [goos.NumericFlow.Grad(
                grad_val.array_grad * self.w * 2 *
                (x - np.resize(self.t, x.shape)))]

    class Lin(goos.Function):
        """A constraint: <coef, all variables> + offset."""
        node_type = "verif.plan.lin"

        def __init__(self, funs: List[goos.Function], coef: List[float],
                     offset: float) -> None:
            super().__init__(list(funs))
            self.c, self.o = np.array(coef), offset

        def eval(self, inputs):
            return goos.NumericFlow(np.dot(self.c, np.concatenate(
                [np.ravel(x.array) for x in inputs])) + self.o)

        def grad(self, inputs, grad_val):
            out, at = [], 0
            for x in inputs:
                n = np.size(x.array)
                out.append(goos.NumericFlow.Grad(
                    grad_val.array_grad * np.reshape(self.c[at:at + n],
                                                     np.shape(x.array))))
                at += n
            return out

    class Bowl(goos.Function):
        """|z - target|^2 + (sum(z) - total)^2 over the given variables."""
        node_type = "verif.plan.bowl"

        def __init__(self, funs: List[goos.Function], target: List[float],
                     total: float) -> None:
            super().__init__(list(funs))
            self.t, self.s = np.array(target), total

        def eval(self, inputs):
            z = np.concatenate([np.ravel(x.array) for x in inputs])
            if CUR is not None:
                CUR.evals.append(z)
                CUR.point("eval")
            return goos.NumericFlow(np.sum((z - self.t)**2) +
                                    (np.sum(z) - self.s)**2)

        def grad(self, inputs, grad_val):
            z = np.concatenate([np.ravel(x.array) for x in inputs])
            g = grad_val.array_grad * (2 * (z - self.t) +
                                       2 * (np.sum(z) - self.s))
            out, at = [], 0
            for x in inputs:
                n = np.size(x.array)
                out.append(goos.NumericFlow.Grad(
                    np.reshape(g[at:at + n], np.shape(x.array))))
                at += n
            return out

    class Descend(goos.Action):
        node_type = "verif.plan.descend"

        def __init__(self, obj: goos.Function, names: List[str], iters: int,
                     lr: float, beta: float, log: bool, index: int,
                     monitors: List[goos.Function] = None) -> None:
            monitors = list(monitors or [])
            super().__init__([obj] + monitors)
            self.obj, self.names, self.iters = obj, names, iters
            self.lr, self.beta, self.log = lr, beta, log
            self.monitors, self.index = monitors, index

        def run(self, plan):
            CUR.runs.append(("run", self.index))
            self.go(plan, 0, {})

        def resume(self, plan, event):
            CUR.runs.append(("resume", self.index, event.get("iteration")))
            self.go(plan, event["iteration"], event["velocity"])

        def go(self, plan, start, vel):
            vs = [v for v in plan.get_thawed_vars()
                  if v._goos_name in self.names]
            for i in range(start, self.iters):
                CUR.phase = (self.index, "grad", i)
                if vs:
                    gs = plan.eval_grad(self.obj, vs)
                new = []
                for k, v in enumerate(vs):
                    x = plan.get_var_value(v)
                    u = np.array(vel.get(v._goos_name, np.zeros(x.shape)))
                    u = self.beta * u - self.lr * np.reshape(
                        gs[k].array_grad, x.shape)
                    new.append((v, x + u))
                    vel = dict(vel, **{v._goos_name: u.tolist()})
                for v, x in new:
                    plan.set_var_value(v, x)
                CUR.phase = (self.index, "iteration", i)
                CUR.point("iteration")
                CUR.phase = (self.index, "log", i)
                if self.log:
                    plan.write_event({"state": "optimizing",
                                      "iteration": i + 1, "velocity": vel},
                                     self.monitors)
            CUR.phase = (self.index, "done", 0)

    class Mutate(goos.Action):
        """Runs a callback of the harness inside an action."""
        node_type = "verif.plan.mutate"

        def __init__(self, index: int) -> None:
            super().__init__()
            self.index = index

        def run(self, plan):
            CUR.mutate(plan, self.index)

    class Noted(goos.Action):
        """Writes events, cannot resume, ends the same when run again."""
        node_type = "verif.plan.noted"

        def __init__(self, var: goos.Variable, value: List[float],
                     index: int) -> None:
            super().__init__(var)
            self.var, self.value, self.index = var, value, index

        def run(self, plan):
            CUR.runs.append(("run", self.index))
            plan.write_event({"state": "before"})
            plan.set_var_value(self.var, np.array(self.value),
                               check_frozen=False)
            CUR.point("iteration")
            plan.write_event({"state": "after"})

    class SetBounds(goos.Action):
        node_type = "verif.plan.set_bounds"

        def __init__(self, var: goos.Variable, lo: List[float],
                     hi: List[float]) -> None:
            super().__init__(var)
            self.var, self.lo, self.hi = var, lo, hi

        def run(self, plan):
            shape = plan.get_var_value(self.var).shape
            # The memory layout of the bounds need not be that of the value.
            plan.set_var_bounds(self.var, [
                np.asfortranarray(np.reshape(self.lo, shape)),
                np.reshape(self.hi, shape)])

    global N
    N = dict(Sq=Sq, Lin=Lin, Descend=Descend, Mutate=Mutate, SetBounds=SetBounds,
             Bowl=Bowl, Noted=Noted)


# -- generation ---------------------------------------------------------------
def gen_expr(rng, nv, depth=2):
    r = rng.random()
    if depth == 0 or r < 0.35:
        return ["var", rng.randrange(nv)]
    if r < 0.65:
        return ["affine", gen_expr(rng, nv, depth - 1),
                rng.choice([0.5, -0.8, 1.1]), round(rng.uniform(-1, 1), 3)]
    if r < 0.85:
        return ["sum", gen_expr(rng, nv, depth - 1),
                gen_expr(rng, nv, depth - 1)]
    return ["square", gen_expr(rng, nv, depth - 1)]


def expr_vars(e):
    if e[0] == "var":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, list):
            out |= expr_vars(x)
    return out


def value(e, x):
    if e[0] == "var":
        return x[e[1]]
    if e[0] == "affine":
        return value(e[1], x) * e[2] + e[3]
    if e[0] == "sum":
        return value(e[1], x) + value(e[2], x)
    return value(e[1], x)**2


def deriv(e, x, i, g):
    """Gradient of <g, e> with respect to variable i."""
    if e[0] == "var":
        return g if e[1] == i else np.zeros(len(g))
    if e[0] == "affine":
        return deriv(e[1], x, i, g * e[2])
    if e[0] == "sum":
        return deriv(e[1], x, i, g) + deriv(e[2], x, i, g)
    return deriv(e[1], x, i, g * 2 * value(e[1], x))


def gen_plan(rng, *args, **kw):
    """A plan whose values stay moderate."""
    while True:
        case = _gen_plan(rng, *args, **kw)
        c = dict(case, actions=[a for a in case["actions"]
                                if a["kind"] != "scipy"])
        with np.errstate(all="ignore"):
            m = Model(c)
        if all(np.all(np.abs(x) < 50) for st in m.after + [m.state()] +
               [g["state"] for g in m.logs] for x, _, _ in st.values()):
            return case


def gen_also(rng, nv, no, o):
    """Further monitors, in no particular order."""
    if rng.random() < 0.5:
        return []
    names = ["x%d" % i for i in range(nv)] + ["obj%d" % i for i in range(no)
                                              if i != o]
    return rng.sample(names, rng.randint(0, len(names)))


def monitor_names(a):
    """Names of an action's monitors, in the order they are given."""
    own = ["obj%d" % a["obj"]] if a["monitors"] else []
    also = a.get("also", [])
    return also[:1] + own + also[1:]


def gen_bounds(rng, n):
    r = rng.random()
    if r < 0.5:
        return None, None
    if r < 0.75:
        return -9.0, 9.0
    return ([round(rng.uniform(-19, -9), 2) for _ in range(n)],
            [round(rng.uniform(9, 19), 2) for _ in range(n)])


def _gen_plan(rng, kinds=("descend", "descend", "set", "set", "freeze",
                          "bounds"), na=(1, 6)):
    n = rng.randint(1, 3)
    nv = rng.randint(1, 4)
    vs = []
    for i in range(nv):
        lo, hi = gen_bounds(rng, n)
        vs.append({"init": ip.rvec(rng, n), "lo": lo, "hi": hi,
                   "parameter": rng.random() < 0.15})
    objs = []
    for _ in range(rng.randint(1, 2)):
        objs.append({"expr": gen_expr(rng, nv), "target": ip.rvec(rng, 2),
                     "weight": rng.choice([0.3, 1.0]),
                     "heavy": rng.random() < 0.4})
    case = {"n": n, "vars": vs, "objs": objs, "actions": []}
    frozen = [v["parameter"] for v in vs]
    for _ in range(rng.randint(*na)):
        k = rng.choice(kinds)
        v = rng.randrange(nv)
        if k == "set":
            if frozen[v] and not vs[v]["parameter"]:
                case["actions"].append({"kind": "thaw", "var": v})
                frozen[v] = False
            a = {"kind": "set", "var": v}
            if rng.random() < 0.7:
                a["expr"] = ["affine", gen_expr(rng, nv, 1),
                             rng.choice([0.5, -0.8]),
                             round(rng.uniform(-1, 1), 3)]
            else:
                a["const"] = ip.rvec(rng, n)
            case["actions"].append(a)
        elif k == "noted":
            case["actions"].append({"kind": k, "var": v,
                                    "const": ip.rvec(rng, n)})
        elif k == "freeze":
            if vs[v]["parameter"]:
                continue
            k = "thaw" if frozen[v] else "freeze"
            frozen[v] = not frozen[v]
            case["actions"].append({"kind": k, "var": v})
        elif k == "bounds":
            case["actions"].append({
                "kind": k, "var": v,
                "lo": [round(rng.uniform(-19, -9), 2) for _ in range(n)],
                "hi": [round(rng.uniform(9, 19), 2) for _ in range(n)]})
        elif k == "descend":
            o = rng.randrange(len(objs))
            case["actions"].append(
                {"kind": "descend", "obj": o, "iters": rng.randint(0, 4),
                 "lr": rng.choice([0.02, 0.1]), "beta": rng.choice([0., .5]),
                 "log": rng.random() < 0.9, "monitors": rng.random() < 0.7,
                 "also": gen_also(rng, nv, len(objs), o)})
        elif k == "scipy":
            o = rng.randrange(len(objs))
            if all(frozen):
                continue
            case["actions"].append(
                {"kind": "scipy", "obj": o, "iters": rng.randint(1, 5),
                 "method": "L-BFGS-B", "monitors": rng.random() < 0.7,
                 "also": gen_also(rng, nv, len(objs), o)})
    return case


# -- building ------------------------------------------------------------------
def arg(b):
    return np.array(b) if isinstance(b, list) else b


def build(case):
    """Creates nodes and actions in the current default plan."""
    from spins import goos
    shaped = lambda v, x: np.reshape(x, v["shape"]) \
        if "shape" in v and x is not None else x
    turned = lambda x: np.asfortranarray(x) if np.ndim(x) == 2 else x
    vs = [goos.Variable(shaped(v, np.array(v["init"])),
                        lower_bounds=shaped(v, arg(v["lo"])),
                        upper_bounds=turned(shaped(v, arg(v["hi"]))),
                        parameter=v["parameter"],
                        name="x%d" % i)
          for i, v in enumerate(case["vars"])]

    def mk(e):
        if e[0] == "var":
            return vs[e[1]]
        if e[0] == "affine":
            return mk(e[1]) * e[2] + np.full(case["n"], e[3])
        if e[0] == "sum":
            return mk(e[1]) + mk(e[2])
        return mk(e[1])**2

    objs = []
    for i, o in enumerate(case["objs"]):
        if "parts" in o:
            f = goos.Sum([N["Sq"](mk(e), t, 1.0) for e, t in o["parts"]],
                         name="obj%d" % i)
        elif "bowl" in o:
            f = N["Bowl"](vs, *o["bowl"], name="obj%d" % i)
        else:
            f = N["Sq"](mk(o["expr"]), o["target"], o["weight"],
                        name="obj%d" % i)
        if o["heavy"]:
            f.parallelize()
        objs.append(f)
    plan = goos.get_default_plan()
    for i, a in enumerate(case["actions"]):
        k = a["kind"]
        if k == "set":
            vs[a["var"]].set(mk(a["expr"]) if "expr" in a else
                             np.array(a["const"]))
        elif k == "freeze":
            vs[a["var"]].freeze()
        elif k == "thaw":
            vs[a["var"]].thaw()
        elif k == "noted":
            plan.add_action(N["Noted"](vs[a["var"]], a["const"], i))
        elif k == "bounds":
            plan.add_action(N["SetBounds"](vs[a["var"]], a["lo"], a["hi"]))
        elif k == "descend":
            o = case["objs"][a["obj"]]
            plan.add_action(N["Descend"](
                objs[a["obj"]], ["x%d" % v for v in sorted(expr_vars(
                    o["expr"]))], a["iters"], a["lr"], a["beta"], a["log"],
                i, [plan.get_node(k) for k in monitor_names(a)]))
        elif k == "scipy":
            opt, f = goos.opt.scipy_minimize, objs[a["obj"]]
            if a.get("maximize"):
                opt, f = goos.opt.scipy_maximize, f * -1.0
            opt(
                f, method=a["method"],
                monitor_list=[plan.get_node(k) for k in monitor_names(a)],
                max_iters=a["iters"], ftol=a.get("ftol", 1e-14),
                **{"constraints_" + k: [N["Lin"](vs, c, o) for c, o in a[k]]
                   for k in ("eq", "ineq") if k in a})
    return vs, objs


class Model:

    def __init__(self, case):
        self.case = case
        self.x = [np.array(v["init"], dtype=float) for v in case["vars"]]
        self.frozen = [v["parameter"] for v in case["vars"]]
        one = np.ones(case["n"])
        self.bounds = [[one * (-np.inf if v["lo"] is None else v["lo"]),
                        one * (np.inf if v["hi"] is None else v["hi"])]
                       for v in case["vars"]]
        self.logs = []
        self.after = []
        for i, a in enumerate(case["actions"]):
            self.act(i, a)
            self.after.append(self.state())

    def state(self):
        return {"x%d" % i: (x.copy(), self.frozen[i], list(self.bounds[i]))
                for i, x in enumerate(self.x)}

    def objective(self, o):
        v = value(o["expr"], self.x)
        return o["weight"] * np.sum((v - np.resize(o["target"], v.shape))**2)

    def monitor(self, name):
        if name[0] == "x":
            return self.x[int(name[1:])].copy()
        return self.objective(self.case["objs"][int(name[3:])])

    def act(self, i, a):
        k = a["kind"]
        if k in ("set", "noted"):
            self.x[a["var"]] = value(a["expr"], self.x) if "expr" in a \
                else np.array(a["const"], dtype=float)
        elif k == "freeze":
            self.frozen[a["var"]] = True
        elif k == "thaw":
            self.frozen[a["var"]] = False
        elif k == "bounds":
            self.bounds[a["var"]] = [np.array(a["lo"]), np.array(a["hi"])]
        elif k == "descend":
            o = self.case["objs"][a["obj"]]
            vs = [v for v in sorted(expr_vars(o["expr"]))
                  if not self.frozen[v]]
            start, vel = a.get("from", (0, {}))
            vel = dict(vel)
            for it in range(start, a["iters"]):
                v = value(o["expr"], self.x)
                g = o["weight"] * 2 * (v - np.resize(o["target"], v.shape))
                new = {}
                for q in vs:
                    u = vel.get(q, np.zeros(len(self.x[q])))
                    u = a["beta"] * u - a["lr"] * deriv(o["expr"], self.x, q,
                                                        g)
                    vel[q] = u
                    new[q] = self.x[q] + u
                for q, x in new.items():
                    self.x[q] = x
                if a["log"]:
                    self.logs.append({
                        "ptr": i, "iteration": it + 1, "state": self.state(),
                        "monitors": {k: self.monitor(k)
                                     for k in monitor_names(a)}})
        else:
            raise AssertionError(k)


def same_state(got, want):
    """Names of the variables whose logged state differs."""
    bad = []
    for k, (x, fr, b) in want.items():
        d = got.get(k)
        if d is None or not close(d["value"], x) or \
                bool(d["frozen"]) != fr or not all(
                    np.array_equal(p, q) for p, q in zip(d["bounds"], b)):
            bad.append(k)
    return bad


# -- running ----------------------------------------------------------------------
FILES = re.compile(r"^(step(\d+)\.pkl|action(\d+)\.chkpt)$")
STEP = ip.STEP
CHKPT = re.compile(r"^action(\d+)\.chkpt$")


def fresh_process():
    """What a new interpreter would start with."""
    from spins.goos import optplan
    optplan.GLOBAL_PLAN_STACK.clear()
    getattr(optplan, "PROBLEM_GRAPH_NAME_MAP", {}).clear()


class Session:
    """One save folder across process incarnations."""

    def __init__(self, w, case, folder):
        self.w, self.case, self.folder = w, case, folder
        self.writes = []  # names of files in the order they were written

    def newest(self):
        names = [n for n in _listdir(self.folder) if FILES.match(n)]
        if not names:
            return None
        last = {n: i for i, n in enumerate(self.writes)}
        return max(names, key=lambda n: last.get(n, -1))

    def launch(self, plan=None, hook=None, body=None, side=None):
        global CUR
        from spins import goos
        w = self.w
        sim = w.sim()
        fs = simfs.SimFS(sim, self.folder, plan)
        fs.run_clock()
        if hook:
            fs.hook = hook(fs)
        rec = Recorder()
        CUR = rec
        fresh_process()
        ck = self.newest()
        rec.resumed = ck

        def main():
            with goos.OptimizationPlan(save_path=self.folder) as p:
                if os.path.exists(os.path.join(self.folder, "optplan.json")):
                    p.load(self.folder)
                else:
                    build(self.case)
                    p.save(self.folder)
                if ck is not None:
                    p.resume(os.path.join(self.folder, ck))
                else:
                    p.run()
                rec.final = copy.deepcopy(p.get_state_dict()["variable_data"])

        def sided():
            side(sim, fs, main)

        try:
            status, val = w.run_sim(sim, body or (sided if side else main),
                                    fs=fs)
        finally:
            CUR = None
            fresh_process()
        self.writes += [os.path.basename(r) for _, k, r in fs.ops
                        if k in ("opened_w", "write", "close", "replaced")]
        return ip.Incarnation(status, val, rec, fs)


def execute(w, case, watch=False, side=None, after=None,
            strict=True):
    ref = Session(w, case, w.mkroot("ref"))
    r0 = ref.launch()
    if r0.status != "ok":
        if r0.status == "raised":
            raise r0.val
        w.violation("no-progress", "uninterrupted run: %s" % (r0.val,))
        return None
    nops = r0.fs.op
    s = Session(w, case, w.mkroot("run"))
    hook = Watch(w, s.folder) if watch else None
    incs = []
    fired = 0
    for u, f in case["crashes"] + [[None, None]]:
        plan = [] if u is None else [(1 + int(u * nops), f)]
        inc = s.launch(plan, hook, side=side)
        incs.append(inc)
        if after:
            after(s.folder)
        if hook:
            hook.scan("after the process ended")
        if inc.status == "ok":
            break
        fired += 1
        if inc.status == "crashed":
            continue
        if inc.status == "raised" and isinstance(inc.val, OSError) and \
                inc.fs.fired and inc.fs.fired[-1][1] in ("ENOSPC", "EIO"):
            w.count("probe:disk-error-raised")
            continue
        if not strict:
            return None
        if inc.status == "raised":
            import traceback
            tb = traceback.extract_tb(inc.val.__traceback__)
            w.violation("resume-failed", "incarnation %d (after %s, from %s) "
                        "raised %r at %s" % (
                            len(incs) - 1, [i.fs.fired for i in incs[:-1]],
                            inc.rec.resumed, inc.val, " <- ".join(
                                "%s:%d" % (os.path.basename(f.filename),
                                           f.lineno)
                                for f in reversed(tb[-4:]))))
        else:
            w.violation("no-progress", "incarnation %d: %s" %
                        (len(incs) - 1, inc.val))
        return None
    w.nontrivial = fired > 0
    w.count("probe:incarnations", len(incs))
    w.count("probe:resumed-mid-action", sum(
        1 for i in incs for r in i.rec.runs if r[0] == "resume"))
    w.state_mark([a["kind"] for a in case["actions"]],
                 [i.fs.fired for i in incs])
    w.sample = {"actions": [a["kind"] for a in case["actions"]],
                "faults": [i.fs.fired for i in incs if i.fs.fired],
                "resumed_from": [i.rec.resumed for i in incs]}
    if incs[-1].status != "ok":
        return None
    return r0, ref, incs, s


def read_pickle(path):
    with _open(path, "rb") as f:
        return pickle.load(f)


def read_logs(folder):
    return {int(STEP.match(n).group(1)): read_pickle(os.path.join(folder, n))
            for n in _listdir(folder) if STEP.match(n)}


def read_chkpts(folder):
    return {int(CHKPT.match(n).group(1)): read_pickle(os.path.join(folder, n))
            for n in _listdir(folder) if CHKPT.match(n)}


class Watch(ip.Watch):
    """Directory invariant for goos save folders."""
    PATTERN = FILES


def shrink(case):
    for i in range(len(case["actions"])):
        if len(case["actions"]) > 1:
            c = copy.deepcopy(case)
            del c["actions"][i]
            yield c
        if case["actions"][i].get("iters", 0) > 1:
            c = copy.deepcopy(case)
            c["actions"][i]["iters"] = 1
            yield c
    for i in range(len(case["crashes"])):
        c = copy.deepcopy(case)
        del c["crashes"][i]
        yield c


REAL_COMP = ["spins.goos OptimizationPlan (run, resume, save, load, "
             "checkpoints, events), actions, math nodes and graph executor",
             "spins.goos schema serialization", "scipy optimizer action",
             "pickle, json"]
STUB_COMP = ["filesystem calls (real scratch files behind simulated buffers, "
             "crashes and disk errors)", "clock, thread pool and thread "
             "scheduler (simkit)", "objective node and one deterministic "
             "descent action registered by the harness"]
ASSUME = ["a process crash keeps everything handed to the OS and an arbitrary "
          "prefix of the user-space buffer; loss of OS buffers (power loss) is "
          "not simulated",
          "after a crash the user loads optplan.json and resumes from the "
          "newest step or checkpoint file of the folder"]
