"""invdes optimization plans run by the real run_plan under crashes.

A case describes a plan (parametrizations, parameters, objectives and a list
of transformations) and, per process incarnation, at which filesystem
operation the process dies or the disk fails.  `execute` runs it with the real
problem_graph code; `model` is an independent sequential interpretation.
"""
import hashlib
import os
import pickle
import re

import numpy as np

from simkit import env
from simkit import kernel
from simkit import simfs

_open = env.REAL["open"]
_listdir = simfs._real["listdir"]

CUR = None  # recorder of the current incarnation


class Recorder:

    def __init__(self):
        self.objects = {}
        self.parameters = {}
        self.evals = []
        self.accepted = []  # points passed to scipy's callback
        self.results = []  # points returned by scipy
        self.probes = []
        self.steps = []


_done = False


def setup():
    """Registers the harness nodes through the public registries."""
    global _done, Quad
    if _done:
        return
    _done = True
    from schematics import types
    from spins.invdes import parametrization
    from spins.invdes import problem
    from spins.invdes import problem_graph  # noqa
    from spins.invdes.problem_graph import optplan
    from spins.invdes.problem_graph import schema_utils
    from spins.invdes.problem_graph import workspace
    import spins.invdes.problem_graph.log_tools.loader  # noqa

    class QuadNode(optplan.Function):
        type = schema_utils.polymorphic_model_type("function.verif_quad")
        target = types.ListType(types.FloatType())
        weight = types.FloatType()

    class LinNode(optplan.Function):
        type = schema_utils.polymorphic_model_type("function.verif_lin")
        coef = types.ListType(types.FloatType())
        offset = types.FloatType()

    class ParamNode(optplan.Parametrization):
        type = schema_utils.polymorphic_model_type("parametrization.verif")
        kind = types.StringType()
        simulation_space = optplan.ReferenceType(optplan.ProblemGraphNode)
        init = types.ListType(types.FloatType())
        bounds = types.ListType(types.FloatType())

    class SpaceNode(optplan.SimulationSpaceBase):
        type = schema_utils.polymorphic_model_type("simulation_space.verif")
        dx = types.FloatType()

    class Space:
        dx = 1.0

    class Descend(optplan.TransformationBase):
        type = schema_utils.polymorphic_model_type("verif_descend")
        objective = optplan.ReferenceType(optplan.Function)
        iters = types.IntType()
        lr = types.FloatType()
        beta = types.FloatType()
        monitors = types.ListType(optplan.ReferenceType(optplan.Monitor))
        log = types.BooleanType()

    class Affine(optplan.TransformationBase):
        type = schema_utils.polymorphic_model_type("verif_affine")
        a = types.FloatType()
        b = types.FloatType()
        parameter = optplan.ReferenceType(optplan.Function)

    class Probe(optplan.TransformationBase):
        type = schema_utils.polymorphic_model_type("verif_probe")
        tag = types.IntType()

    class QuadFun(problem.OptimizationFunction):

        def __init__(self, var, target, weight):
            super().__init__([var])
            self.t, self.w = np.array(target), weight

        def eval(self, vals):
            if CUR is not None:
                CUR.evals.append(np.array(vals[0]))
            return self.w * np.sum((vals[0] - self._t(vals[0]))**2)

        def _t(self, x):
            return np.resize(self.t, len(x))

        def grad(self, vals, g):
            return [g * self.w * 2 * (vals[0] - self._t(vals[0]))]

    class LinFun(problem.OptimizationFunction):

        def __init__(self, var, coef, offset):
            super().__init__([var])
            self.c, self.o = np.array(coef), offset

        def eval(self, vals):
            return np.dot(np.resize(self.c, len(vals[0])), vals[0]) + self.o

        def grad(self, vals, g):
            return [g * np.resize(self.c, len(vals[0]))]

    @optplan.register_node(QuadNode)
    def mk_quad(p, work):
        return QuadFun(work.get_object(workspace.VARIABLE_NODE), p.target,
                       p.weight)

    @optplan.register_node(LinNode)
    def mk_lin(p, work):
        return LinFun(work.get_object(workspace.VARIABLE_NODE), p.coef,
                      p.offset)

    @optplan.register_node(SpaceNode)
    def mk_space(p, work):
        return Space()

    @optplan.register_node(ParamNode)
    def mk_param(p, work):
        obj = make_param(p.kind, p.init, p.bounds)
        if CUR is not None:
            CUR.objects[p.name] = obj
        return obj

    class DescendRun:

        def __init__(self, p, work):
            self.p, self.work = p, work
            self.obj = work.get_object(p.objective)

        def __call__(self, param, event=None):
            p, log = self.p, self.work.logger
            state = event["state"] if event else None
            it = event.get("iteration", 0) if event else 0
            vel = np.array(event["velocity"]) if event and "velocity" in event \
                else np.zeros(len(param.to_vector()))
            if state is None and p.log:
                log.write({"state": "start"}, param, p.monitors)
            if state in (None, "start", "optimizing"):
                for i in range(it, p.iters):
                    g = self.obj.calculate_gradient(param)
                    vel = p.beta * vel - p.lr * g
                    param.from_vector(param.to_vector() + vel)
                    CUR.steps.append(i + 1)
                    if p.log:
                        log.write({"state": "optimizing", "iteration": i + 1,
                                   "velocity": vel.tolist()}, param, p.monitors)
            if state != "end" and p.log:
                log.write({"state": "end"}, param, p.monitors)

    @optplan.register_transformation(Descend)
    def mk_descend(p, work):
        return DescendRun(p, work)

    @optplan.register_transformation(Affine)
    def mk_affine(p, work):
        v = work.get_object(p.parameter) if p.parameter else None

        def go(param, event=None):
            k = np.asarray(v.value) if v is not None else 1.0
            param.from_vector(param.to_vector() * p.a + p.b * k)
            CUR.steps.append("affine")

        return go

    @optplan.register_transformation(Probe)
    def mk_probe(p, work):

        def go(param, event=None):
            CUR.probes.append((p.tag, snapshot(param)))

        return go

    global N
    N = dict(Quad=QuadNode, Lin=LinNode, Param=ParamNode, Descend=Descend,
             Affine=Affine, Probe=Probe, Space=SpaceNode)


def make_param(kind, init, bounds):
    from spins.invdes import parametrization as pz
    init = np.array(init)
    b = list(bounds) if bounds else None
    if b and len(b) > 2:  # element by element
        b = [tuple(b[:len(b) // 2]), tuple(b[len(b) // 2:])]
    if kind == "cubic":
        cx = np.linspace(-3, 3, 4)
        cy = np.linspace(-3, 3, 3)
        fx = np.linspace(-2.5, 2.5, 6)
        fy = np.linspace(-2.5, 2.5, 5)

        class CubicParam(pz.CubicParam):

            @property
            def generate_polygons(self):  # no GDS export at the end
                raise AttributeError

        return CubicParam(np.resize(init, 12), cx, cy, fx, fy)
    if kind == "hermite":
        cx = np.linspace(-3, 3, 3)
        fx = np.linspace(-2.5, 2.5, 5)
        return pz.HermiteParam(np.resize(init, 36), cx, cx, fx, fx)
    if kind == "grating":
        n = 2 * (len(init) // 2)
        return pz.GratingParam(np.sort(np.abs(init[:n])) * 8, num_pixels=12,
                               inverted=bool(b))
    if kind == "composite":
        if len(init) > 10:
            return pz.CompositeParam([pz.DirectParam(init[i:i + 1], bounds=b)
                                      for i in range(len(init))])
        h = max(1, len(init) // 2)
        return pz.CompositeParam([
            pz.DirectParam(init[:h], bounds=b),
            pz.DirectParam(init[h:] if len(init) > h else init, bounds=b)])
    if kind == "drawn":

        class DrawnParam(pz.DirectParam):
            """Exported as one triangle for each element."""

            def generate_polygons(self, dx):
                return drawing(self.vector, dx)

        return DrawnParam(init, bounds=b)
    return pz.DirectParam(init, bounds=b)


def drawing(vector, dx):
    return [np.array([[1e6 * i + 1e3 * v, 0], [1e6 * i + 1e3 * v + 2e5, 0],
                      [1e6 * i + 1e5, 1e5]]) * dx
            for i, v in enumerate(vector)]


def read_gds(path):
    """Triangles of an exported design, or what is wrong with it."""
    import gdspy
    try:
        cells = gdspy.GdsLibrary(infile=path).cells
        return sorted((1e3 * np.sort(np.ravel(p))).tolist()
                      for c in cells.values() for p in c.get_polygons())
    except Exception as e:  # pylint: disable=broad-except
        return "unreadable: %r" % (e,)


def snapshot(param):
    """Everything about a parametrization that affects what follows."""
    b = param.get_bounds()
    return {"vector": np.array(param.to_vector(), dtype=float).tolist(),
            "structure": np.array(param.get_structure(), dtype=float).tolist(),
            "bounds": repr(b), "type": type(param).__name__}


# -- generation ---------------------------------------------------------------
def rvec(rng, n):
    return [round(rng.uniform(-1, 1), 6) for _ in range(n)]


def gen_plan(rng, kinds=("direct",), trans=("descend", "descend", "affine"),
             nt=(1, 4)):
    n = rng.randint(1, 4)
    npar = rng.randint(1, 2)
    params = []
    for _ in range(npar):
        kind = rng.choice(kinds)
        size = n if kind in ("direct", "drawn") else rng.randint(2, 4)
        if kind == "composite" and rng.random() < 0.4:
            size = rng.randint(11, 13)
        params.append({"kind": kind, "init": rvec(rng, size),
                       "bounds": rng.choice([None, [-5.0, 5.0]])
                       if kind != "cubic" else None})
    parameters = [round(rng.uniform(0.5, 2), 5)
                  for _ in range(rng.randint(0, 3))]
    objs = []
    for _ in range(rng.randint(1, 3)):
        objs.append({"target": rvec(rng, 3), "weight": rng.choice([0.3, 1.0]),
                     "factor": rng.randrange(len(parameters))
                     if parameters and rng.random() < 0.7 else None,
                     "lin": rvec(rng, 2) if rng.random() < 0.4 else None})
    ts = []
    for i in range(rng.randint(*nt)):
        k = rng.choice(trans)
        t = {"kind": k, "param": rng.randrange(npar), "set": []}
        if parameters and rng.random() < 0.6:
            for _ in range(rng.randint(1, 2)):
                t["set"].append({"parameter": rng.randrange(len(parameters)),
                                 "coef": rvec(rng, 2),
                                 "offset": round(rng.uniform(2, 3), 3),
                                 "param": rng.randrange(npar),
                                 "inverse": rng.random() < 0.4})
        if k == "descend":
            o = rng.randrange(len(objs))
            also = [i for i in range(len(objs)) if i != o]
            t.update(obj=o, iters=rng.randint(0, 4), also=rng.sample(
                also, rng.randint(0, len(also))),
                     lr=rng.choice([0.05, 0.2]), beta=rng.choice([0.0, 0.5]),
                     monitors=rng.random() < 0.7, log=rng.random() < 0.9)
        elif k == "affine":
            t.update(a=rng.choice([0.5, 1.25, -1.0]),
                     b=round(rng.uniform(-0.5, 0.5), 3),
                     parameter=rng.randrange(len(parameters))
                     if parameters and rng.random() < 0.5 else None)
        elif k == "setk":
            t.update(k=rng.choice([1.0, 3.0, 9.0]))
        elif k in ("scipy", "penalty"):
            t.update(obj=rng.randrange(len(objs)),
                     maxiter=rng.randint(1, 5),
                     monitors=rng.random() < 0.85, con=rng.random() < 0.6)
            if k == "penalty":
                t.update(cycles=rng.randint(1, 3), mu0=rng.choice([2.0, 3.0]),
                         tau=rng.choice([1.2, 1.5]))
        ts.append(t)
    return {"params": params, "parameters": parameters, "objs": objs,
            "transforms": ts}


def gen_crashes(rng, maxn=4):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, maxn])):
        r = rng.random()
        if r < 0.75:
            f = ["crash", rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])]
        else:
            f = [rng.choice(["ENOSPC", "EIO"])]
        out.append([round(rng.random(), 4), f])
    return out


def monitor_ids(t):
    """Objectives a transformation monitors, in the order they are given."""
    also = t.get("also", [])
    return also[:1] + ([t["obj"]] if t["monitors"] else []) + also[1:]


# -- building the real plan ----------------------------------------------------
def build(case):
    """Returns the plan as JSON text, as a user would store it."""
    from spins.invdes.problem_graph import optplan
    space = N["Space"](name="space", dx=1.0)
    pn = [N["Param"](name="param_%d" % i, kind=p["kind"], init=p["init"],
                     bounds=p["bounds"], simulation_space=space)
          for i, p in enumerate(case["params"])]
    vals = [optplan.Parameter(name="value_%d" % i, initial_value=v)
            for i, v in enumerate(case["parameters"])]
    objs = []
    mons = []
    for i, o in enumerate(case["objs"]):
        f = N["Quad"](name="quad_%d" % i, target=o["target"],
                      weight=o["weight"])
        if o["factor"] is not None:
            f = optplan.Product(name="prod_%d" % i,
                                functions=[vals[o["factor"]], f])
        if o["lin"]:
            f = optplan.Sum(name="sum_%d" % i, functions=[
                f, N["Lin"](name="lin_%d" % i, coef=o["lin"], offset=0.0)])
        objs.append(f)
        mons.append(optplan.SimpleMonitor(name="mon_%d" % i, function=f))
    ts = []
    for i, t in enumerate(case["transforms"]):
        k = t["kind"]
        if k == "descend":
            x = N["Descend"](objective=objs[t["obj"]], iters=t["iters"],
                             lr=t["lr"], beta=t["beta"], log=t["log"],
                             monitors=[mons[j] for j in monitor_ids(t)])
        elif k == "affine":
            x = N["Affine"](a=t["a"], b=t["b"],
                            parameter=vals[t["parameter"]]
                            if t["parameter"] is not None else None)
        elif k == "setk":
            x = optplan.CubicParamSigmoidStrength(value=t["k"])
        elif k == "edgefit":
            x = optplan.GratingEdgeFitTransformation(
                parametrization=pn[t["source"]], min_feature=t["feature"])
        elif k == "probe":
            x = N["Probe"](tag=i)
        elif k in ("scipy", "penalty"):
            ml = optplan.ScipyOptimizerMonitorList(
                callback_monitors=[mons[t["obj"]]] if t["monitors"] else [],
                start_monitors=[mons[t["obj"]]], end_monitors=[])
            if k == "scipy":
                cons = {kk: [N["Lin"](name="%s_%d_%d" % (kk, i, j), coef=c,
                                      offset=o)
                             for j, (c, o) in enumerate(t.get(kk, ()))]
                        for kk in ("eq", "ineq")}
                x = optplan.ScipyOptimizerTransformation(
                    optimizer=t.get("method", "L-BFGS-B"),
                    objective=objs[t["obj"]], monitor_lists=ml,
                    constraints_eq=cons["eq"], constraints_ineq=cons["ineq"],
                    optimization_options=optplan.ScipyOptimizerOptions(
                        maxiter=t["maxiter"], ftol=t.get("ftol", 1e-14)))
            else:
                con = [N["Lin"](name="con_%d" % i, coef=[1.0, 0.5],
                                offset=-0.3)] if t["con"] else []
                cons = {kk: [N["Lin"](name="%s_%d_%d" % (kk, i, j), coef=c,
                                      offset=o)
                             for j, (c, o) in enumerate(t.get(kk, ()))]
                        for kk in ("eq", "ineq")}
                x = optplan.PenaltyTransformation(
                    optimizer="L-BFGS-B", objective=objs[t["obj"]],
                    constraints_eq=con + cons["eq"],
                    constraints_ineq=cons["ineq"], monitor_lists=ml,
                    optimization_options=optplan.PenaltyOptimizerOptions(
                        mu0=t["mu0"], tau=t["tau"], pf=2.0,
                        num_cycles=t["cycles"], maxiter=t["maxiter"],
                        ftol=1e-12, gtol=1e-10))
        else:
            raise AssertionError(k)
        sets = [optplan.SetParam(
            parameter=vals[s["parameter"]],
            function=N["Lin"](name="set_%d_%d" % (i, j), coef=s["coef"],
                              offset=s["offset"]),
            parametrization=pn[s["param"]], inverse=s["inverse"])
            for j, s in enumerate(t["set"])]
        ts.append(optplan.Transformation(
            name="t%d" % i, parametrization=pn[t["param"]], transformation=x,
            parameter_list=sets))
    return optplan.dumps(optplan.OptimizationPlan(transformations=ts))


# -- reference model --------------------------------------------------------------
class Model:
    """Sequential interpretation of plans of direct parametrizations."""

    def __init__(self, case):
        self.case = case
        self.x = {}
        self.p = list(case["parameters"])
        self.touched = set()  # parameters known to the workspace so far
        self.must_x = set()  # parametrizations that were transformed
        self.must_p = set()  # parameters that were set
        self.logs = []
        self.chkpts = []
        for t_i, t in enumerate(case["transforms"]):
            self.step(t_i, t)

    def vec(self, i):
        if i not in self.x:
            d = self.case["params"][i]
            self.x[i] = np.array(d["init"], dtype=float)
        return self.x[i]

    def lin(self, c, o, x):
        return float(np.dot(np.resize(np.array(c), len(x)), x) + o)

    def value(self, o, x):
        t = np.resize(np.array(o["target"]), len(x))
        v = o["weight"] * np.sum((x - t)**2)
        if o["factor"] is not None:
            v = self.p[o["factor"]] * v
        if o["lin"]:
            v = v + self.lin(o["lin"], 0.0, x)
        return v

    def gradient(self, o, x):
        t = np.resize(np.array(o["target"]), len(x))
        g = o["weight"] * 2 * (x - t)
        if o["factor"] is not None:
            g = self.p[o["factor"]] * g
        if o["lin"]:
            g = g + np.resize(np.array(o["lin"]), len(x))
        return g

    def log(self, t_i, t, event):
        o = self.case["objs"][t["obj"]]
        x = self.vec(t["param"])
        mon = {"mon_%d" % j: self.value(self.case["objs"][j], x)
               for j in monitor_ids(t)}
        self.logs.append({"transformation": "t%d" % t_i, "event": event,
                          "vector": x.copy(), "monitor_data": mon,
                          "parameters": {"value_%d" % i: self.p[i]
                                         for i in sorted(self.touched)}})

    def step(self, t_i, t):
        if t["kind"] == "descend" and \
                self.case["objs"][t["obj"]]["factor"] is not None:
            self.touched.add(self.case["objs"][t["obj"]]["factor"])
        if t["kind"] == "descend" and t["log"]:
            self.touched |= {self.case["objs"][j]["factor"]
                             for j in monitor_ids(t)} - {None}
        if t["kind"] == "affine" and t["parameter"] is not None:
            self.touched.add(t["parameter"])
        for s in t["set"]:
            v = self.lin(s["coef"], s["offset"], self.vec(s["param"]))
            self.p[s["parameter"]] = 1 / v if s["inverse"] else v
            self.touched.add(s["parameter"])
            self.must_p.add(s["parameter"])
        i = t["param"]
        self.must_x.add(i)
        x = self.vec(i)
        if t["kind"] == "descend":
            o = self.case["objs"][t["obj"]]
            if t["log"]:
                self.log(t_i, t, {"state": "start"})
            vel = np.zeros(len(x))
            for k in range(t["iters"]):
                vel = t["beta"] * vel - t["lr"] * self.gradient(o, self.x[i])
                self.x[i] = self.x[i] + vel
                if t["log"]:
                    self.log(t_i, t, {"state": "optimizing",
                                      "iteration": k + 1,
                                      "velocity": vel.tolist()})
            if t["log"]:
                self.log(t_i, t, {"state": "end"})
        elif t["kind"] == "affine":
            k = self.p[t["parameter"]] if t["parameter"] is not None else 1.0
            self.x[i] = x * t["a"] + t["b"] * k
        self.chkpts.append({"parametrizations": {"param_%d" % j: v.copy()
                                                 for j, v in self.x.items()},
                            "parameters": {"value_%d" % j: self.p[j]
                                           for j in sorted(self.touched)},
                            "must": {"param_%d" % j for j in self.must_x} |
                            {"value_%d" % j for j in self.must_p}})


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-11)


# -- running -------------------------------------------------------------------------
class Incarnation:

    def __init__(self, status, val, rec, fs):
        self.status, self.val, self.rec, self.fs = status, val, rec, fs


def launch(w, text, folder, resume, plan=None, hook=None, side=None):
    """One process: run_plan until it returns, raises or dies."""
    global CUR
    import logging
    from spins.invdes import problem_graph
    from spins.invdes.problem_graph import optplan
    sim = w.sim()
    fs = simfs.SimFS(sim, folder, plan)
    fs.run_clock()
    if hook:
        fs.hook = hook(fs)
    rec = Recorder()
    CUR = rec
    root = logging.getLogger("")
    handlers = list(root.handlers)

    def main():
        if side:
            return side(sim, fs, lambda: problem_graph.run_plan(
                optplan.loads(text), folder, save_folder=folder,
                resume=resume))
        problem_graph.run_plan(optplan.loads(text), folder,
                               save_folder=folder, resume=resume)

    try:
        status, val = w.run_sim(sim, main, fs=fs)
    finally:
        CUR = None
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
    return Incarnation(status, val, rec, fs)


STEP = re.compile(r"^step(\d+)\.pkl$")
CHKPT = re.compile(r"^t\d+\.chkpt\.pkl$")


def read_pickle(path):
    with _open(path, "rb") as f:
        return pickle.load(f)


def read_logs(folder):
    """All step files, by number. Raises if one is not readable."""
    out = {}
    for n in _listdir(folder):
        m = STEP.match(n)
        if m:
            out[int(m.group(1))] = read_pickle(os.path.join(folder, n))
    return out


def read_chkpts(folder):
    return {n[:-len(".chkpt.pkl")]: read_pickle(os.path.join(folder, n))
            for n in _listdir(folder) if CHKPT.match(n)}


class Watch:
    """Checks the log directory at every filesystem operation."""

    PATTERN = CHKPT

    def __init__(self, w, folder):
        self.w, self.folder = w, folder
        self.seen = {}
        self.sig = {}
        self.bad = False

    def __call__(self, fs):
        return lambda kind, rel: self.scan("before %s %s" % (kind, rel))

    def scan(self, when):
        if self.bad:
            return
        w = self.w
        nums = []
        for n in _listdir(self.folder):
            if not STEP.match(n) and not self.PATTERN.match(n):
                continue
            path = os.path.join(self.folder, n)
            with _open(path, "rb") as f:
                blob = f.read()
            m = STEP.match(n)
            if m:
                nums.append(int(m.group(1)))
            h = hashlib.sha256(blob).hexdigest()
            if self.seen.get(n) == h:
                continue
            try:
                d = pickle.loads(blob)
            except Exception as e:  # pylint: disable=broad-except
                self.bad = True
                w.violation("torn-file", "%s is not a complete record %s: %r" %
                            (n, when, e))
                return
            if n in self.seen and m:
                self.bad = True
                w.violation("log-overwritten", "%s was complete and is "
                            "replaced by other content %s" % (n, when))
                return
            if m and d.get("log_counter") != int(m.group(1)):
                self.bad = True
                w.violation("log-misnumbered", "%s holds record %r" %
                            (n, d.get("log_counter")))
                return
            self.seen[n] = h
        gone = [n for n in self.seen
                if not os.path.exists(os.path.join(self.folder, n))]
        if gone:
            self.bad = True
            w.violation("log-lost", "%s disappeared %s" % (gone, when))
        elif sorted(nums) != list(range(1, len(nums) + 1)):
            self.bad = True
            w.violation("log-gap", "log files are %s %s" % (sorted(nums), when))


def execute(w, case, watch=False, side=None, after=None,
            first_resume=False, strict=True):
    """Uninterrupted run, then the crashing one. Returns both, or None."""
    text = build(case)
    ref = w.mkroot("ref")
    r0 = launch(w, text, ref, False)
    if r0.status != "ok":
        if r0.status == "raised":
            raise r0.val
        w.violation("no-progress", "uninterrupted run: %s" % (r0.val,))
        return None
    nops = r0.fs.op
    folder = w.mkroot("run")
    hook = Watch(w, folder) if watch else None
    incs = []
    resume = first_resume
    fired = 0
    for u, f in case["crashes"] + [[None, None]]:
        plan = [] if u is None else [(1 + int(u * nops), f)]
        have = [int(m.group(1)) for m in map(STEP.match, _listdir(folder)) if m]
        inc = launch(w, text, folder, resume, plan, hook, side)
        inc.resumed_from = max(have, default=0) if resume else 0
        inc.first = inc.rec.evals[0] if inc.rec.evals else None
        incs.append(inc)
        resume = True
        if after:
            after(folder)
        if hook:
            hook.scan("after the process ended")
        if inc.status == "ok":
            if inc.fs.fired:
                w.count("probe:fault-absorbed")
            break
        fired += 1
        if inc.status == "crashed":
            continue
        if inc.status == "raised" and isinstance(inc.val, OSError) and \
                inc.fs.fired and inc.fs.fired[-1][1] in ("ENOSPC", "EIO"):
            w.count("probe:disk-error-raised")
            continue
        if not strict:
            return None
        if inc.status == "raised":
            import traceback
            tb = traceback.extract_tb(inc.val.__traceback__)
            w.violation("resume-failed", "incarnation %d (after %s) raised %r "
                        "at %s" % (len(incs) - 1, [i.fs.fired for i in
                                                   incs[:-1]], inc.val,
                                   " <- ".join("%s:%d" % (
                                       os.path.basename(f.filename), f.lineno)
                                       for f in reversed(tb[-4:]))))
        else:
            w.violation("no-progress", "incarnation %d: %s" %
                        (len(incs) - 1, inc.val))
        return None
    w.nontrivial = fired > 0
    w.count("probe:incarnations", len(incs))
    w.state_mark([t["kind"] for t in case["transforms"]],
                 [i.fs.fired for i in incs])
    w.sample = {"transforms": [t["kind"] for t in case["transforms"]],
                "faults": [i.fs.fired for i in incs if i.fs.fired],
                "incarnations": len(incs)}
    if incs[-1].status != "ok":
        return None
    return r0, ref, incs, folder


def shrink(case):
    import copy
    for i in range(len(case["transforms"])):
        if len(case["transforms"]) > 1:
            c = copy.deepcopy(case)
            del c["transforms"][i]
            yield c
        t = case["transforms"][i]
        if t["set"]:
            c = copy.deepcopy(case)
            c["transforms"][i]["set"] = []
            yield c
        if t.get("iters", 0) > 1:
            c = copy.deepcopy(case)
            c["transforms"][i]["iters"] = 1
            yield c
    for i in range(len(case["crashes"])):
        c = copy.deepcopy(case)
        del c["crashes"][i]
        yield c


def vectors(chk):
    return {k: np.array(v["vector"]) for k, v in
            chk["parametrizations"].items()}


REAL_COMP = ["spins.invdes.problem_graph run_plan, workspace, logger, "
             "checkpoint restore, transformations and node creators",
             "spins.invdes.optimization (scipy), spins.invdes.problem graph "
             "executor", "spins.invdes.parametrization", "pickle"]
STUB_COMP = ["filesystem calls (real scratch files behind simulated buffers, "
             "crashes and disk errors)", "clock, thread scheduler (simkit)",
             "objective functions, two deterministic transformations and the "
             "simulation space, registered by the harness", "GDS export of "
             "the final design (disabled)"]
ASSUME = ["a process crash keeps everything handed to the OS and an arbitrary "
          "prefix of the user-space buffer; loss of OS buffers (power loss) is "
          "not simulated",
          "the save folder is fresh at the first run; the plan is the same at "
          "every resume"]
