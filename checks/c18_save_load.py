"""C18: a saved goos plan is complete at any moment and loads as it was."""
import json
import logging
import os

import numpy as np

from checks import goosplan as gp
from checks import invplan as ip
from simkit import simfs

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 20000}
BUDGET = {"quick": 70, "thorough": 1500}
RULE = ("one evaluation = one seeded history of 2-5 processes that each load "
        "the plan saved before, extend it and save it, with crashes, disk "
        "errors and unserializable nodes during the save; non-trivial = a save "
        "was cut short or an extended plan was loaded; distinct by (plan, "
        "faults fired)")
REAL, STUBS = gp.REAL_COMP, gp.STUB_COMP
ASSUMPTIONS = [gp.ASSUME[0], "every process starts with fresh automatic node "
               "name counters"]
SHRINK_LISTS = ["sessions"]
_listdir = simfs._real["listdir"]


def setup():
    gp.setup()
    from spins.goos import compat, shapes, material  # noqa
    import spins.goos_sim.maxwell  # noqa


# -- generation -------------------------------------------------------------------
VEC = ("affine", "sum", "prod", "power", "abs", "max", "sigmoid", "rename",
       "slice")
SCAL = ("dot", "norm", "sq")
SHAPES = ("cuboid", "cylinder", "sphere", "group", "item", "translate",
          "pixels", "complex", "conjugate", "renamed shape", "barcode",
          "grating", "edges", "render", "param", "sim")
OTHER = ("complex", "conjugate", "barcode", "edges", "render", "sim")
DRAWN = ("goos.shape.cuboid",
         "goos.shape.pixelated_cont_shape",
         "goos.compat.spins0_2_0.shape.param")


def values(rng, n):
    """Values of any precision and magnitude."""
    r = rng.random()
    if r < 0.5:
        return ip.rvec(rng, n)
    if r < 0.75:
        return [rng.gauss(0, 1) for _ in range(n)]
    return [rng.gauss(0, 1) * 10.0**rng.randint(-20, 3) for _ in range(n)]


def gen(rng, tier):
    n = rng.randint(1, 3)
    c = {"n": n, "sessions": []}
    for s in range(rng.randint(2, 5)):
        nodes = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            # References are fractions: they pick among what exists.
            if r < 0.3 or (s == 0 and not nodes):
                b = rng.choice([None, "scalar", "array"])
                nodes.append({"k": "var", "init": values(rng, n), "bounds": b,
                              "parameter": rng.random() < 0.2,
                              "named": rng.random() < 0.5})
            elif r < 0.65:
                nodes.append({"k": rng.choice(VEC), "a": rng.random(),
                              "b": rng.random(),
                              "p": rng.choice([2, 3, 0.5, -1.25]),
                              "named": rng.random() < 0.3})
            elif r < 0.8:
                nodes.append({"k": rng.choice(SCAL), "a": rng.random(),
                              "b": rng.random(), "p": rng.choice([1.0, 2.0]),
                              "named": rng.random() < 0.3})
            else:
                nodes.append({"k": rng.choice(SHAPES), "a": rng.random(),
                              "b": rng.random(),
                              "p": rng.uniform(1, 3) if rng.random() < 0.5
                              else round(rng.uniform(1, 3), 4),
                              "named": rng.random() < 0.3})
        acts = []
        for _ in range(rng.randint(0, 2)):
            acts.append({"k": rng.choice(["set", "set", "freeze", "thaw",
                                          "print"]),
                         "a": rng.random(), "b": rng.random(),
                         "val": values(rng, n)})
        d = {"nodes": nodes, "actions": acts, "saves": rng.choice([1, 1, 2]),
             "run": rng.random() < 0.3, "reuse": rng.random() < 0.5}
        r = rng.random()
        if r < 0.5:
            d["fault"] = [rng.randint(1, 16),
                          ["crash", rng.choice([0.0, 0.3, 0.6, 1.0])]
                          if rng.random() < 0.7 else
                          [rng.choice(["ENOSPC", "EIO"])]]
        elif r < 0.6:
            d["poison"] = True
        c["sessions"].append(d)
    return c


# -- building ---------------------------------------------------------------------
class Builder:

    def __init__(self, w, case, plan, known):
        from spins import goos
        from spins.goos import material
        self.goos, self.w, self.case, self.plan = goos, w, case, plan
        self.mat = material
        # Names by kind of value, in creation order.
        self.known = known
        self.count = len(known["all"])
        self.arrays = []

    def arr(self, x):
        """An array of the caller, who may use it again afterwards."""
        x = np.array(x, dtype=float)
        self.arrays.append(x)
        return x

    def reuse(self):
        for x in self.arrays:
            x += 100.0
        self.arrays.clear()

    def node(self, name):
        return self.plan.get_node(name)

    def pick(self, kind, u):
        names = self.known[kind]
        return self.node(names[int(u * len(names))])

    def add(self, node, kind, checked=True):
        name = node._goos_name
        if checked and name in self.known["all"]:
            self.w.violation("name-reused", "a new node got the name %s of an "
                             "existing one" % name)
        if name not in self.known["all"]:
            self.known["all"].append(name)
            self.known[kind].append(name)
            if node.node_type in DRAWN:
                self.known["drawn"].append(name)

    def make(self, d):
        goos, n = self.goos, self.case["n"]
        k = d["k"]
        kw = {}
        if d["named"]:
            kw["name"] = "user%d" % self.count
        self.count += 1
        if k == "var":
            lo = hi = None
            if d["bounds"] == "scalar":
                lo, hi = -5.0, 5.0
            elif d["bounds"] == "array":
                lo = self.arr(np.arange(n) - 7.0)
                hi = self.arr(np.arange(n) + 7.5)
            v = goos.Variable(self.arr(d["init"]), lower_bounds=lo,
                              upper_bounds=hi, parameter=d["parameter"], **kw)
            self.add(v, "vec")
            self.known["var"].append(v._goos_name)
            if not d["parameter"]:
                self.known["free"].append(v._goos_name)
            return
        if k == "cuboid":
            self.add(goos.Cuboid(
                pos=goos.Constant(self.arr([d["p"], 2.0, 3.0])),
                extents=goos.Constant([1.0, d["p"], 1.0]),
                material=self.mat.Material(index=d["p"]), **kw), "shape")
            return
        if k == "cylinder":
            self.add(goos.Cylinder(
                pos=goos.Constant(self.arr([d["p"], 2.0, 3.0])),
                radius=goos.Constant(d["p"]), height=goos.Constant(1.5),
                material=self.mat.Material(index=1.5), **kw), "shape")
            return
        if k in SHAPES:
            x = self.shape(k, d, kw)
            if not x:  # nothing to refer to
                x, k = self.shape("sphere", d, kw), "sphere"
            self.add(x, "group" if k == "group" else
                     "other" if k in OTHER else "shape")
            return
        if not self.known["vec"]:
            self.make({"k": "var", "init": [0.5] * n, "bounds": None,
                       "parameter": False, "named": False})
        a = self.pick("vec", d["a"])
        b = self.pick("vec", d["b"])
        if k == "affine":
            x = a * self.arr(np.full(n, float(d["p"]))) + self.arr(
                np.full(n, 0.25))
        elif k == "sum":
            x = goos.Sum([a, b], **kw)
        elif k == "prod":
            x = goos.Product([a, b], **kw)
        elif k == "power":
            x = goos.Power(a, int(d["p"]) if d["p"] in (2, 3) else 2, **kw)
        elif k == "abs":
            x = goos.abs(a, **kw)
        elif k == "max":
            x = goos.max(a, b, **kw)
        elif k == "sigmoid":
            x = goos.Sigmoid(a, **kw)
        elif k == "rename":
            x = goos.rename(a, "renamed%d" % self.count)
        elif k == "slice":
            self.add(goos.Slice(a, [[0, [0, 1], "c", "center"][
                int(4 * d["b"])]], **kw), "scal")
            return
        elif k == "dot":
            self.add(goos.dot(a, b, **kw), "scal")
            return
        elif k == "norm":
            self.add(goos.norm(a, order=int(d["p"]) + 1, **kw), "scal")
            return
        else:
            f = gp.N["Sq"](a, [0.5, -0.25], d["p"], **kw)
            self.add(f, "scal")
            return
        self.add(x, "vec")

    def shape(self, k, d, kw):
        goos, p = self.goos, d["p"]
        mat = lambda n: self.mat.Material(index=n)
        const = lambda x: goos.Constant(self.arr(x))
        if k == "sphere":
            return goos.Sphere(pos=const([p, 0.5, 1.0]), radius=const(p),
                               material=mat(1.5 - 0.25j * p), **kw)
        if k == "complex":
            return goos.Constant(np.array([1.5 + p * 1j, -p] if p < 2 else
                                          [p, 1.5 + p * 1j]), **kw)
        if k == "conjugate":
            return goos.Conjugate(goos.Constant(np.array([1.5 + p * 1j, p])), **kw)
        if k == "edges":
            return goos.grating.EdgeLocConstraint(
                const([0.1, 0.5, p]), goos.Constant([0, 1, 0]),
                min_features=self.arr([0.1, 0.2]), grating_len=p, **kw)
        if k == "barcode":
            return goos.grating.BarcodeGrating(
                const([0.2, 0.5, 1.0]), const([0.8, 0.5]), self.arr([1, 2, 3]),
                self.arr([2, 10, p]), mat(p), grating_dir=0, **kw)
        if k == "grating":
            return goos.grating.PixelatedGrating(
                const([0, 1, 1.5, 2]), height_index=goos.Constant(
                    [2, 0, 1, 2]), height_fracs=self.arr([0, 0.5, 1]),
                pos=self.arr([0, p, 0]), extents=self.arr([2, 10, 0.220]),
                material=mat(1), material2=mat(p), grating_dir=0,
                grating_dir_spacing=0.5, etch_dir_divs=2, use_edge_locs=True,
                **kw)
        if k == "pixels":
            return goos.PixelatedContShape(
                const([[[0.5], [p]], [[0.25], [1.0]]]), self.arr([1, 1, 1]),
                const([0, p, 0]), self.arr([2, 2, 1]), material=mat(1),
                material2=mat(p), **kw)
        if k == "param":
            var, x = goos.cubic_param_shape(
                lambda size: self.arr(np.linspace(0.2, 0.2 * p, int(
                    np.prod(size))).reshape(size)),
                extents=self.arr([120, 80, 40]), pixel_spacing=40,
                control_point_spacing=80, pos=const([0, p, 0]),
                var_name="param%d" % self.count,
                reflection_symmetry=[int(d["a"] < 0.5), 0],
                material=mat(1), material2=mat(p), **kw)
            self.add(var, "other")
            return x
        if k in ("render", "sim"):
            return self.known["drawn"] and self.simulation(k, d, kw)
        if not self.known["shape"]:
            return None
        if k == "item":
            if not self.known["group"]:
                return None
            g = self.pick("group", d["a"])
            return goos.rename(g[int(d["b"] * 2)], "item%d" % self.count)
        a = self.pick("shape", d["a"])
        if k == "group":
            return goos.GroupShape([a, self.pick("shape", d["b"])], **kw)
        if k == "translate":
            return goos.TranslateShape(a, self.arr([p, 0, -p]), **kw)
        return goos.rename(a, "rshape%d" % self.count)

    def simulation(self, k, d, kw):
        from spins.goos_sim import maxwell
        goos, p = self.goos, d["p"]
        space = maxwell.SimulationSpace(
            mesh=maxwell.UniformMesh(dx=1), sim_region=goos.Box3d(
                center=[0, 0, p], extents=[5, 4, 1]),
            pml_thickness=[1, 1, 0, 0, 0, 0])
        shape = self.pick("drawn", d["a"])
        back = self.mat.Material(index=1.25)
        if k == "render":
            return maxwell.RenderShape(shape, region=space.sim_region,
                                       mesh=space.mesh, wavelength=30 * p,
                                       background=back, **kw)
        sim = maxwell.fdfd_simulation(
            eps=shape, background=back, wavelength=10 * p,
            simulation_space=space, sources=[maxwell.DipoleSource(
                position=[0, 1, p], axis=int(3 * d["b"]), phase=p,
                power=1.5)],
            solver_info=maxwell.DirectSolver(multiprocessing=False),
            outputs=[maxwell.Epsilon(name="eps"),
                     maxwell.ElectricField(name="fields")], **kw)
        self.add(sim["fields"], "other")
        return sim

    def action(self, d):
        goos = self.goos
        k = d["k"]
        if k == "set" and not self.known["var"]:
            return
        if k == "set":
            v = self.pick("var", d["a"])
            src = self.arr(d["val"]) if d["b"] < 0.5 else self.pick(
                "vec", (d["b"] - 0.5) * 2)
            v.set(src)
        elif k == "print":
            vs = self.known["vec"]
            if d["b"] < 0.3 or not vs:
                goos.log_print("hello")
            elif d["b"] < 0.6:
                goos.log_print(self.pick("vec", d["a"]))
            else:
                goos.log_print([self.pick("vec", d["a"]),
                                self.pick("vec", 0.0)])
        elif self.known["free"]:
            v = self.pick("free", d["a"])
            v.freeze() if k == "freeze" else v.thaw()


def flow_repr(x):
    """A comparable form of a flow."""
    if hasattr(x, "to_primitive"):
        return x.to_primitive()
    if isinstance(x, np.ndarray):
        return [list(x.shape), [number(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, (int, float, complex)) for v in x):
            return flow_repr(np.array(x))
        return [flow_repr(v) for v in x]
    if hasattr(x, "__dict__"):
        return {k: flow_repr(v) for k, v in sorted(vars(x).items())}
    if isinstance(x, np.generic):
        x = x.item()
    return number(x)


def number(x):
    """Numbers compare by value, not by type."""
    if isinstance(x, (int, float, complex)) and not isinstance(x, bool):
        return [float(np.real(x)), float(np.imag(x))]
    return x


def snapshot(plan, known):
    """What a user can see of the plan before it runs."""
    nodes = {}
    for name in known["all"]:
        n = plan.get_node(name)
        nodes[name] = [n.node_type, flow_repr(plan.eval_node(n))]
    state = plan.get_state_dict()["variable_data"]
    vs = {k: [np.array(d["value"]).tolist(), bool(d["frozen"]),
              np.array(d["bounds"][0]).tolist(),
              np.array(d["bounds"][1]).tolist()] for k, d in state.items()}
    grads = {}
    for name in known["scal"]:
        n = plan.get_node(name)
        if known["var"]:
            gs = plan.eval_grad(n, [plan.get_node(v) for v in known["var"]])
            grads[name] = [flow_repr(np.asarray(g.array_grad)) for g in gs]
    return {"nodes": nodes, "vars": vs, "grads": grads}


def final(plan):
    said = []
    log = plan.logger
    handler = logging.Handler()
    handler.emit = lambda record: said.append(record.getMessage())
    level = log.level
    log.addHandler(handler)
    log.setLevel(logging.INFO)
    try:
        plan.run()
    except ValueError as e:  # setting a variable that is frozen
        return ["raised", str(e), state_of(plan)]
    finally:
        log.removeHandler(handler)
        log.setLevel(level)
    # Printed by actions.
    said = [m for m in said if m.startswith("hello") or "Flow(" in m]
    return ["ok", "", state_of(plan), said]


def state_of(plan):
    d = plan.get_state_dict()
    return {"ptr": d["action_ptr"], "action": d["action"],
            "vars": {k: [np.array(v["value"]).tolist(), bool(v["frozen"])]
                     for k, v in d["variable_data"].items()}}


def file_key(path):
    """Which plan the file holds: its node names and number of actions."""
    with ip._open(path) as f:
        d = json.load(f)
    return (sorted(n["name"] for n in d.get("nodes") or []), len(d.get("actions") or []))


def run(w, case):
    from spins import goos
    folder = w.mkroot("plan")
    path = os.path.join(folder, "optplan.json")
    versions = []  # (file key, snapshot, known, final state) of complete saves
    cut = extended = 0
    cur = None  # what the next load must give
    for si, s in enumerate(case["sessions"]):
        sim = w.sim()
        fs = simfs.SimFS(sim, folder, [s["fault"]] if s.get("fault") else [])
        fs.run_clock()
        allowed = [cur[0]] if cur else []
        seen = [None]

        def watch(kind, rel):
            if w.violations or not os.path.exists(path):
                if cur is not None and not os.path.exists(path):
                    w.violation("plan-lost", "the saved plan is missing before "
                                "%s %s" % (kind, rel))
                return
            with ip._open(path, "rb") as f:
                blob = f.read()
            if blob == seen[0]:
                return
            seen[0] = blob
            try:
                key = file_key(path)
            except Exception as e:  # pylint: disable=broad-except
                w.violation("torn-plan", "optplan.json is not a complete plan "
                            "before %s %s: %r" % (kind, rel, e))
                return
            w.check(key in allowed, "foreign-plan", "optplan.json holds "
                    "neither the old nor the new plan before %s %s" %
                    (kind, rel))

        fs.hook = watch
        made = {}

        def main():
            gp.CUR = gp.Recorder()
            with goos.OptimizationPlan(save_path=folder) as plan:
                if cur is not None:
                    plan.load()
                    made["loaded"] = (snapshot(plan, cur[2]))
                known = {k: list(v) for k, v in cur[2].items()} if cur else {
                    "all": [], "vec": [], "scal": [], "shape": [],
                    "group": [], "other": [], "var": [],
                    "free": [], "drawn": []}
                b = Builder(w, case, plan, known)
                for d in s["nodes"]:
                    b.make(d)
                for a in s["actions"]:
                    b.action(a)
                if s["reuse"]:
                    b.reuse()
                nact = plan_actions(plan)
                made["nact"] = nact
                snap = snapshot(plan, known)
                if s.get("poison"):
                    goos.Constant(np.array([object()]))
                    try:
                        plan.save()
                    except OSError:
                        raise
                    except Exception:  # pylint: disable=broad-except
                        made["poisoned"] = True
                        return
                    made["poison-saved"] = True
                    return
                for _ in range(s["saves"]):
                    made["new"] = [None, snap, known, None]
                    try:
                        plan.save()
                    finally:
                        watch("the end of", "save()")
                    made["saved"] = True
                if s["run"]:
                    made["new"][3] = final(plan)

        def plan_actions(plan):
            allowed.append(New(cur[0] if cur else None))
            return None

        try:
            status, val = w.run_sim(sim, main, fs=fs)
        finally:
            gp.CUR = None
            gp.fresh_process()
        if status == "raised" and not (isinstance(val, OSError) and fs.fired):
            raise val
        if status == "raised":
            w.count("probe:disk-error-raised")
        if status == "failed":
            w.violation("no-progress", str(val))
        if w.violations:
            return
        if "loaded" in made and not same_snapshot(w, si, made["loaded"],
                                                  cur[1]):
            return
        if "loaded" in made:
            extended += 1
        if made.get("poison-saved"):
            w.violation("saved-unserializable", "save() accepted an array of "
                        "objects")
            return
        if made.get("poisoned"):
            w.count("probe:failed-serialization")
        if status != "ok":
            cut += 1
        fs.hook = None
        if not os.path.exists(path):
            if cur is not None or made.get("saved"):
                w.violation("plan-lost", "the saved plan is missing after "
                            "process %d (%s)" % (si, fs.fired))
                return
            continue
        try:
            key = file_key(path)
        except Exception as e:  # pylint: disable=broad-except
            w.violation("torn-plan", "optplan.json is not a complete plan "
                        "after process %d (%s): %r" % (si, fs.fired, e))
            return
        if cur is not None and key == cur[0]:
            if made.get("saved"):
                w.violation("save-lost", "process %d saved the plan but the "
                            "file holds the old one" % si)
                return
        elif "new" in made:
            cur = made["new"]
            cur[0] = key
        else:
            w.violation("foreign-plan", "process %d did not save but the plan "
                        "changed" % si)
            return
    w.nontrivial = bool(cut or extended)
    w.count("probe:saves-cut-short", cut)
    w.count("probe:extended-plans-loaded", extended)
    w.state_mark([[d["k"] for d in s["nodes"]] for s in case["sessions"]],
                 w.fired)
    w.sample = {"sessions": [[d["k"] for d in s["nodes"] + s["actions"]]
                             for s in case["sessions"]],
                "faults": w.fired}
    if cur is None:
        return
    last(w, case, folder, cur)


class New:
    """Accepts any plan that extends the old one."""

    def __init__(self, old):
        self.old = old

    def __eq__(self, key):
        return self.old is None or (set(self.old[0]) <= set(key[0]) and
                                    key[1] >= self.old[1] and key != self.old)


def same_snapshot(w, si, got, want):
    for part in ("vars", "nodes", "grads"):
        for k in sorted(set(got[part]) | set(want[part])):
            if not same(got[part].get(k), want[part].get(k)):
                w.violation("loaded-differently", "process %s: %s of %s is %s "
                            "after loading, %s when saved" %
                            (si, part, k, got[part].get(k),
                             want[part].get(k)))
                return False
    return True


def same(a, b):
    return json.dumps(a, sort_keys=True, default=str) == \
        json.dumps(b, sort_keys=True, default=str)


def last(w, case, folder, cur):
    """A reader in a new process gets the plan and runs it as the saver did."""
    from spins import goos
    out = {}
    for name in ("a", "b"):
        sim = w.sim()
        fs = simfs.SimFS(sim, folder, [])

        def main():
            gp.CUR = gp.Recorder()
            with goos.OptimizationPlan() as plan:
                plan.load(folder)
                out[name, "snap"] = snapshot(plan, cur[2])
                out[name, "final"] = final(plan)
                plan.save(folder)

        try:
            status, val = w.run_sim(sim, main, fs=fs)
        finally:
            gp.CUR = None
            gp.fresh_process()
        if status == "raised":
            raise val
        if not same_snapshot(w, "last" + name, out[name, "snap"], cur[1]):
            return
        if cur[3] is not None:
            w.count("probe:ran-after-load")
            w.check(same(out[name, "final"], cur[3]), "runs-differently",
                    "the loaded plan ran to %s, the saved one to %s" %
                    (out[name, "final"], cur[3]))
    w.check(same(out["a", "final"], out["b", "final"]), "resave-differs",
            "a plan loaded and saved again runs to %s, before to %s" %
            (out["b", "final"], out["a", "final"]))
