"""C06: simulation nodes always reflect the structure they are asked about."""
import copy
import inspect
import threading
from typing import List

import numpy as np

from checks import goosgraph as gg
from checks import graphlib as gl
from checks import simplan
from simkit import kernel

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 16000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: a history of structure changes, "
        "objective, gradient and constraint evaluations over several cached "
        "simulation nodes sharing one solver pool, with solver failures, under "
        "one schedule; non-trivial = at least two solves ran; distinct by "
        "(history, faults)")
REAL = ["spins.goos_sim.maxwell.simulate.SimulateNode",
        "spins.invdes.problem_graph.creator_em.FdfdSimulation",
        "spins.fdfd_solvers.local_matrix_solvers (direct sparse solves)",
        "SimulateEigNode, RenderShape and the shapes it draws, mode source "
        "and overlap outputs",
        "in the plan cases everything that an optimization plan makes of its "
        "schemas: SimulationSpace drawn from GDS files, Epsilon, sources, "
        "overlaps, DiffEpsilon, Workspace, mode solver",
        "both graph executors, OptimizationProblem, ThreadPoolExecutor"]
STUBS = ["multiprocessing.Pool (simulated workers, pickle boundary kept)",
         "thread scheduler and locks (simkit)",
         "waveguide mode solver (in goos and single-node cases) and remote "
         "eigensolver (cheap functions of their arguments)",
         "permittivity of some cases (an affine node; others are rendered)"]
ASSUMPTIONS = ["goos simulation nodes are evaluated by one caller at a time "
               "(their results are read back from the node); the legacy "
               "simulation nodes are shared by parallel constraint threads",
               "the structure does not change where modes are calculated: "
               "goos sources and overlaps calculate theirs once, by design"]

CLS = {}
SHAPE = (3, 3, 1)
NV = 4


class SolverDown(RuntimeError):
    pass


def weights(k, seed):
    r = np.random.RandomState(1000 * seed + k)
    return r.uniform(0.2, 1.0, size=(NV, 3) + SHAPE)


def overlap_vec(k, seed):
    r = np.random.RandomState(77 * seed + k)
    return r.uniform(-1, 1, size=(3,) + SHAPE) + 1j * r.uniform(
        -1, 1, size=(3,) + SHAPE)


def source_vec(k):
    j = np.zeros((3,) + SHAPE, dtype=complex)
    j[k % 3, 1, k % 3, 0] = 1.0 + 0.5j
    return j


def setup():
    if CLS:
        return
    from spins.fdfd_solvers import waveguide_mode

    real = (waveguide_mode.build_overlap, waveguide_mode.build_waveguide_source)
    CLS["real_modes"] = False

    # The mode solver; mode numbers pick the vectors, which also depend on the
    # frequency. They do not depend on the structure: nodes calculate a mode
    # once, because ports lie outside of what is designed.
    def scale(omega, eps):
        return 1 + 0.1 * omega

    # The real one starts from random vectors: it is made a function, since
    # modes that are hard to calculate come out a bit different every time.
    known = {}

    sigs = [inspect.signature(f) for f in real]

    def mode(which, args, kw):
        b = sigs[which].bind(*args, **kw)
        b.apply_defaults()
        q = b.arguments
        if not CLS["real_modes"]:
            m, sc = q["mode_num"], scale(q["omega"], q["eps"])
            return list((source_vec(m) if which else
                         overlap_vec(m % 100, m // 100)) * sc)
        key = [which]
        for name, x in sorted(q.items()):
            if name in ("dxes", "eps", "mu") and x is not None:
                x = [np.ascontiguousarray(y).tobytes() for part in x for y in
                     (part if isinstance(part, (list, tuple)) else [part])]
            key.append((name, str(x)))
        key = str(key)
        if key not in known:
            known[key] = real[which](*args, **kw)
        return copy.deepcopy(known[key])

    def build_overlap(*args, **kw):
        return mode(0, args, kw)

    def build_source(*args, **kw):
        return mode(1, args, kw)

    waveguide_mode.build_overlap = build_overlap
    waveguide_mode.build_waveguide_source = build_source

    from spins import goos
    from spins.goos_sim import maxwell
    from spins.goos_sim.maxwell import simulate
    from spins.invdes import problem

    class EpsNode(goos.Function):
        node_type = "verif.eps"

        def __init__(self, fun: goos.Function, k: int, seed: int) -> None:
            super().__init__(fun)
            self.w = weights(k, seed)

        def eval(self, inputs):
            return goos.NumericFlow(
                (2.0 + np.tensordot(inputs[0].array.reshape(-1), self.w,
                                    1)).astype(complex))

        def grad(self, inputs, grad_val):
            return [goos.NumericFlow.Grad(np.reshape(np.real(np.tensordot(
                self.w, grad_val.array_grad, 4)), inputs[0].array.shape))]

    @goos.polymorphic_model()
    class Slv(simulate.Solver):
        type = goos.ModelNameType("verif.solver")
        real = goos.types.BooleanType()

    @maxwell.register(Slv)
    class SlvImpl:

        def __init__(self, p, dims):
            self.s = CLS["solvers"][bool(p.real)]

        def solve(self, *a, **k):
            return self.s.solve(*a, **k)

    class EigSolver:
        """Stands in for the remote eigensolver: one dense eigenpair."""

        def __init__(self, shape=None, solver=None, **kw):
            pass

        def solve(self, omega, dxes, J, epsilon, mu=None, bloch_vec=None,
                  pml_layers=None, symmetry=None, n_eig=1, **kw):
            hook = CLS.get("eig_hook")
            if hook:
                hook()
            e = np.asarray(epsilon).reshape(-1)
            n = e.size
            r = np.random.RandomState(7)
            a = r.uniform(-.2, .2, (n, n))
            a = a + a.T + np.diag(np.arange(1.0, n + 1))
            d = 1 / np.sqrt(np.real(e))
            val, vec = np.linalg.eigh(d[:, None] * a * d[None, :])
            i = int(np.argmin(np.abs(val - omega**2)))
            x = vec[:, i] * np.sign(vec[np.argmax(np.abs(vec[:, i])), i])
            return [x.astype(complex)], [np.sqrt(np.abs(val[i])) + 0j]

    CLS["EigSolver"] = EigSolver

    class AbsSq(goos.Function):
        node_type = "verif.abssq"

        def __init__(self, fun: goos.Function) -> None:
            super().__init__(fun)

        def eval(self, inputs):
            return goos.NumericFlow(np.abs(inputs[0].array)**2)

        def grad(self, inputs, grad_val):
            return [goos.NumericFlow.Grad(
                grad_val.array_grad * 2 * np.conj(inputs[0].array))]

    class IEps(problem.OptimizationFunction):

        def __init__(self, var, k, seed):
            super().__init__(var)
            self.w = weights(k, seed)

        def eval(self, v):
            return (2.0 + np.tensordot(v[0], self.w, 1)).reshape(-1)

        def grad(self, v, g):
            return [np.real(self.w.reshape(NV, -1) @ g)]

    class IOverlap(problem.OptimizationFunction):

        def __init__(self, fields, k, seed):
            super().__init__(fields)
            self.w = overlap_vec(k, seed).reshape(-1)

        def eval(self, v):
            return np.dot(self.w, v[0])

        def grad(self, v, g):
            return [g * self.w]

    from spins.invdes.problem_graph import creator_em

    class Light(creator_em.FdfdSimulation):
        heavy_compute = False

    class Space:
        dxes = [[np.ones(3), np.ones(3) * 1.1, np.ones(1)]] * 2
        pml_layers = [0] * 6

    where = dict(center=[0, 0, 0], extents=[0, 3, 1], normal=[1, 0, 0],
                 power=1.0)

    def Src(k):
        return maxwell.WaveguideModeSource(mode_num=k, **where)

    def Out(k, seed, name):
        return maxwell.WaveguideModeOverlap(mode_num=k + 100 * seed, name=name,
                                            wavelength=5.0, **where)

    CLS.update(EpsNode=EpsNode, Src=Src, Out=Out, AbsSq=AbsSq, IEps=IEps, Slv=Slv,
               Light=Light,
               IOverlap=IOverlap, Space=Space)


def gen(rng, tier):
    stack = rng.choice(["goos", "goos", "invdes", "invdes", "plan"])
    nsim = rng.randint(1, 3)
    ops = []
    for _ in range(rng.randint(2, 6 if tier == "quick" else 10)):
        kind = rng.choice(["set", "set", "eval", "grad", "back", "nudge"] +
                          (["cons", "consgrad"] * 2 if stack == "invdes"
                           else []) + ["fields"])
        if kind == "set":
            ops.append(["set", [round(rng.uniform(-.5, .5), 2)
                                for _ in range(NV)]])
        elif kind in ("back", "nudge"):
            ops.append([kind])
        elif kind in ("cons", "consgrad"):
            ops.append([kind, [rng.randrange(2 * nsim + 1)
                               for _ in range(rng.randint(2, 4))]])
        elif kind == "fields":
            ops.append([kind, rng.randrange(nsim)])
        else:
            # two objectives per simulation, then the weighted sum of all
            ops.append([kind, rng.choice([2 * nsim, 2 * nsim,
                                          rng.randrange(2 * nsim)])])
    fail = sorted({rng.randint(1, 10) for _ in range(rng.choice([0, 0, 1, 2]))})
    c = {"stack": stack, "nsim": nsim, "ops": ops, "faults": fail,
            "p0": [round(rng.uniform(-.5, .5), 2) for _ in range(NV)],
            "cache": rng.choice([1, 1, 2, 3]), "gseed": rng.randint(1, 5),
            "shared_eps": rng.random() < 0.5, "procs": rng.choice([1, 2, 4]),
            "strategy": rng.choice(gg.SCHED), "cpus": rng.choice([1, 2, 4]),
            "trace": rng.choice(["none", "none", "none", "line"]),
            "heavy": rng.random() < 0.8, "scribble": rng.random() < 0.5,
            "scale": rng.choice([1.0, 1.0, 1e-11]), "render": rng.random() < 0.4,
            "eig": [k for k in range(nsim) if rng.random() < 0.2]}
    if stack == "plan":
        c["sims"], c["ops"] = simplan.gen(rng, tier)
        c["nsim"] = len(c["sims"])
    return c


def run(w, case):
    from spins.fdfd_solvers import local_matrix_solvers as lms
    tf = ["/spins/invdes/problem_graph/creator_em", "/goos_sim/maxwell/sim"] \
        if case["trace"] != "none" else None
    sim = w.sim(trace_files=tf)
    tasks = [0]
    armed = [True]

    def fault(pool):
        tasks[0] += 1
        sim.sleep(((tasks[0] * 5) % 3) * 0.5)
        if armed[0] and tasks[0] in case["faults"]:
            sim.count("fault:solver-task")
            raise SolverDown("task %d" % tasks[0])

    sim.pool_task_fault = fault
    body = {"goos": _goos, "invdes": _invdes, "plan": _plan}[case["stack"]]

    def main():
        solver = lms.MultiprocessingSolver(lms.DirectSolver(), case["procs"])
        from spins.fdfd_solvers import maxwell as remote
        remote.MaxwellSolver = CLS["EigSolver"]
        CLS["real_modes"] = False
        CLS["solvers"] = {True: solver, False: lms.DirectSolver()}
        body(w, case, sim, solver, lms)

    status, val = w.run_sim(sim, main)
    if status == "failed":
        w.violation("no-progress", "an evaluation never returned: %s" % (val,))
    elif status == "raised":
        raise val
    w.nontrivial = tasks[0] > 1
    w.count("probe:solves", tasks[0])
    w.state_mark(case["stack"], case["ops"], case["faults"], case["cache"])
    w.sample = {"stack": case["stack"], "ops": [o[0] for o in case["ops"]],
                "solver_faults": case["faults"], "solves": tasks[0]}


def _cmp(w, oi, what, got, want, sig):
    w.check(np.shape(got) == np.shape(want) or np.size(got) == np.size(want),
            sig, "op %d: %s has the wrong shape" % (oi, what))
    tol = 1e-9 * np.max(np.abs(want)) if np.size(want) else 0
    w.check(np.allclose(got, want, rtol=1e-8, atol=tol), sig,
            "op %d: %s = %s, but a fresh simulation gives %s" %
            (oi, what, np.ravel(got)[:4], np.ravel(want)[:4]))


def _scribble(arrays):
    """The caller works on the arrays that it got."""
    for x in arrays:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x *= 3.0


def _next(op, hist):
    """The structure parameters after a set, back or nudge."""
    if op[0] == "set":
        return list(op[1])
    if op[0] == "back":
        return list(hist[-2 % len(hist)])
    return [v + 1e-6 * (i + 1) for i, v in enumerate(hist[-1])]


def _slope(w, oi, f, p, g, what):
    """Differences of freshly calculated values say what the gradient is."""
    d = np.cos(np.arange(len(p)) * 1.7 + oi)
    g = np.ravel(g)
    tol = 1e-3 * np.linalg.norm(g) * np.linalg.norm(d)
    seen = []
    for h in (1e-4, 1e-5, 1e-6):
        fd = (f(np.array(p) + h * d) - f(np.array(p) - h * d)) / (2 * h)
        if abs(fd - np.dot(g, d)) <= tol:
            w.count("probe:slopes")
            return
        seen.append(fd)
    # Next to a resonance differences say nothing.
    if np.ptp(seen) <= 1e-3 * np.max(np.abs(seen)):
        w.violation("wrong-slope", "op %d: %s: differences give %s, the "
                    "gradient %s" % (oi, what, fd, np.dot(g, d)))


def _plan(w, case, sim, solver, lms):
    CLS["real_modes"] = True
    simplan.body(w, case, sim, solver, lms, _cmp, _next, _scribble, _slope,
                 SolverDown)


def _goos(w, case, sim, solver, lms):
    from spins import goos
    from spins.goos_sim import maxwell

    def build(p, slv):
        var = goos.Variable(np.array(p).reshape(2, 2, 1))
        sims = []
        shape = None
        for k in range(case["nsim"]):
            if case["shared_eps"] and sims:
                eps = sims[0][1]
            elif case.get("render"):
                eps, shape = _render(goos, maxwell, var, k, shape, case)
            else:
                eps = CLS["EpsNode"](var, k, case["gseed"])
            if k in case.get("eig", []):
                node = maxwell.SimulateEigNode(
                    eps=eps, sources=[], solver="maxwell_eig",
                    wavelength=2.0 + k, bloch_vector=[0, 0, 0],
                    simulation_space=maxwell.SimulationSpace(
                        sim_region=goos.Box3d(center=[0, 0, 0],
                                              extents=[3, 3, 1]),
                        mesh=maxwell.UniformMesh(dx=1),
                        pml_thickness=[0] * 6),
                    outputs=[maxwell.EigenValue(name="ev"),
                             maxwell.ElectricField(name="f",
                                                   wavelength=5.0 + k),
                             maxwell.Epsilon(name="e", wavelength=5.0 + k)])
                node.parallelize(case["heavy"])
                sims.append((node, eps))
                continue
            node = maxwell.SimulateNode(
                eps=eps, sources=[CLS["Src"](k=k)], wavelength=5.0 + k,
                simulation_space=maxwell.SimulationSpace(
                    sim_region=goos.Box3d(center=[0, 0, 0], extents=[3, 3, 1]),
                    mesh=maxwell.UniformMesh(dx=1),
                    pml_thickness=[0] * 6),
                outputs=[CLS["Out"](k=k, seed=case["gseed"], name="ov"),
                         maxwell.ElectricField(name="f", wavelength=5.0 + k),
                         maxwell.Epsilon(name="e", wavelength=5.0 + k),
                         CLS["Out"](k=k + 10, seed=case["gseed"], name="o2")],
                solver_info=CLS["Slv"](real=slv is solver))
            node.parallelize(case["heavy"])
            sims.append((node, eps))
        s = case.get("scale", 1.0)
        objs = []
        for k, (node, _) in enumerate(sims):
            objs += [CLS["AbsSq"](node[0]) * s, CLS["AbsSq"](
                node[0 if k in case.get("eig", []) else 3]) * (2.0 * s)]
        objs.append(goos.Sum([o * (1.0 + j) for j, o in enumerate(objs)]))
        return var, [n for n, _ in sims], objs

    def fresh(p, kind, i):
        CLS["eig_hook"] = None
        with goos.OptimizationPlan() as plan:
            var, sims, objs = build(p, lms.DirectSolver())
            for s in sims:
                s.parallelize(False)
            if kind == "eval":
                return plan.eval_node(objs[i]).array
            if kind == "grad":
                return plan.eval_grad(objs[i], [var])[0].array_grad
            return [plan.eval_node(sims[i][j]).array for j in range(3)]

    def eig_hook():
        sim.sleep(0.5)
        sim.pool_task_fault(None)

    with goos.OptimizationPlan() as plan:
        var, sims, objs = build(case["p0"], solver)
        hist = [case["p0"]]
        sloped = False
        for oi, op in enumerate(case["ops"]):
            sim.log("op", op)
            kind = op[0]
            if kind in ("set", "back", "nudge"):
                p = _next(op, hist)
                var.set(np.array(p).reshape(2, 2, 1))
                plan.run()
                hist.append(list(p))
                continue
            i = min(op[1], len(objs) - 1)
            CLS["eig_hook"] = eig_hook
            try:
                if kind == "eval":
                    got = plan.eval_node(objs[i]).array
                elif kind == "grad":
                    got = plan.eval_grad(objs[i], [var])[0].array_grad
                else:
                    got = [plan.eval_node(sims[i][j]).array for j in range(3)]
            except SolverDown:
                w.count("probe:solver-error-raised")
                continue
            want = fresh(hist[-1], kind, i)
            if kind == "fields":
                for j, name in enumerate(("overlap", "fields", "epsilon")):
                    _cmp(w, oi, "%s of simulation %d" % (name, i), got[j],
                         want[j], "stale-" + name)
                if case.get("scribble"):
                    _scribble(got)
            else:
                _cmp(w, oi, "%s of objective %d" % (kind, i), got, want,
                     "stale-" + kind)
            eig = [k for k in case.get("eig", []) if k < case["nsim"]]
            if kind == "grad" and not sloped and not w.violations and \
                    i // 2 not in eig and not (i == len(objs) - 1 and eig) \
                    and not case.get("render"):
                # (The eigensolver is a stand-in, and gradients of covered
                # shapes are approximate.)
                sloped = True
                _slope(w, oi, lambda p: fresh(p, "eval", i), hist[-1], got,
                       "objective %d" % i)
            if w.violations:
                return


def _render(goos, maxwell, var, k, shape, case):
    """The permittivity as the library renders it from shapes."""
    mats = [goos.material.Material(index=i) for i in (1.2, 1.9, 1.5)]
    if shape is None:
        c = goos.Cuboid(goos.Constant([1.5, 1.0, 1.0]),
                        goos.Constant([0.8, 0.7, 0]), material=mats[2],
                        priority=case["gseed"] % 3 - 1)
        px = goos.PixelatedContShape(
            array=var + 0.5, pixel_size=np.array([1., 1., 1.]),
            pos=goos.Constant([0, 0, 0]), extents=np.array([2., 2., 1.]),
            material=mats[0], material2=mats[1])
        shape = goos.GroupShape([c, px])
        if case["gseed"] % 2:
            shape = goos.GroupShape([shape, goos.Cuboid(
                goos.Constant([0.5, 3.0, 1.0]), goos.Constant([-1.2, 0, 0]),
                material=mats[1])])
    return maxwell.RenderShape(
        shape, region=goos.Box3d(center=[0, 0, 0], extents=[3, 3, 1]),
        mesh=maxwell.UniformMesh(dx=1), wavelength=5.0 + k,
        background=mats[0]), shape


def _invdes(w, case, sim, solver, lms):
    from spins.invdes import problem
    from spins.invdes.parametrization import DirectParam
    from spins.invdes.problem_graph import creator_em

    def build(slv, cache):
        var = problem.Variable(NV)
        objs, sims, eps0 = [], [], None
        for k in range(case["nsim"]):
            eps = eps0 if case["shared_eps"] and eps0 is not None else \
                CLS["IEps"](var, k, case["gseed"])
            eps0 = eps0 or eps
            f = (creator_em.FdfdSimulation if case["heavy"] and slv is solver
                 else CLS["Light"])(
                eps=eps, solver=slv, wlen=5.0 + k,
                source=list(source_vec(k)), simspace=CLS["Space"](),
                bloch_vector=np.zeros(3), cache_size=cache)
            sims.append(f)
            for j in (k, k + 10):
                ov = CLS["IOverlap"](f, j, case["gseed"])
                objs.append(problem.AbsoluteValue(ov)**2 *
                            case.get("scale", 1.0))
        objs.append(problem.Sum(objs[:], weights=[
            1.0 + j for j in range(len(objs))]))
        return objs, sims

    def fresh(p, grad, i, fields=False):
        o = build(lms.DirectSolver(), 1)[1 if fields else 0][i]
        prm = DirectParam(np.array(p), bounds=[-10, 10])
        return o.calculate_gradient(prm) if grad else \
            o.calculate_objective_function(prm)

    objs, sims = build(solver, case["cache"])
    param = DirectParam(np.array(case["p0"]), bounds=[-10, 10])
    hist = [case["p0"]]
    sloped = False
    for oi, op in enumerate(case["ops"]):
        sim.log("op", op)
        kind = op[0]
        if kind in ("set", "back", "nudge"):
            p = _next(op, hist)
            param.from_vector(np.array(p))
            hist.append(list(p))
            continue
        try:
            if kind in ("cons", "consgrad"):
                idx = [min(i, len(objs) - 1) for i in op[1]]
                prob = problem.OptimizationProblem(
                    objs[-1], cons_eq=[objs[i] for i in idx[:1]],
                    cons_ineq=[objs[i] for i in idx[1:]])
                a, b = (prob.calculate_constraints(param) if kind == "cons"
                        else prob.calculate_constraint_gradients(param))
                got = list(a) + list(b)
            elif kind == "fields":
                idx = [op[1]]
                got = [sims[op[1]].calculate_objective_function(param)]
            else:
                idx = [min(op[1], len(objs) - 1)]
                got = [objs[idx[0]].calculate_objective_function(param)
                       if kind == "eval" else
                       objs[idx[0]].calculate_gradient(param)]
        except SolverDown:
            w.count("probe:solver-error-raised")
            continue
        except Exception as e:  # pylint: disable=broad-except
            w.violation("spurious-error", "op %d %s raised %r" % (oi, kind, e))
            return
        for i, g in zip(idx, got):
            want = fresh(hist[-1], "grad" in kind, i, kind == "fields")
            _cmp(w, oi, "%s of objective %d" % (kind, i), g, want,
                 "stale-" + ("gradient" if "grad" in kind else "value"))
        if "grad" in kind and not sloped and not w.violations:
            sloped = True
            _slope(w, oi, lambda p: fresh(p, False, idx[0]), hist[-1], got[0],
                   "objective %d" % idx[0])
        if case.get("scribble"):
            _scribble(got)
        if w.violations:
            return
