"""Workload for the legacy (invdes) function graphs: C03 and half of C04."""
import numpy as np

from checks import goosgraph as gg
from checks import graphlib as gl
from simkit import kernel

CLS = {}
RT = None


class Runtime:

    def __init__(self, g):
        self.g = g
        self.calls = []
        self.fault = {}
        self.once = {}
        self.active = self.max_active = 0

    def enter(self, phase, idx):
        sim = kernel.current_sim()
        self.calls.append((phase, idx))
        sim.log("node", phase, idx)
        self.active += 1
        self.max_active = max(self.max_active, self.active)
        try:
            dur = self.g["nodes"][idx]["dur"]
            if dur:
                sim.sleep(dur * 0.25)
            else:
                sim.yield_point("node")
            f = self.fault.get((phase, idx))
            if f is not None and not self.once.get((phase, idx)):
                if (phase, idx) in self.once:
                    self.once[phase, idx] = True
                sim.count("fault:node-%s-%s" % (phase, f.__name__))
                raise f("injected failure in %s of node %d" % (phase, idx))
            sim.yield_point("node")
        finally:
            self.active -= 1


def setup():
    if CLS:
        return
    from spins.invdes import problem
    from spins.invdes.parametrization import DirectParam  # noqa

    class Mix(problem.OptimizationFunction):

        def __init__(self, funs, idx, coef, c, heavy):
            super().__init__(funs, heavy_compute=heavy)
            self.idx, self.coef, self.c = idx, coef, c

        def eval(self, input_vals):
            RT.enter("eval", self.idx)
            v = self.c + 0.0
            for (a, b), x in zip(self.coef, input_vals):
                v = v + a * x + b * x * x
            return v

        def grad(self, input_vals, grad_val):
            RT.enter("grad", self.idx)
            return [(a + 2 * b * x) * grad_val
                    for (a, b), x in zip(self.coef, input_vals)]

    class Old(problem.OptimizationFunction):
        """Old-style: knows only the parametrization."""

        def __init__(self, idx, coef, c):
            super().__init__()
            self.idx, self.coef, self.c = idx, np.array(coef), c

        def calculate_objective_function(self, param):
            RT.enter("eval", self.idx)
            return self.c + np.dot(self.coef, param.get_structure()**2)

        def calculate_gradient(self, param):
            RT.enter("grad", self.idx)
            return 2 * self.coef * param.get_structure()

    class Red(problem.OptimizationFunction):
        """Vector to scalar, as a simulation-based objective is."""

        def __init__(self, fun, idx, coef, c, heavy):
            super().__init__(fun, heavy_compute=heavy)
            self.idx, self.coef, self.c = idx, np.array(coef), c

        def eval(self, input_vals):
            RT.enter("eval", self.idx)
            return self.c + np.dot(self.coef, input_vals[0]**2)

        def grad(self, input_vals, grad_val):
            RT.enter("grad", self.idx)
            return [2 * self.coef * input_vals[0] * grad_val]

    CLS.update(mix=Mix, old=Old, red=Red)


def build(g):
    from spins.invdes import problem
    var = problem.Variable(g["n"])
    nodes = []
    for i, nd in enumerate(g["nodes"]):
        ins = [var if j < 0 else nodes[j] for j in nd["in"]]
        op = nd["op"]
        if op == "mix":
            x = CLS["mix"](ins, i, nd["coef"], nd["c"], nd["heavy"])
        elif op == "red":
            x = CLS["red"](ins[0], i, nd["coef"], nd["c"], nd["heavy"])
        elif op == "old":
            x = CLS["old"](i, nd["coef"], nd["c"])
        elif op == "sum":
            x = problem.Sum(ins)
        elif op == "prod":
            x = problem.Product(ins)
        elif op == "pow":
            x = problem.Power(ins[0], nd["p"])
        elif op == "abs":
            x = problem.AbsoluteValue(ins[0])
        elif op == "lse":
            x = problem.LogSumExp(ins)
        elif op == "sma":
            x = problem.SoftmaxAverage(ins)
        elif op == "expr":
            x = gl.ev_tree(nd["tree"], ins, gl.lit)
        elif op == "over":
            x = problem.IndicatorPlus(ins[0], nd["lim"][1], nd["p"])
        elif op == "under":
            x = problem.IndicatorMin(ins[0], nd["lim"][0], nd["p"])
        elif op == "range":
            x = problem.PowerComparison(ins[0], nd["lim"], nd["p"])
        elif op == "real":
            x = problem.RealPart(ins[0])
        elif op == "slice":
            x = problem.ValueSlice(var, nd["idx"])
        elif op == "const":
            x = problem.Constant(np.array(nd["val"]) if nd["t"] == "v" else
                                 nd["val"][0])
        else:
            raise ValueError(op)
        if op not in ("mix", "old", "red") and nd["heavy"] and x not in ins:
            x.__class__ = heavy_class(type(x))
        nodes.append(x)
    return var, nodes


def heavy_class(cls):
    """The same node, declared heavy through its public property."""
    if cls not in HEAVY:
        HEAVY[cls] = type(cls.__name__, (cls,), {"heavy_compute": True})
    return HEAVY[cls]


HEAVY = {}


def gen(rng, tier, faults=False):
    for _ in range(200):
        g = gl.gen_graph(rng, "invdes", 9 if tier == "quick" else 16)
        if gl.safe_values(g, g["vars"]):
            break
    nn = len(g["nodes"])
    sc = gl.scalars(g) or []
    ops = []
    for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
        kind = rng.choice(["eval", "grad", "grad", "parobj", "pargrad", "cons",
                           "consgrad", "set", "callers"])
        some = lambda: [rng.choice(sc) for _ in range(
            rng.randint(5, 12) if rng.random() < 0.1 else rng.randint(1, 4))]
        if kind == "eval":
            # -1 is the variable itself.
            ops.append(["eval", [rng.randrange(-1 if rng.random() < 0.2 else 0,
                                               nn)
                                 for _ in range(rng.randint(1, 3))]])
        elif kind == "set":
            for _ in range(20):
                v = [gl.rnd(rng) for _ in range(g["n"])]
                if gl.safe_values(g, [v]):
                    ops.append(["set", v])
                    break
        elif sc and kind == "grad":
            ops.append(["grad", rng.choice(sc + [sc[-1]] * 3)])
        elif sc and kind in ("parobj", "pargrad"):
            ops.append([kind, some()])
        elif sc and kind in ("cons", "consgrad"):
            ops.append([kind, some() if rng.random() < 0.8 else [],
                        some() if rng.random() < 0.8 else []])
        elif sc and kind == "callers":
            # Several caller threads evaluate the same graph at once.
            ops.append(["callers", [[rng.choice(["eval", "grad"]),
                                     rng.choice(sc)]
                                    for _ in range(rng.randint(2, 3))]])
    if not ops or all(o[0] == "set" for o in ops):
        ops.append(["eval", [nn - 1]])
    return {"stack": "invdes", "graph": g, "ops": ops,
            "strategy": rng.choice(gg.SCHED), "cpus": rng.choice([1, 2, 4, 8]),
            "trace": rng.choice(["none", "none", "none", "line", "opcode"]),
            "faults": []}


def run(w, case, check_values=True, check_faults=False):
    import threading
    from spins.invdes import problem
    from spins.invdes.parametrization import DirectParam
    from spins.invdes.problem import graph_executor, objective
    global RT
    g = case["graph"]
    if not gl.fix_graph(g):
        return
    rt = RT = Runtime(g)
    sim = gg.mk_sim(w, case)
    faults = {}
    for f in case.get("faults", []):
        faults.setdefault(f[0], []).append(f)

    def main():
        var, nodes = build(g)
        param = DirectParam(np.array(g["vars"][0]), bounds=[-100, 100])
        cur = np.array(g["vars"][0])
        N = len(nodes)
        val = lambda i, _=None: gl.ref_forward(g, [cur])[i]
        grd = lambda i: gl.ref_grad(g, [cur], i)[0]
        for oi, op in enumerate(case["ops"]):
            kind = op[0]
            rt.calls = []
            gg.arm(sim, rt, faults.get(oi, []))
            sim.log("op", op)
            raised, got, want = None, None, None
            try:
                if kind == "set":
                    param.from_vector(np.array(op[1]))
                    cur = np.array(op[1])
                    gg.disarm(sim)
                    continue
                if kind == "eval":
                    idx = [i for i in op[1] if i < N]
                    if not idx:
                        continue
                    want = [val(i) if i >= 0 else cur for i in idx]
                    got = graph_executor.eval_fun(
                        [nodes[i] if i >= 0 else var for i in idx], param)
                elif kind == "grad":
                    if op[1] >= N:
                        continue
                    want = [grd(op[1])]
                    got = [nodes[op[1]].calculate_gradient(param)]
                elif kind in ("parobj", "pargrad"):
                    idx = [i for i in op[1] if i < N]
                    f = (objective.calculate_objective_parallel
                         if kind == "parobj" else
                         objective.calculate_gradient_parallel)
                    want = [(val if kind == "parobj" else grd)(i) for i in idx]
                    got = f([nodes[i] for i in idx], param)
                elif kind in ("cons", "consgrad"):
                    e = [i for i in op[1] if i < N]
                    q = [i for i in op[2] if i < N]
                    prob = problem.OptimizationProblem(
                        nodes[-1], cons_eq=[nodes[i] for i in e],
                        cons_ineq=[nodes[i] for i in q])
                    r = val if kind == "cons" else grd
                    want = [r(i) for i in e] + [r(i) for i in q]
                    a, b = (prob.calculate_constraints(param)
                            if kind == "cons" else
                            prob.calculate_constraint_gradients(param))
                    got = list(a) + list(b)
                    if len(a) != len(e) or len(b) != len(q):
                        w.violation("constraint-partition",
                                    "%d/%d equality/inequality constraints, "
                                    "got %d/%d results" %
                                    (len(e), len(q), len(a), len(b)))
                elif kind == "callers":
                    todo = [t for t in op[1] if t[1] < N]
                    want = [val(i) if k == "eval" else grd(i)
                            for k, i in todo]
                    res = [None] * len(todo)

                    def work(j, k, i):
                        try:
                            res[j] = ("ok", nodes[i].calculate_objective_function(
                                param) if k == "eval" else
                                nodes[i].calculate_gradient(param))
                        except Exception as e:  # pylint: disable=broad-except
                            res[j] = ("exc", e)

                    ths = [threading.Thread(target=work, args=(j, k, i))
                           for j, (k, i) in enumerate(todo)]
                    started = []
                    for t in ths:
                        sim.spawn_exempt = True
                        t.start()
                    for t in ths:
                        t.join()
                    bad = [r for r in res if r[0] == "exc"]
                    if bad:
                        raise bad[0][1]
                    got = [r[1] for r in res]
            except Exception as e:  # pylint: disable=broad-except
                raised = e
            gg.disarm(sim)
            w.nontrivial = w.nontrivial or len(sim.threads) > 1
            fired = [k for k in rt.fault if k in set(rt.calls)]
            if not gg.judge_fault(w, sim, rt, oi, kind, fired, raised,
                                  check_faults):
                if w.violations:
                    return
                continue
            if check_values and got is not None:
                w.check(len(got) == len(want), "output-count",
                        "op %d %s: %d results for %d functions" %
                        (oi, kind, len(got), len(want)))
                for j, (a, b) in enumerate(zip(got, want)):
                    if np.max(np.abs(b), initial=0) > 1e8 or \
                            not np.all(np.isfinite(b)):
                        continue
                    w.check(gl.close(a, b, 1e-8), "wrong-" + (
                        "gradient" if "grad" in kind else "value"),
                        "op %d %s result %d = %s, sequential reference %s" %
                        (oi, kind, j, a, b))
            if check_values and kind in ("eval", "grad"):
                c = rt.calls
                dup = sorted({x for x in c if c.count(x) > 1})
                w.check(not dup, "evaluated-twice",
                        "op %d %s: %s ran more than once" % (oi, kind, dup))
            w.check(np.array_equal(param.to_vector(), cur) and
                    np.array_equal(param.get_structure(), cur),
                    "parametrization-changed", "op %d %s: the parametrization "
                    "is %s, it was set to %s" %
                    (oi, kind, param.to_vector(), cur))
            if w.violations:
                return
            # The caller may do what it likes with the results.
            for x in got if got is not None else ():
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = 77

    status, v = w.run_sim(sim, main)
    if status == "failed":
        w.violation("no-progress", "evaluation never returned: %s" % (v,))
    elif status == "raised":
        raise v
    w.count("probe:max-active-%d" % min(rt.max_active, 8))
    w.state_mark(g, case["ops"], case.get("faults"))
    w.sample = {"stack": "invdes", "nodes": len(g["nodes"]),
                "ops": [o[0] for o in case["ops"]], "steps": sim.step,
                "max_parallel": rt.max_active}
