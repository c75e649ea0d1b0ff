"""Workload shared by C01, C02 and the goos half of C04."""
import numpy as np

from checks import goosnodes
from checks import graphlib as gl


class InjectedError(RuntimeError):
    pass


def InjectedKeyError(msg):
    return KeyError(msg)


def setup():
    import spins.goos  # noqa
    goosnodes.define()


SCHED = ["random", "random", "pct", "pct", "serial"]


def gen(rng, tier, weights, faults=False):
    for _ in range(200):
        g = gl.gen_graph(rng, "goos", 10 if tier == "quick" else 16)
        if gl.safe_values(g, g["vars"]):
            break
    n = g["n"]
    if rng.random() < 0.4:
        g["shapes"] = [rng.choice([[n], [1, n], [n, 1], [1, n, 1]])
                       for _ in g["vars"]]
    nn = len(g["nodes"])
    ops = []
    nops = rng.randint(1, 4 if tier == "quick" else 8)
    sc = gl.scalars(g)
    for _ in range(nops):
        kind = rng.choice(weights)
        if kind == "eval":
            outs = [rng.randrange(-len(g["vars"]), nn)
                    for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.6:
                outs[0] = nn - 1
            ops.append(["eval", outs])
        elif kind == "override":
            ov = rng.randrange(nn)
            t = g["nodes"][ov]["t"]
            val = [gl.rnd(rng) for _ in range(g["n"] if t == "v" else 1)]
            ops.append(["override", [nn - 1, rng.randrange(nn)], ov, val])
        elif kind == "grad" and sc:
            out = sc[-1] if rng.random() < 0.6 else rng.choice(sc)
            wrt = list(range(len(g["vars"])))
            rng.shuffle(wrt)
            wrt = wrt[:rng.randint(1, len(wrt))]
            if rng.random() < 0.2:
                wrt.insert(rng.randrange(len(wrt) + 1), rng.choice(wrt))
            ops.append(["grad", out, wrt])
        elif kind == "set":
            k = rng.randrange(len(g["vars"]))
            for _ in range(20):
                v = [gl.rnd(rng) for _ in range(g["n"])]
                vs = list(g["vars"])
                vs[k] = v
                if gl.safe_values(g, vs):
                    ops.append(["set", k, v])
                    break
        elif kind == "callers":
            jobs = []
            for _ in range(rng.randint(2, 3)):
                if sc and rng.random() < 0.5:
                    jobs.append(["grad", rng.choice(sc)])
                else:
                    jobs.append(["eval", rng.randrange(nn)])
            ops.append(["callers", jobs])
        elif kind == "mark":
            ops.append(["mark", rng.randrange(nn), rng.random() < 0.6])
        elif kind == "freeze":
            ops.append([rng.choice(["freeze", "thaw"]),
                        rng.randrange(len(g["vars"]))])
    if not any(o[0] in ("eval", "grad", "override", "callers")
               for o in ops):
        ops.append(["eval", [nn - 1]])
    trace = rng.choice(["none", "none", "none", "line", "opcode"])
    return {"graph": g, "ops": ops, "strategy": rng.choice(SCHED),
            "cpus": rng.choice([1, 2, 4, 8]), "trace": trace, "faults": []}


def mk_sim(w, case):
    tf = None
    tr = case.get("trace", "none")
    if tr != "none":
        tf = ["/spins/goos/graph_executor", "/spins/invdes/problem/"]
    return w.sim(trace_files=tf, trace_opcodes=tr == "opcode")


def var_ok(g, vals):
    return gl.safe_values(g, vals)


def run(w, case, check_values=True, check_grads=True, check_faults=False):
    from spins import goos
    from spins.goos import graph_executor
    g = case["graph"]
    if not gl.fix_graph(g):
        return
    rt = goosnodes.Runtime(w, g)
    goosnodes.RT = rt
    sim = mk_sim(w, case)
    faults = {}
    for f in case.get("faults", []):
        faults.setdefault(f[0], []).append(f)

    def main():
        with goos.OptimizationPlan() as plan:
            variables, nodes = goosnodes.build(g)
            cur = [np.array(v) for v in g["vars"]]
            frozen = [False] * len(cur)
            ref = lambda j: nodes[j] if j >= 0 else variables[-(j + 1)]
            for oi, op in enumerate(case["ops"]):
                kind = op[0]
                rt.calls = []
                rt.flags = {}
                arm(sim, rt, faults.get(oi, []))
                sim.log("op", op)
                raised = None
                got = None
                try:
                    if kind == "set":
                        if not frozen[op[1]]:
                            variables[op[1]].set(
                                goosnodes.shaped(g, op[1], op[2]))
                            plan.run()
                            cur[op[1]] = np.array(op[2])
                        continue
                    elif kind == "mark":
                        if op[1] < len(nodes):
                            nodes[op[1]].parallelize(op[2])
                        continue
                    elif kind in ("freeze", "thaw"):
                        getattr(variables[op[1]], kind)()
                        plan.run()
                        frozen[op[1]] = kind == "freeze"
                        continue
                    elif kind == "eval":
                        outs = [j for j in op[1] if j < len(nodes)]
                        if not outs:
                            continue
                        got = plan.eval_nodes([ref(j) for j in outs])
                    elif kind == "override":
                        outs = [j for j in op[1] if j < len(nodes)]
                        if not outs or op[2] >= len(nodes) or \
                                gl.merged(g, op[2]):
                            continue
                        got = _override(goos, graph_executor, plan, variables,
                                        nodes, cur, frozen, outs, op, g)
                    elif kind == "callers":
                        jobs = [q for q in op[1] if q[1] < len(nodes)]
                        got = _callers(sim, plan, jobs, nodes, variables)
                    elif kind == "grad":
                        if op[1] >= len(nodes):
                            continue
                        wrt = [k for k in op[2] if k < len(variables)]
                        got = plan.eval_grad(nodes[op[1]],
                                             [variables[k] for k in wrt])
                except Exception as e:  # pylint: disable=broad-except
                    raised = e
                disarm(sim)
                w.nontrivial = w.nontrivial or any(
                    g["nodes"][i]["heavy"] for _, i in rt.calls)
                fired = [k for k in rt.fault if k in set(rt.calls)]
                if judge_fault(w, sim, rt, oi, kind, fired, raised,
                               check_faults):
                    _judge(w, g, case, op, oi, rt, cur, frozen, got,
                           check_values, check_grads)
                if kind != "mark" and not w.violations:
                    _unchanged(w, plan, variables, g, cur, oi, kind)
                if w.violations:
                    return
                _scribble(got)

    status, val = w.run_sim(sim, main)
    if status == "failed":
        w.violation("no-progress", "evaluation never returned: %s" % (val,),
                    "no-progress")
    elif status == "raised":
        raise val
    if rt.max_active > 1:
        w.count("probe:parallel-nodes")
    w.count("probe:max-active-%d" % min(rt.max_active, 8))
    w.state_mark(case["graph"], case["ops"], case.get("faults"))
    w.sample = {"nodes": len(g["nodes"]),
                "heavy": sum(n["heavy"] for n in g["nodes"]),
                "ops": [o[0] for o in case["ops"]],
                "steps": sim.step, "max_parallel": rt.max_active}


def _unchanged(w, plan, variables, g, cur, oi, kind):
    for k, v in enumerate(variables):
        x = plan.get_var_value(v)
        want = goosnodes.shaped(g, k, cur[k])
        w.check(np.shape(x) == want.shape and np.array_equal(x, want),
                "variable-changed", "op %d %s: variable %d is %s, it was set to "
                "%s" % (oi, kind, k, x, want))


def _scribble(got):
    """The caller may do what it likes with the results."""
    for flow in got or ():
        for x in flow if isinstance(flow, list) else [flow]:
            for a in ("array", "array_grad"):
                x_ = getattr(x, a, None)
                if isinstance(x_, np.ndarray) and x_.flags.writeable:
                    x_[...] = 7e77


def _callers(sim, plan, jobs, nodes, variables):
    """Several caller threads evaluate the same plan at once."""
    import threading
    res = [None] * len(jobs)

    def work(j, k, i):
        try:
            res[j] = ("ok", plan.eval_nodes([nodes[i]])[0] if k == "eval" else
                      plan.eval_grad(nodes[i], list(variables)))
        except Exception as e:  # pylint: disable=broad-except
            res[j] = ("exc", e)

    ths = [threading.Thread(target=work, args=(j, k, i))
           for j, (k, i) in enumerate(jobs)]
    for t in ths:
        sim.spawn_exempt = True
        t.start()
    for t in ths:
        t.join()
    for r in res:
        if r[0] == "exc":
            raise r[1]
    return [r[1] for r in res]


def _override(goos, graph_executor, plan, variables, nodes, cur, frozen, outs,
              op, g):
    from spins.goos import flows
    mk = lambda fz: goos.NodeFlags(
        const_flags=flows.NumericFlow.ConstFlags(False),
        frozen_flags=flows.NumericFlow.ConstFlags(fz))
    om = {variables[k]: (flows.NumericFlow(goosnodes.shaped(g, k, cur[k])),
                         mk(frozen[k]))
          for k in range(len(cur))}
    t = g["nodes"][op[2]]["t"]
    v = np.array(op[3]) if t == "v" else np.array(op[3][0])
    om[nodes[op[2]]] = (flows.NumericFlow(v), mk(False))
    return graph_executor.eval_fun([nodes[j] for j in outs if j >= 0] or
                                   [nodes[-1]], om)


def InjectedValueError(msg):
    return ValueError(msg)


FAULTS = {"runtime": InjectedError, "key": InjectedKeyError,
          "value": InjectedValueError, "stop": StopIteration,
          "memory": MemoryError, "attribute": AttributeError,
          "type": TypeError, "index": IndexError, "os": OSError,
          "zero": ZeroDivisionError, "float": FloatingPointError,
          "timeout": TimeoutError}


def chain(e):
    """The messages of an exception and of what caused it."""
    out = []
    while e is not None:
        out.append(str(e))
        e = e.__cause__ or e.__context__
    return "; ".join(out)


def gen_faults(rng, case):
    """Node failures (during eval or grad) and failing thread starts."""
    out = []
    g = case["graph"]
    kinds = list(FAULTS)
    cand = [i for i, nd in enumerate(g["nodes"]) if nd["op"] in ("mix", "old", "red")]
    for oi, op in enumerate(case["ops"]):
        if op[0] in ("set", "mark", "freeze", "thaw") or rng.random() < 0.35:
            continue
        if rng.random() < 0.2:
            out.append([oi, "spawn", rng.randint(1, 4)])
            continue
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not cand:
                break
            out.append([oi, rng.choice(["eval", "grad"]) if "grad" in op[0]
                        else "eval", rng.choice(cand), rng.choice(kinds)] +
                       # Would work if it was tried again.
                       (["once"] if rng.random() < 0.4 else []))
    return out


def arm(sim, rt, faults):
    """Arms this operation's faults: node failures and failing thread starts."""
    rt.fault = {}
    rt.once = {}
    rt.spawn_fired = 0
    left = []
    for f in faults:
        if f[1] == "spawn":
            left.append(f[2])
        else:
            rt.fault[(f[1], f[2])] = FAULTS[f[3]]
            if "once" in f:
                rt.once[(f[1], f[2])] = False
    if left:
        count = [0]

        def spawn_fault():
            if sim.__dict__.pop("spawn_exempt", False):
                return
            count[0] += 1
            if count[0] in left:
                rt.spawn_fired += 1
                sim.count("fault:thread-start")
                raise RuntimeError("can't start new thread")

        sim.spawn_fault = spawn_fault


def disarm(sim):
    sim.spawn_fault = None
    sim.__dict__.pop("spawn_exempt", None)


def judge_fault(w, sim, rt, oi, kind, fired, raised, check_faults):
    """Judges an operation's failure. True: it returned and none was due."""
    if check_faults:
        alive = [t.name for t in sim.threads[1:] if t.is_alive()]
        w.check(not alive, "leaked-thread",
                "op %d %s returned with worker threads %s still alive" %
                (oi, kind, alive))
    if raised is not None:
        if fired or rt.spawn_fired:
            w.count("probe:fault-raised")
            if check_faults:
                msg = chain(raised)
                ok = (fired and "injected failure" in msg) or (
                    rt.spawn_fired and type(raised) is RuntimeError and
                    "start new thread" in msg)
                w.check(ok, "wrong-error",
                        "op %d %s: failure of %r surfaced as %r" %
                        (oi, kind, fired or "thread start", raised))
            return False
        w.violation("spurious-error", "op %d %s raised %r with no fault" %
                    (oi, kind, raised), "spurious-error:" + kind)
        return False
    if fired:
        if check_faults:
            w.violation("swallowed-error",
                        "op %d %s returned although node %r failed" %
                        (oi, kind, fired))
        return False
    return True


def _judge(w, g, case, op, oi, rt, cur, frozen, got, check_values,
           check_grads):
    kind = op[0]
    if kind == "eval" or kind == "override":
        override = None
        outs = [j for j in op[1] if j < len(g["nodes"])]
        if kind == "override":
            outs = [j for j in outs if j >= 0] or [len(g["nodes"]) - 1]
            t = g["nodes"][op[2]]["t"]
            override = {op[2]: np.array(op[3]) if t == "v" else
                        np.array(op[3][0])}
        want = gl.ref_forward(g, cur, override)
        if not check_values:
            return
        if not w.check(len(got) == len(outs), "output-count",
                       "asked for %d outputs, got %d" % (len(outs), len(got))):
            return
        # Values set from outside may take the graph anywhere.
        tame = all(np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e5
                   for v in (want[j] for j in range(len(g["nodes"]))))
        for j, flow in zip(outs, got):
            if not tame:
                continue
            w.check(gl.close(flow.array, want[j]), "wrong-value",
                    "op %d: node %d = %s, sequential reference %s" %
                    (oi, j, flow.array, want[j]))
        _calls_once(w, g, rt, oi, "eval", override)
        _check_flags(w, g, rt, frozen, oi, override)
    elif kind == "callers":
        jobs = [q for q in op[1] if q[1] < len(g["nodes"])]
        vals = gl.ref_forward(g, cur)
        for (k, i), r in zip(jobs, got):
            if k == "eval":
                w.check(gl.close(r.array, vals[i]), "wrong-value",
                        "op %d: concurrent callers: node %d = %s, reference %s"
                        % (oi, i, r.array, vals[i]))
            else:
                for q, want in enumerate(gl.ref_grad(g, cur, i)):
                    if np.max(np.abs(want)) > 1e8:
                        continue
                    w.check(gl.close(r[q].array_grad, want, 1e-8),
                            "wrong-gradient",
                            "op %d: concurrent callers: d n%d / d var%d = %s, "
                            "reference %s" % (oi, i, q, r[q].array_grad, want))
    elif kind == "grad":
        if check_values:
            _calls_once(w, g, rt, oi, "eval", None)
        _check_flags(w, g, rt, frozen, oi, None)
        if not check_grads:
            return
        wrt = [k for k in op[2] if k < len(cur)]
        want = gl.ref_grad(g, cur, op[1])
        anc = gl.ancestors(g, [op[1]])
        if not w.check(len(got) == len(wrt), "grad-count",
                       "asked for %d gradients, got %d" % (len(wrt), len(got))):
            return
        for k, flow in zip(wrt, got):
            if np.max(np.abs(want[k])) > 1e8:
                continue
            arr = flow.array_grad
            shape = tuple(g["shapes"][k]) if "shapes" in g else (g["n"],)
            w.check(np.shape(arr) == shape, "wrong-gradient-shape",
                    "op %d: d n%d / d var%d has shape %s, the variable %s" %
                    (oi, op[1], k, np.shape(arr), shape))
            w.check(gl.close(arr, want[k], 1e-8), "wrong-gradient",
                    "op %d: d n%d / d var%d = %s, reference %s" %
                    (oi, op[1], k, arr, want[k]))
        _calls_once(w, g, rt, oi, "grad", None)


def _calls_once(w, g, rt, oi, phase, override):
    c = [i for p, i in rt.calls if p == phase]
    dup = sorted({i for i in c if c.count(i) > 1})
    w.check(not dup, "evaluated-twice",
            "op %d: %s of nodes %s ran more than once" % (oi, phase, dup),
            "evaluated-twice:" + phase)
    if override:
        w.check(not (set(c) & set(override)), "override-ignored",
                "op %d: overridden node %s was evaluated" %
                (oi, sorted(set(c) & set(override))))


def _check_flags(w, g, rt, frozen, oi, override):
    if override:
        return
    const, froz = goosnodes.static_flags(g, frozen)
    for (phase, i), fl in rt.flags.items():
        want = [(const[j], froz[j]) for j in g["nodes"][i]["in"]]
        w.check(fl == want, "wrong-context",
                "op %d: %s of node %d saw (const, frozen) flags %s, want %s" %
                (oi, phase, i, fl, want))


def shrink(case):
    import copy
    g = case["graph"]
    for i in reversed(range(len(g["nodes"]))):
        # Drop trailing nodes nobody uses.
        used = any(i in nd["in"] for nd in g["nodes"])
        if not used and i == len(g["nodes"]) - 1 and i > 0:
            c = copy.deepcopy(case)
            c["graph"]["nodes"].pop()
            yield c
        # Bypass a node: turn it into a shorter input list.
        nd = g["nodes"][i]
        if nd["op"] == "mix" and len(nd["in"]) > 1:
            for q in range(len(nd["in"])):
                c = copy.deepcopy(case)
                m = c["graph"]["nodes"][i]
                del m["in"][q]
                del m["coef"][q]
                m.pop("none", None)
                yield c
        if nd.get("heavy"):
            c = copy.deepcopy(case)
            c["graph"]["nodes"][i]["heavy"] = 0
            yield c
        if nd.get("dur"):
            c = copy.deepcopy(case)
            c["graph"]["nodes"][i]["dur"] = 0
            yield c
    for oi, op in enumerate(case["ops"]):
        if op[0] == "eval" and len(op[1]) > 1:
            for q in range(len(op[1])):
                c = copy.deepcopy(case)
                del c["ops"][oi][1][q]
                yield c
    if case.get("trace", "none") != "none":
        c = copy.deepcopy(case)
        c["trace"] = "none"
        yield c
