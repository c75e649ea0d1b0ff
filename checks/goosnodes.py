"""goos node classes the simulator controls, and a builder for graphlib graphs."""
from typing import List

import numpy as np

from checks import graphlib as gl
from simkit import kernel

RT = None  # run-time hooks of the current run (set by the check)


class Runtime:
    """What simulated nodes consult: durations, faults, call records."""

    def __init__(self, world, g):
        self.world = world
        self.g = g
        self.calls = []
        self.fault = {}  # (phase, node) -> exception factory, for current op
        self.active = 0
        self.max_active = 0
        self.flags = {}

    def enter(self, phase, idx):
        sim = kernel.current_sim()
        self.calls.append((phase, idx))
        sim.log("node", phase, idx)
        self.active += 1
        self.max_active = max(self.max_active, self.active)
        try:
            dur = self.g["nodes"][idx]["dur"]
            if dur:
                sim.sleep(dur * 0.25)
            else:
                sim.yield_point("node")
            f = self.fault.get((phase, idx))
            if f is not None and not self.once.get((phase, idx)):
                if (phase, idx) in self.once:
                    self.once[phase, idx] = True
                sim.count("fault:node-%s-%s" % (phase, f.__name__))
                raise f("injected failure in %s of node %d" % (phase, idx))
            sim.yield_point("node")
        finally:
            self.active -= 1


def define():
    """Creates the node classes (after spins is imported)."""
    if "MixNode" in globals():
        return
    from spins import goos

    class MixNode(goos.Function):
        node_type = "verif.mix"

        def __init__(self, funs: List[goos.Function], idx: int, coef: np.ndarray, c: float,
                     none: int) -> None:
            super().__init__(funs)
            self.idx, self.coef, self.c, self.none = idx, coef, c, none

        def eval(self, inputs):
            RT.enter("eval", self.idx)
            return self._value(inputs)

        def _value(self, inputs):
            v = self.c + 0.0
            for (a, b), x in zip(self.coef, inputs):
                v = v + a * x.array + b * x.array * x.array
            return goos.NumericFlow(np.asarray(v))

        def grad(self, inputs, grad_val):
            RT.enter("grad", self.idx)
            return self._grads(inputs, grad_val)

        def _grads(self, inputs, grad_val):
            out = []
            for q, ((a, b), x) in enumerate(zip(self.coef, inputs)):
                if self.none == q:
                    out.append(None)
                else:
                    out.append(goos.NumericFlow.Grad(
                        (a + 2 * b * x.array) * grad_val.array_grad))
            return out

    class MixNodeCtx(MixNode):
        node_type = "verif.mixctx"

        def __init__(self, funs: List[goos.Function], idx: int, coef: np.ndarray, c: float,
                     none: int) -> None:
            goos.Function.__init__(self, funs)
            self.idx, self.coef, self.c, self.none = idx, coef, c, none

        def eval(self, inputs, context):
            self._flags("eval", context)
            RT.enter("eval", self.idx)
            return self._value(inputs)

        def grad(self, inputs, grad_val, context):
            self._flags("grad", context)
            RT.enter("grad", self.idx)
            return self._grads(inputs, grad_val)

        def _flags(self, phase, context):
            RT.flags[(phase, self.idx)] = [
                (bool(f.const_flags), bool(f.frozen_flags))
                for f in context.input_flags]

    class SplitNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
        """Three multiples of its input, as one array flow."""
        node_type = "verif.split"

        def __init__(self, fun: goos.Function, coef: np.ndarray) -> None:
            super().__init__(fun, flow_types=[goos.Function] * 3)
            self.coef = coef

        def eval_const_flags(self, inputs):
            return goos.ArrayFlow.ConstFlags([inputs[0]] * 3)

        def eval(self, inputs):
            kernel.current_sim().yield_point("node")
            return goos.ArrayFlow([goos.NumericFlow(a * inputs[0].array)
                                   for a in self.coef])

        def grad(self, inputs, grad_val):
            kernel.current_sim().yield_point("node")
            v = 0.0
            for a, gr in zip(self.coef, grad_val.flows_grad):
                if gr is not None:
                    v = v + a * gr.array_grad
            return [goos.NumericFlow.Grad(np.asarray(v))]

    class FlatNode(goos.Function):
        """The elements of an array of any shape as a vector."""
        node_type = "verif.flat"

        def __init__(self, fun: goos.Function) -> None:
            super().__init__(fun)

        def eval(self, inputs):
            return goos.NumericFlow(np.array(np.ravel(inputs[0].array)))

        def grad(self, inputs, grad_val):
            x = inputs[0].array
            return [goos.NumericFlow.Grad(np.broadcast_to(
                grad_val.array_grad, (x.size,)).reshape(x.shape).copy())]

    globals()["FlatNode"] = FlatNode
    globals()["SplitNode"] = SplitNode
    globals()["MixNode"] = MixNode
    globals()["MixNodeCtx"] = MixNodeCtx


def shaped(g, k, v):
    """A value of variable k as the array that the graph holds."""
    return np.array(v, dtype=float).reshape(
        g["shapes"][k] if "shapes" in g else [-1])


def build(g, prefix="", params=None):
    """Builds the graph; returns (variables, nodes). Needs an active plan."""
    from spins import goos
    variables = [goos.Variable(shaped(g, k, v), name="%svar%d" % (prefix, k),
                               parameter=bool(params and params[k]))
                 for k, v in enumerate(g["vars"])]
    flat = [FlatNode(x, name="%svar%d.flat" % (prefix, k))
            if "shapes" in g and len(g["shapes"][k]) > 1 else x
            for k, x in enumerate(variables)]
    nodes = []
    for i, nd in enumerate(g["nodes"]):
        ins = [flat[-(j + 1)] if j < 0 else nodes[j] for j in nd["in"]]
        name = "%sn%d" % (prefix, i)
        op = nd["op"]
        if op == "mix":
            cls = MixNodeCtx if nd.get("ctx") else MixNode
            none = nd.get("none")
            x = cls(ins, i, np.array(nd["coef"], dtype=float), nd["c"], -1 if none is None else none,
                    name=name)
        elif op == "sum":
            x = goos.Sum(ins, name=name)
        elif op == "prod":
            x = goos.Product(ins, name=name)
        elif op == "pow":
            x = goos.Power(ins[0], nd["p"], name=name)
        elif op == "abs":
            x = goos.AbsoluteValue(ins[0], name=name)
        elif op == "sig":
            x = goos.Sigmoid(ins[0], name=name)
        elif op == "max":
            x = goos.Max(ins, name=name)
        elif op == "dot":
            x = goos.DotProduct(ins[0], ins[1], name=name)
        elif op == "norm":
            y = goos.Slice(ins[0], [nd["sl"]], name=name + ".slice")
            y.parallelize(nd["heavy"])
            x = goos.Norm(y, nd["p"], name=name)
        elif op == "conj":
            x = goos.Conjugate(ins[0], name=name)
        elif op == "ren":
            x = goos.rename(ins[0], name)
        elif op == "cast":
            x = goos.cast(ins[0], goos.Function, name=name)
        elif op == "arr":
            y = SplitNode(ins[0], np.array(nd["coef"]), name=name + ".split")
            y.parallelize(nd["heavy"])
            x = goos.Sum([y[q] for q in nd["use"]], name=name)
        elif op == "expr":
            x = gl.ev_tree(nd["tree"], ins, gl.lit)
        elif op == "const":
            v = np.array(nd["val"]) if nd["t"] == "v" else np.array(nd["val"][0])
            x = goos.Constant(v, name=name)
        else:
            raise ValueError(op)
        if x not in ins:
            x.parallelize(nd["heavy"])
        nodes.append(x)
    return variables, nodes


def static_flags(g, frozen):
    """Reference constant / frozen flags of every node."""
    const, froz = {}, {}
    for k in range(len(g["vars"])):
        const[-(k + 1)] = False
        froz[-(k + 1)] = bool(frozen[k])
    for i, nd in enumerate(g["nodes"]):
        if nd["op"] == "const":
            const[i] = froz[i] = True
        else:
            const[i] = all(const[j] for j in nd["in"])
            froz[i] = all(froz[j] for j in nd["in"])
    return const, froz
