"""Random computation graphs, an independent reference evaluator, and the two
stacks (flow graphs `goos`, legacy graphs `invdes`) built from one description.

A graph description (JSON): n (vector length), vars [[..floats..]],
nodes [{op, in, heavy, kind, coef, ctx, none, dur}].  "expr" nodes are written
with the operators of Python.  Node index i >= 0 refers
to nodes[i], variable k is written as -(k+1).
Types: 'v' vectors of length n, 's' scalars.
"""
import numpy as np


def rnd(rng, lo=-1.5, hi=1.5):
    return round(rng.uniform(lo, hi), 3)


def rndz(rng):
    """A value of a variable or constant: now and then exactly zero."""
    return 0.0 if rng.random() < 0.06 else rnd(rng)


def gen_graph(rng, stack, max_nodes=10):
    n = rng.choice([1, 1, 2, 3])
    nvars = rng.randint(1, 3) if stack == "goos" else 1
    if stack == "invdes":
        n = rng.choice([2, 3, 4])
    g = {"n": n, "vars": [[rndz(rng) for _ in range(n)] for _ in range(nvars)],
         "nodes": []}
    if rng.random() < 0.06:
        return wide_graph(rng, stack, g)
    types = {}
    for k in range(nvars):
        types[-(k + 1)] = "v"
    nn = rng.randint(3, max_nodes)
    p_heavy = rng.choice([0.1, 0.4, 0.7, 0.9, 1.0])
    p_mix = rng.choice([0.4, 0.8, 0.9, 1.0])
    p_recent = rng.choice([0.0, 0.1, 0.3, 0.6])
    width = rng.choice([0, 0, 2, 3, 4, 6])
    nred = rng.choice([1, 2, 3])
    for i in range(nn):
        cands = list(types)
        # Prefer recent nodes (depth) but keep sharing.
        pick = lambda t=None: _pick(rng, [c for c in cands
                                          if t is None or types[c] == t],
                                    p_recent, width, i)
        node = {"heavy": rng.random() < p_heavy,
                "dur": 16000 if rng.random() < 0.02 else  # over an hour
                rng.choice([0, 0, 0, 1, 2, 5, 9])}
        r = rng.random()
        last = i == nn - 1
        if stack == "invdes" and (i < nred or last):
            r = 2.0
        if last and not any(t == "s" for t in types.values()):
            r = 2.0
        if r < p_mix:
            first = pick("s") if stack == "invdes" and any(
                t == "s" for t in types.values()) and rng.random() < 0.7 \
                else pick()
            t = types[first]
            arity = rng.randint(1, 4)
            ins = [first] + [pick(t) for _ in range(arity - 1)]
            node.update(op="mix", coef=[[rnd(rng), rnd(rng, -.6, .6)]
                                        for _ in ins], c=rnd(rng),
                        ctx=rng.random() < 0.5)
            node["in"] = ins
            if stack == "goos" and rng.random() < 0.2:
                # An input without gradient ("None"): its zero has one element.
                q = rng.randrange(arity)
                if n == 1 or ins[q] < 0:
                    node["none"] = q
        elif r < 1.5 and rng.random() < 0.75:
            first = pick()
            t = types[first]
            op = rng.choice(["sum", "prod", "pow", "sum", "prod", "abs",
                             "expr", "expr"] +
                            (["sig", "max", "conj", "ren", "cast", "arr"]
                             if stack == "goos" else ["over", "under", "range",
                                                      "real"]) +
                            (["lse", "sma"] if stack == "invdes" and t == "s"
                             else []))
            if op in UNARY:
                ins = [first]
                node["p"] = rng.choice([2, 3])
                if op in ("over", "under", "range"):
                    node["p"] = rng.choice([1, 2, 3])
                    node["lim"] = sorted([rnd(rng), rnd(rng)])
                if op == "arr":
                    node["coef"] = [rnd(rng), rnd(rng), rnd(rng)]
                    node["use"] = [rng.randrange(3)
                                   for _ in range(rng.randint(1, 4))]
            else:
                ins = [first] + [pick(t) for _ in range(rng.randint(1, 3))]
                if op == "expr":
                    node["tree"] = gen_tree(rng, stack, len(ins),
                                            n if t == "v" else 0)
                if op == "max" or op == "lse":
                    ins = list(dict.fromkeys(ins))
                if stack == "goos" and op in ("sum", "prod") and \
                        rng.random() < 0.3:
                    # Scalars go to all elements of the vectors.
                    if "s" in types.values():
                        ins = [pick(rng.choice("sv")) for _ in ins]
                        ins.insert(rng.randrange(len(ins) + 1), pick("v"))
                        t = "v"
            node.update(op=op)
            node["in"] = ins
        elif stack == "invdes" and rng.random() < 0.25:
            # Old-style function: only objective/gradient of the parameters.
            t = "s"
            node.update(op="old", coef=[rnd(rng) for _ in range(n)], c=rnd(rng),
                        heavy=False)
            node["in"] = []
        elif rng.random() < 0.2 and not last:
            t = rng.choice(["v", "s"])
            node.update(op="const", heavy=False,
                        val=[rndz(rng) for _ in range(n if t == "v" else 1)])
            node["in"] = []
        else:
            t = "s"
            if stack == "goos" and rng.random() < 0.35:
                # Norm of a slice of a vector.
                lo = rng.randrange(n)
                node.update(op="norm", p=rng.choice([2, 2, 4]),
                            sl=[lo, rng.randint(lo + 1, n)])
                node["in"] = [pick("v")]
            elif stack == "goos":
                node.update(op="dot")
                node["in"] = [pick("v"), pick("v")]
            elif rng.random() < 0.8:
                node.update(op="red", coef=[rnd(rng) for _ in range(n)],
                            c=rnd(rng))
                node["in"] = [pick("v")]
            else:
                node.update(op="slice", idx=rng.randrange(n), heavy=False)
                node["in"] = [-1]
        node["t"] = t
        g["nodes"].append(node)
        types[i] = t
    return g


def wide_graph(rng, stack, g):
    """Many heavy nodes side by side, as in designs with many simulations."""
    n, nodes = g["n"], g["nodes"]

    def reduce(i):
        node = {"op": "dot", "in": [i, i]} if stack == "goos" else {
            "op": "red", "in": [i], "coef": [rnd(rng) for _ in range(n)],
            "c": rnd(rng)}
        nodes.append(dict(node, t="s", heavy=False, dur=0))

    base = [-(k + 1) for k in range(len(g["vars"]))]
    t = rng.choice("vs")
    if t == "s":
        for i in list(base):
            reduce(i)
        base = list(range(len(nodes)))
    first = len(nodes)
    for _ in range(rng.randint(5, 14)):
        ins = [rng.choice(base) for _ in range(rng.randint(1, 2))]
        nodes.append({"op": "mix", "in": ins, "t": t, "c": rnd(rng),
                      "coef": [[rnd(rng), rnd(rng, -.6, .6)] for _ in ins],
                      "ctx": rng.random() < 0.5, "heavy": rng.random() < 0.95,
                      "dur": rng.choice([0, 0, 1, 2, 5, 9])})
    ins = list(range(first, len(nodes)))
    rng.shuffle(ins)
    nodes.append({"op": "sum", "in": ins, "t": t, "heavy": False, "dur": 0})
    if t == "v":
        reduce(len(nodes) - 1)
    return g


def _pick(rng, cands, p_recent, width, i):
    if width:
        # Layered: nodes of one layer do not feed each other.
        lim = (i // width) * width
        cands = [c for c in cands if c < lim] or cands
        prev = [c for c in cands if c >= lim - width]
        if prev and rng.random() < 0.7:
            return prev[rng.randrange(len(prev))]
    elif rng.random() < p_recent:
        return cands[-1]
    return cands[rng.randrange(len(cands))]


UNARY = ("pow", "abs", "sig", "conj", "ren", "cast", "arr", "over", "under",
         "range", "real")


def gen_tree(rng, stack, nin, n):
    """An expression in the operators of Python over inputs and constants.

    With vectors of invdes only operators that keep all operands of one shape.
    """
    parts = [["in", q] for q in range(nin)]
    small = n < 2 or stack == "goos"

    def const():
        if n >= 2 and (not small or rng.random() < 0.5):
            return ["c", [rnd(rng) for _ in range(n)]]
        return ["c", rng.choice([0, 1, -1, 2, rnd(rng), rnd(rng)])]

    for _ in range(rng.choice([0, 1, 1, 2])):
        parts.insert(rng.randrange(len(parts) + 1), const())
    ops = ["+", "+", "*", "*"]
    if small:
        ops += ["-", "-"]
        if stack == "goos":
            ops += ["/"]
    while len(parts) > 1:
        i = rng.randrange(len(parts) - 1)
        a, b = parts[i:i + 2]
        if a[0] == "c" and (b[0] == "c" or isinstance(a[1], list)):
            # An array on the left would take over.
            a, b = b, a
            if a[0] == "c":
                a = ["in", 0]
        parts[i:i + 2] = [[rng.choice(ops), a, b]]
        if rng.random() < 0.2:
            parts[i] = rng.choice([["pow", parts[i], 2]] +
                                  ([["neg", parts[i]]] if small else []))
    if parts[0][0] == "c":
        return ["in", 0]
    return parts[0]


def ev_tree(tree, ins, const):
    op = tree[0]
    if op == "in":
        return ins[min(tree[1], len(ins) - 1)]
    if op == "c":
        return const(tree[1])
    a = ev_tree(tree[1], ins, const)
    if op == "neg":
        return -a
    if op == "pow":
        return a**tree[2]
    b = ev_tree(tree[2], ins, const)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    return a / b


def lit(c):
    return np.array(c, dtype=float) if isinstance(c, list) else c


class Dual:
    """A value and its derivative in one direction."""
    bad = False

    def __init__(self, v, d=0.0):
        self.v, self.d = np.asarray(v, dtype=float), np.asarray(d, dtype=float)

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __add__(self, o):
        return Dual(self.v + o.v, self.d + o.d)

    def __sub__(self, o):
        return Dual(self.v - o.v, self.d - o.d)

    def __mul__(self, o):
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d)

    def __truediv__(self, o):
        if np.min(np.abs(o.v)) < 0.05:
            Dual.bad = True  # badly conditioned: no reference
            o = Dual(o.v * np.nan)
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / o.v**2)

    def __pow__(self, p):
        return Dual(self.v**p, p * self.v**(p - 1) * self.d)


def beyond(x, lo, hi):
    """How far x is out of [lo, hi], and in which direction."""
    return np.where(x > hi, x - hi, np.where(x < lo, lo - x, 0.0)), \
        np.where(x > hi, 1.0, np.where(x < lo, -1.0, 0.0))


def limits(nd):
    lo, hi = nd["lim"]
    return {"over": (-np.inf, hi), "under": (lo, np.inf)}.get(nd["op"], (lo, hi))


def scalars(g):
    return [i for i, nd in enumerate(g["nodes"])
            if nd["t"] == "s" or (nd["t"] == "v" and g["n"] == 1 and False)]


def fix_graph(g):
    """After minimisation removed things: is the graph still well formed?"""
    for i, nd in enumerate(g["nodes"]):
        for j in nd["in"]:
            if j >= i or -(j + 1) >= len(g["vars"]) and j < 0:
                return False
    return True


# -- reference ---------------------------------------------------------------
def ref_forward(g, varvals, override=None):
    """Plain sequential evaluation. Returns the value of every node."""
    vals = {-(k + 1): np.array(v, dtype=float) for k, v in enumerate(varvals)}
    override = override or {}
    for k, v in override.items():
        vals[k] = np.array(v, dtype=float)
    n = g["n"]
    for i, nd in enumerate(g["nodes"]):
        if i in override:
            continue
        x = [vals[j] for j in nd["in"]]
        op = nd["op"]
        if op == "mix":
            v = nd["c"] + 0.0
            for (a, b), xi in zip(nd["coef"], x):
                v = v + a * xi + b * xi * xi
        elif op == "sum":
            v = 0.0
            for xi in x:
                v = v + xi
        elif op == "prod":
            v = 1.0
            for xi in x:
                v = v * xi
        elif op == "pow":
            v = x[0]**nd["p"]
        elif op == "abs":
            v = np.abs(x[0])
        elif op == "sig":
            v = 1 / (1 + np.exp(-x[0]))
        elif op == "max":
            v = x[0]
            for xi in x[1:]:
                v = np.maximum(v, xi)
        elif op == "lse":
            v = np.log(np.sum(np.exp(np.array(x))))
        elif op == "dot":
            v = np.sum(x[0] * x[1])
        elif op == "norm":
            v = np.sum(x[0][nd["sl"][0]:nd["sl"][1]]**nd["p"])**(1 / nd["p"])
        elif op in ("conj", "ren", "cast", "real"):
            v = x[0]
        elif op == "expr":
            v = ev_tree(nd["tree"], [Dual(xi) for xi in x], Dual).v
        elif op in ("over", "under", "range"):
            far, _ = beyond(x[0], *limits(nd))
            v = np.where(far > 0, far**nd["p"], 0.0)
        elif op == "sma":
            wt = np.exp(np.array(x))
            v = np.sum(np.array(x) * wt) / np.sum(wt)
        elif op == "arr":
            v = x[0] * sum(nd["coef"][q] for q in nd["use"])
        elif op == "red":
            v = nd["c"] + np.dot(nd["coef"], x[0] * x[0])
        elif op == "slice":
            v = x[0][nd["idx"]]
        elif op == "old":
            v = nd["c"] + np.dot(nd["coef"], np.array(varvals[0])**2)
        elif op == "const":
            v = np.array(nd["val"]) if nd["t"] == "v" else np.float64(nd["val"][0])
        else:
            raise ValueError(op)
        vals[i] = np.asarray(v, dtype=float)
    return vals


def ref_grad(g, varvals, out):
    """Forward-mode derivative (independent of any backward ordering)."""
    n = g["n"]
    vals = ref_forward(g, varvals)
    grads = []
    for k in range(len(varvals)):
        gk = np.zeros(n)
        for e in range(n):
            d = {}
            for kk in range(len(varvals)):
                d[-(kk + 1)] = np.zeros(n)
            d[-(k + 1)][e] = 1.0
            for i, nd in enumerate(g["nodes"]):
                x = [vals[j] for j in nd["in"]]
                dx = [d[j] for j in nd["in"]]
                op = nd["op"]
                if op == "mix":
                    dv = 0.0
                    for q, ((a, b), xi, dxi) in enumerate(
                            zip(nd["coef"], x, dx)):
                        if nd.get("none") == q:
                            continue
                        dv = dv + (a + 2 * b * xi) * dxi
                elif op == "sum":
                    dv = sum(dx)
                elif op == "prod":
                    dv = 0.0
                    for q in range(len(x)):
                        t = dx[q]
                        for p in range(len(x)):
                            if p != q:
                                t = t * x[p]
                        dv = dv + t
                elif op == "pow":
                    dv = nd["p"] * x[0]**(nd["p"] - 1) * dx[0]
                elif op == "abs":
                    dv = np.sign(x[0]) * dx[0]
                elif op == "sig":
                    s = vals[i]
                    dv = s * (1 - s) * dx[0]
                elif op == "max":
                    st = np.stack([np.asarray(q) for q in x])
                    am = np.argmax(st, axis=0)
                    ds = np.stack([np.asarray(q) for q in dx])
                    dv = np.take_along_axis(ds, np.expand_dims(am, 0), 0)[0]
                elif op == "lse":
                    w = np.exp(np.array(x))
                    dv = np.dot(w / np.sum(w), np.array(dx))
                elif op == "dot":
                    dv = np.sum(dx[0] * x[1] + x[0] * dx[1])
                elif op == "norm":
                    lo, hi = nd["sl"]
                    p = nd["p"]
                    dv = np.sum((x[0][lo:hi] / vals[i])**(p - 1) *
                                dx[0][lo:hi])
                elif op in ("conj", "ren", "cast", "real"):
                    dv = dx[0]
                elif op == "expr":
                    dv = ev_tree(nd["tree"], [Dual(*q) for q in zip(x, dx)],
                                 Dual).d
                elif op in ("over", "under", "range"):
                    far, way = beyond(x[0], *limits(nd))
                    dv = np.where(far > 0, nd["p"] * far**(nd["p"] - 1) * way,
                                  0.0) * dx[0]
                elif op == "sma":
                    wt = np.exp(np.array(x))
                    wt = wt / np.sum(wt)
                    m = np.dot(np.array(x), wt)
                    dv = np.sum(wt * (1 + np.array(x) - m) * np.array(dx))
                elif op == "arr":
                    dv = dx[0] * sum(nd["coef"][q] for q in nd["use"])
                elif op == "red":
                    dv = np.dot(nd["coef"], 2 * x[0] * dx[0])
                elif op == "slice":
                    dv = dx[0][nd["idx"]]
                elif op == "old":
                    dv = np.dot(nd["coef"], 2 * np.array(varvals[0]) * d[-1])
                else:
                    dv = np.zeros_like(vals[i])
                d[i] = np.broadcast_to(np.asarray(dv, dtype=float),
                                       vals[i].shape)
            gk[e] = float(np.sum(d[out]))
        grads.append(gk)
    return grads


def safe_values(g, varvals):
    """Away from kinks and overflow, so comparisons are well conditioned."""
    Dual.bad = False
    vals = ref_forward(g, varvals)
    if Dual.bad:
        return False
    for i, nd in enumerate(g["nodes"]):
        v = vals[i]
        if nd["op"] in ("over", "under", "range") and min(
                np.min(np.abs(vals[nd["in"][0]] - q)) for q in nd["lim"]) < 1e-3:
            return False
        if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e4:
            return False
        if nd["op"] == "abs" and np.min(np.abs(vals[nd["in"][0]])) < 1e-3:
            return False
        if nd["op"] == "norm" and abs(v) < 1e-3:
            return False
        if nd["op"] == "max":
            st = np.sort(np.stack([vals[j] for j in nd["in"]]), axis=0)
            if len(nd["in"]) > 1 and np.min(np.abs(st[-1] - st[-2])) < 1e-3:
                return False
    return True


def close(a, b, tol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    if np.iscomplexobj(a) and np.max(np.abs(np.imag(a)), initial=0) < 1e-12:
        a = np.real(a)
    if a.size != b.size:
        try:
            a = np.broadcast_to(a, b.shape)
        except ValueError:
            return False
    return bool(np.allclose(a.reshape(-1), b.reshape(-1), rtol=tol,
                            atol=tol * 10))


def merged(g, j):
    """Whether expressions may have taken over the terms of node j.

    The sum of a sum and something else has all of their terms as inputs, so
    the sum itself is not evaluated for it.
    """
    ops = ("sum", "prod", "expr", "arr", "ren", "cast")
    return g["nodes"][j]["op"] in ops and any(
        nd["op"] == "expr" and any(q >= 0 and g["nodes"][q]["op"] in ops
                                   for q in nd["in"]) for nd in g["nodes"])


def ancestors(g, outs):
    seen = set()
    st = list(outs)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        if i >= 0:
            st.extend(g["nodes"][i]["in"])
    return seen
