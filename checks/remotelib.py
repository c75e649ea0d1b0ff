"""Shared by C07-C10: a simulated Maxwell solver server and its clients.

The server stores uploaded files, and a daemon thread picks up `<id>.request`,
reads the uploaded HDF5 inputs, solves the discretised Maxwell equation they
describe with the repository's own direct operators, writes the result files,
then `<id>.finished`, and removes the request.  The oracle for a remote solve
is the local direct solver called with the user's arguments.
"""
import io
import os
import re
import tempfile
import threading
import traceback

import h5py
import numpy as np
import scipy.sparse.linalg

from checks import goosgraph as gg
from simkit import env
from simkit import simnet

REAL = ["spins.fdfd_solvers.maxwell (client, both transfer helpers)",
        "spins.fdfd_tools, spins.fdfd_solvers.local_matrix_solvers",
        "requests (sessions, multipart encoding, body reading), h5py, tempfile"]
STUBS = ["TCP/HTTP transport below requests (simkit.simnet)",
         "Maxwell server (in-process: file store, request daemon, direct solve)",
         "clock, sleep, random, uuid, thread scheduler (simkit)"]

NAME = re.compile(r"^/?(.*)\.([A-Za-z0-9_]+)$")
INPUTS = ["grid"] + ["%s_%s%s" % (f, c, q) for f in "eJmA" for c in "xyz"
                     for q in "ri"]


def h5(data):
    f = h5py.File(io.BytesIO(data), "r")
    return {k: np.array(f[k]) for k in f}


def h5bytes(arr):
    b = io.BytesIO()
    with h5py.File(b, "w") as f:
        f.create_dataset("data", data=arr)
    return b.getvalue()


def decode(files):
    """Decodes the uploaded inputs of one request. Raises if any is unusable."""
    g = h5(files["grid"])
    field = lambda p: [h5(files["%s_%sr" % (p, c)])["data"] +
                       1j * h5(files["%s_%si" % (p, c)])["data"] for c in "xyz"]
    dx = lambda p: [g["%s_%sr" % (p, c)] + 1j * g["%s_%si" % (p, c)]
                    for c in "xyz"]
    return {"omega": complex(g["omega_r"][0] + 1j * g["omega_i"][0]),
            "shape": [int(x) for x in g["shape"]], "n_eig": int(g["n_eig"][0]),
            "max_iters": float(g["max_iters"][0]),
            "err_thresh": float(g["err_thresh"][0]),
            "bloch_phase": g["bloch_phase"], "pemc": g["pemc"],
            "solver": int(g["solver"]), "dxes": [dx("sd"), dx("sp")],
            "e": field("e"), "J": field("J"), "m": field("m"), "A": field("A")}


def server_solve(req):
    from spins import fdfd_tools
    from spins.fdfd_tools import operators
    dxes = req["dxes"]
    length = np.array([np.real(np.sum(a)) for a in dxes[0]])
    bloch = np.real(np.log(np.array(req["bloch_phase"])[:, 0].astype(complex)) /
                    1j) / length
    A = operators.e_full(req["omega"], dxes, epsilon=fdfd_tools.vec(req["e"]),
                         mu=fdfd_tools.vec(req["m"]), bloch_vec=bloch)
    b = -1j * req["omega"] * fdfd_tools.vec(req["J"])
    x = scipy.sparse.linalg.spsolve(A.astype(complex).tocsr(), b)
    return fdfd_tools.unvec(x, req["shape"])


def info_of(req):
    """Solve time and residuals that the server reports for a problem."""
    x = float(np.abs(np.sum(req["J"][0])))
    return 1.0 + x, [1.0, 0.5 * x, 0.25 * x]


class ServerFailed(RuntimeError):
    """The server could not use the inputs of a request it was sent."""


class Server:

    def __init__(self, sim, case):
        self.sim = sim
        self.case = case
        self.store = {}  # name -> bytes
        self.partial = set()  # names whose last upload was cut short
        self.history = []  # (time, event, id, what)
        self.pending = []
        self.solved = {}  # id -> decoded inputs
        self.errors = []
        self.wake = threading.Event()
        self.req_snap = {}  # id -> {suffix: (complete, bytes)}
        self.uploads_after = []

    # -- HTTP -------------------------------------------------------------
    def handle(self, method, host, path, headers, body, complete):
        if self.errors:
            # The solve can not finish any more: end the run.
            raise ServerFailed(self.errors[0])
        if method == "POST":
            form = simnet.parse_multipart(headers.get("Content-Type"), body)
            if form is None:
                # Cut short: a careless server may keep what it got.
                m = re.search(rb'name="key"\r\n\r\n([^\r]+)\r\n', body)
                if m and b"\r\n\r\n" in body and self.case["keep_partial"]:
                    name = m.group(1).decode()
                    data = body.split(b"\r\n\r\n")[-1]
                    if not name.endswith(".request"):
                        self.put(name, data, False)
                return 400, b"bad request"
            if "key" not in form or "file" not in form:
                return 400, b"bad form"
            self.put(form["key"][1].decode(), form["file"][1], True)
            return 200, b"ok"
        if method in ("GET", "HEAD"):
            name = path.lstrip("/").split("?")[0]
            if name in self.store:
                return 200, self.store[name]
            return 404, b"<html>404 not found</html>"
        return 405, b""

    def put(self, name, data, complete):
        m = NAME.match(name)
        rid, suffix = (m.group(1), m.group(2)) if m else (name, "")
        if suffix == "request":
            self.history.append((self.sim.now, "request", rid, len(data)))
            if rid in self.req_snap:
                return  # duplicate of a request that is already known
            self.store[name] = data
            self.req_snap[rid] = {k[len(rid) + 1:]: (k not in self.partial, v)
                                  for k, v in self.store.items()
                                  if k.startswith(rid + ".")}
            self.pending.append(rid)
            self.wake.set()
            return
        if rid in self.req_snap:
            same = self.store.get(name) == data and complete
            self.uploads_after.append((rid, suffix, same))
            if not same:
                self.store[name] = data
            return
        self.history.append((self.sim.now, "upload", rid, suffix))
        self.store[name] = data
        (self.partial.discard if complete else self.partial.add)(name)

    # -- the solving daemon ------------------------------------------------
    def daemon(self):
        sim, case = self.sim, self.case
        while True:
            if not self.pending:
                self.wake.clear()
                self.wake.wait()
                continue
            rid = self.pending.pop(sim.rng.randrange(len(self.pending))
                                   if case["lifo"] else 0)
            sim.sleep(case["pickup"])
            files = {k[len(rid) + 1:]: v for k, v in self.store.items()
                     if k.startswith(rid + ".")}
            if case["drop_request_early"]:
                self.store.pop(rid + ".request", None)
            try:
                req = decode(files)
                out = server_solve(req)
            except Exception as e:  # pylint: disable=broad-except
                self.errors.append((rid, repr(e)))
                continue
            self.solved[rid] = req
            if any(s.get("info") for s in case["solves"]):
                self.store[rid + ".status"] = b"".join(
                    b"%r\n" % e for e in info_of(req)[1])
                self.store[rid + ".time_info"] = h5bytes(
                    np.array([info_of(req)[0]]))
            sim.sleep(case["solve_time"])
            if case["restart"] and len(self.solved) == 1 and not self.errors:
                # The daemon dies after solving and starts over.
                sim.count("fault:server-restart")
                self.store[rid + ".E_xr"] = b"garbage of a dead daemon"
                sim.sleep(3.0)
            n = req["n_eig"] if req["solver"] == 3 else None
            for i in range(n or 1):
                for c, comp in enumerate("xyz"):
                    for q, part in (("r", np.real), ("i", np.imag)):
                        name = "E_%s%s" % (comp, q) if n is None else \
                            "Q%d_%s%s" % (i, comp, q)
                        self.store["%s.%s" % (rid, name)] = h5bytes(
                            part(out[c]) * (i + 1))
                        sim.sleep(0.05)
            if n is not None:
                ev = np.array([(4.0 + k)**2 + 0.5j for k in range(n)])
                self.store[rid + ".qr"] = h5bytes(np.real(ev))
                self.store[rid + ".qi"] = h5bytes(np.imag(ev))
            if case["drop_request_early"] or case["finish_first"]:
                self.store[rid + ".finished"] = b"done"
                sim.sleep(0.2)
            self.store.pop(rid + ".request", None)
            sim.sleep(0.2)
            self.store[rid + ".finished"] = b"done"
            self.history.append((sim.now, "finished", rid, ""))


def setup():
    import spins.fdfd_solvers.maxwell  # noqa
    import spins.goos_sim.maxwell  # noqa


def gen_solve(rng):
    shape = rng.choice([[3, 2, 1], [2, 3, 1], [4, 3, 1], [2, 2, 2]])
    eig = rng.choice([0, 0, 0, 0, 1, 2])
    return {"shape": shape, "seed": rng.randrange(1 << 30),
            "omega": round(rng.uniform(0.5, 2.0), 3),
            "adjoint": rng.random() < 0.35 and not eig,
            "bloch": rng.random() < 0.3,
            "bloch_off": rng.choice([[], [], [0, 1], [0, 2], [1, 2]]),
            # With a Bloch phase the client has to change the default itself.
            "solver": rng.choice(["CG", "CG", "CG", "biCGSTAB", "lgmres"]),
            "mu": rng.random() < 0.3,
            "E0": rng.random() < 0.2, "pml": rng.random() < 0.4,
            "eig": eig}


def args_of(s):
    r = np.random.RandomState(s["seed"] % (1 << 31))
    shape = s["shape"]
    n = 3 * int(np.prod(shape))
    dxes = [[r.uniform(0.8, 1.2, size=k) for k in shape] for _ in range(2)]
    # Both grids of a periodic domain have the same total length.
    dxes[1] = [b * (np.sum(a) / np.sum(b)) for a, b in zip(*dxes)]
    a = {"omega": s["omega"], "dxes": dxes,
         "J": r.normal(size=n) + 1j * r.normal(size=n),
         "epsilon": (r.uniform(1.5, 12.0, size=n)).astype(complex)}
    if s["mu"]:
        a["mu"] = r.uniform(1.0, 2.0, size=n).astype(complex)
    if s["bloch"]:
        a["bloch_vec"] = r.uniform(-0.4, 0.4, size=3)
        for ax in s["bloch_off"]:
            a["bloch_vec"][ax] = 0
        if s["pml"]:
            a["bloch_vec"][0] = 0  # no Bloch phase across absorbing layers
    if s["E0"]:
        a["E0"] = r.normal(size=n) + 1j * r.normal(size=n)
    if s["pml"]:
        a["pml_layers"] = [1 if shape[0] > 3 else 0, 0, 0, 0, 0, 0]
    if s["adjoint"]:
        a["adjoint"] = True
    return a


def reference(s):
    """What the user must get: the local direct solve of the same problem."""
    from spins import fdfd_tools
    from spins.fdfd_solvers import local_matrix_solvers as lms
    a = args_of(s)
    sym = s.get("sym")
    if not sym:
        return lms.DirectSolver().solve(**a)
    # The server solves the upper half along each mirrored axis.
    cut = tuple(slice(k // 2 if p else 0, k) for k, p in zip(s["shape"], sym))
    a["dxes"] = fdfd_tools.grid.apply_scpml(a["dxes"], a.pop("pml_layers", None),
                                            a["omega"])
    a["dxes"] = [[d[c] for d, c in zip(ds, cut)] for ds in a["dxes"]]
    for k in ("J", "epsilon", "mu", "E0"):
        if k in a:
            a[k] = np.concatenate([v[cut].flatten(order="F")
                                   for v in split(a[k], s["shape"])])
    half = [c.stop - c.start for c in cut]
    E = split(lms.DirectSolver().solve(**a), half)
    for ax, p in enumerate(sym):
        if p:
            E = [mirror(e, ax, (1 if p == 1 else -1) * (1 if c == ax else -1),
                        c == ax) for c, e in enumerate(E)]
    return np.concatenate([e.flatten(order="F") for e in E])


def split(v, shape):
    n = int(np.prod(shape))
    return [v[k * n:(k + 1) * n].reshape(shape, order="F") for k in range(3)]


def mirror(e, axis, sign, between):
    """Extends a half field: the mirror plane is at (or before) its index 0."""
    e = np.moveaxis(e, axis, 0)
    n = len(e)
    full = np.zeros((2 * n,) + e.shape[1:], dtype=complex)
    for i in range(n):
        full[n + i] = e[i]
        if between:
            full[n - 1 - i] = sign * e[i]
        elif i:
            full[n - i] = sign * e[i]
    return np.moveaxis(full, 0, axis)


KINDS = ["refused", "timeout", "reset_send", "reset_recv", "short_body", "slow",
         "http_error"]


def gen_faults(rng, nex, kinds, dense):
    plan = {}
    n = rng.choice([0, 1, 2, 4, 8]) if not dense else rng.choice([3, 6, 12])
    for _ in range(n):
        k = rng.choice(kinds)
        at = rng.randint(1, nex)
        if rng.random() < 0.25:
            at = rng.randint(20, 36)  # around request upload, polling, download
        f = [k]
        if k in ("reset_send", "short_body"):
            f.append(rng.choice([0.0, 0.3, 0.9, 0.99]))
        elif k == "slow":
            f.append(rng.choice([0.5, 3.0, 40.0]))
        elif k == "http_error":
            f.append(rng.choice([500, 502, 503, 404]))
        plan[at] = f
        # bursts: the retry fails too
        while rng.random() < 0.4:
            at += 1
            plan[at] = [rng.choice(["refused", "timeout", "reset_recv"])]
    return sorted([k, v] for k, v in plan.items())


def gen(rng, tier, kinds=KINDS, dense=False, nsolve=(1, 2), conc=False):
    ns = rng.randint(*nsolve)
    solves = [gen_solve(rng) for _ in range(ns)]
    nex = 40 * ns
    outages = []
    if rng.random() < 0.35:
        t = rng.choice([0.0, 0.1, 0.3, 1.0, 3.0, 8.0])
        outages.append([t, t + rng.choice([1.0, 12.0, 90.0, 1000.0])])
    pemc = [rng.choice([0, 0, 1, 2]) for _ in range(6)] \
        if rng.random() < 0.4 else None
    for s in solves:
        # Symmetric and instrumented solves are only offered remotely.
        s["pemc"] = pemc
        s["goos"] = rng.random() < 0.25
        s["info"] = not s["eig"] and rng.random() < 0.2
        if rng.random() < 0.3:
            s["sym"] = [rng.choice([0, 1, 2]) for _ in range(3)]
            s["shape"] = [{3: 4, 1: 2}.get(k, k) if p else k
                          for k, p in zip(s["shape"], s["sym"])]
            s["bloch"] = False
        if rng.random() < 0.3:
            s["err_thresh"], s["max_iters"] = 1e-7, 333
    return {"solves": solves, "faults": gen_faults(rng, nex, kinds, dense),
            "outages": outages, "conc": conc,
            "latency": [round(rng.choice([0.0, 0.01, 0.05, 0.3]), 3)
                        for _ in range(rng.randint(1, 4))],
            "pickup": rng.choice([0.0, 0.5, 4.0]),
            "solve_time": rng.choice([0.0, 2.0, 30.0, 500.0]),
            "lifo": rng.random() < 0.3, "restart": rng.random() < 0.1,
            "keep_partial": rng.random() < 0.6,
            "drop_request_early": rng.random() < 0.3,
            "finish_first": rng.random() < 0.2,
            "reseed": rng.random() < 0.4,
            "clock_jump": rng.choice([0, 0, 0, -3600, 7200]),
            "strategy": rng.choice(gg.SCHED),
            "trace": "line" if conc and rng.random() < 0.3 else "none"}


SHRINK_LISTS = ["faults", "solves", "outages"]


class Result:
    pass


def simulate(w, case):
    """Runs the case; returns a Result with everything the oracles need."""
    from spins.fdfd_solvers import maxwell
    import random
    import time
    tf = ["/spins/fdfd_solvers/maxwell"] if case["trace"] != "none" else None
    sim = w.sim(trace_files=tf, max_steps=100000)
    server = Server.__new__(Server)
    net = simnet.Net(sim, server, case["faults"], case["latency"],
                     case["outages"])
    sim.net = net
    tmp = w.mkroot("tmp")
    res = Result()
    res.pemc = np.array(next((s["pemc"] for s in case["solves"]
                              if s.get("pemc")), [0] * 6))
    res.outcomes = [None] * len(case["solves"])
    res.spans = [None] * len(case["solves"])
    res.server, res.net, res.sim, res.tmp = server, net, sim, tmp

    def one(i):
        s = case["solves"][i]
        if case["reseed"]:
            random.seed(7)
            np.random.seed(7)
        t0 = sim.now
        kw = {}
        for k in ("err_thresh", "max_iters"):
            if k in s:
                kw[k] = s[k]
        if s["eig"]:
            solver = maxwell.MaxwellSolver(s["shape"], server="sim:9041",
                                           solver="Jacobi-Davidson", **kw)
        elif s.get("goos") and s["solver"] != "lgmres":
            # As simulations of goos plans create it.
            from spins.goos_sim import maxwell as gm
            info = gm.MaxwellSolver(server="sim:9041", solver={
                "CG": "maxwell_cg", "biCGSTAB": "maxwell_bicgstab"}[s["solver"]],
                **kw)
            solver = gm.SIM_REGISTRY.get(info.type).creator(info, s["shape"])
        else:
            solver = maxwell.MaxwellSolver(s["shape"], server="sim:9041",
                                           solver=s["solver"], **kw)
        plain = not kw
        kw = {"n_eig": s["eig"]} if s["eig"] else {}
        if s.get("sym"):
            kw["symmetry"] = np.array(s["sym"])
        if s.get("pemc"):
            kw["pemc"] = res.pemc  # one array that all solves are given
        if s.get("info"):
            kw["solver_info"] = True
        if res.shared is not None and not s["eig"] and not s.get("goos") and \
                plain and s["solver"] == "CG":
            if list(res.shared.shape) == s["shape"]:
                solver = res.shared
        try:
            v = solver.solve(**args_of(s), **kw)
            res.outcomes[i] = ("ok", v)
        except Exception as e:  # pylint: disable=broad-except
            res.outcomes[i] = ("raised", e, [
                "%s:%d" % (os.path.basename(f.filename), f.lineno)
                for f in traceback.extract_tb(e.__traceback__)[-4:]])
        res.spans[i] = (t0, sim.now)

    def main():
        Server.__init__(server, sim, case)
        d = threading.Thread(target=server.daemon, name="server", daemon=True)
        d.start()
        res.shared = maxwell.MaxwellSolver(case["solves"][0]["shape"],
                                           server="sim:9041") \
            if case["solves"] else None
        if case["conc"]:
            ts = [threading.Thread(target=one, args=(i,), name="client-%d" % i)
                  for i in range(len(case["solves"]))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            for i in range(len(case["solves"])):
                one(i)
                if case["clock_jump"]:
                    sim.clock_offset = case["clock_jump"]
                    sim.count("fault:clock-jump")

    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        status, val = w.run_sim(sim, main)
    finally:
        tempfile.tempdir = old
    if status == "raised":
        raise val
    res.status, res.val = status, val
    w.nontrivial = net.n >= 30
    w.count("probe:http-exchanges", net.n)
    w.state_mark(case["faults"], case["outages"], len(case["solves"]),
                 [o[0] if o else None for o in res.outcomes])
    w.sample = {"solves": len(case["solves"]), "exchanges": net.n,
                "faults": case["faults"][:6], "outages": case["outages"],
                "virtual_s": round(sim.now, 1)}
    return res


def correct(s, value):
    """Does `value` equal what the user must get for solve `s`?"""
    if s["eig"]:
        E, q = value
        base = reference(dict(s, eig=0))
        ev = np.array([(4.0 + k)**2 + 0.5j for k in range(s["eig"])])
        return (len(E) == s["eig"] and
                all(np.allclose(e, base * (i + 1), rtol=1e-7, atol=1e-10)
                    for i, e in enumerate(E)) and np.allclose(q, ev**0.5))
    if s.get("info"):
        value, secs, errs = value
        t, e = info_of(expected_inputs(s))
        if not (np.allclose(secs, t) and len(errs) == len(e) and
                np.allclose(errs, e)):
            return False
    want = reference(s)
    return np.shape(value) == np.shape(want) and np.allclose(
        value, want, rtol=1e-7, atol=1e-10)


def expected_inputs(s):
    """What the server must have been sent for solve `s` (independent)."""
    from spins import fdfd_tools
    a = args_of(s)
    shape = s["shape"]
    cells = int(np.prod(shape))
    sym = s.get("sym") or [0, 0, 0]
    cut = tuple(slice(k // 2 if p else 0, k) for k, p in zip(shape, sym))
    half = [c.stop - c.start for c in cut]
    pemc = list(s.get("pemc") or [0] * 6)
    for ax, p in enumerate(sym):
        if p:
            pemc[2 * ax:2 * ax + 2] = [p, p]
    dxes = fdfd_tools.grid.apply_scpml(a["dxes"], a.get("pml_layers"),
                                       a["omega"])
    length = np.array([np.real(np.sum(d)) for d in dxes[0]])
    dxes = [[d[c] for d, c in zip(ds, cut)] for ds in dxes]
    part = lambda v: [x[cut] for x in split(v, shape)]
    eps = a["epsilon"]
    mu = a.get("mu", np.ones(3 * cells))
    E0 = a.get("E0", np.zeros(3 * cells))
    J = part(a["J"])
    if s["adjoint"]:
        eps, mu = np.conj(eps), np.conj(mu)
        dxes = [[np.conj(d) for d in ds] for ds in dxes]
        sd = np.meshgrid(*dxes[0], indexing="ij")
        sp = np.meshgrid(*dxes[1], indexing="ij")
        J = [J[0] / (sd[0] * sp[1] * sp[2]), J[1] / (sp[0] * sd[1] * sp[2]),
             J[2] / (sp[0] * sp[1] * sd[2])]
    phase = np.exp(1j * length * a.get("bloch_vec", np.zeros(3)))
    return {"omega": a["omega"], "shape": half, "n_eig": s["eig"] or 1,
            "pemc": pemc, "err_thresh": s.get("err_thresh", 1e-5),
            "max_iters": s.get("max_iters", 20000),
            "dxes": dxes, "e": part(eps), "m": part(mu), "A": part(E0),
            "J": J, "bloch_phase": np.repeat(phase[:, None], 3, axis=1),
            "solver": 3 if s["eig"] else
            {"CG": int(np.any(phase != 1)), "biCGSTAB": 1,
             "lgmres": 2}[s["solver"]]}


def input_mismatch(s, got):
    """Name of the first input that differs, or None."""
    want = expected_inputs(s)
    for k in ("omega", "shape", "n_eig", "solver", "bloch_phase", "pemc",
              "max_iters", "err_thresh"):
        if not np.allclose(got[k], want[k]):
            return k
    for k in ("e", "J", "m", "A"):
        for i in range(3):
            if np.shape(got[k][i]) != np.shape(want[k][i]) or \
                    not np.allclose(got[k][i], want[k][i], rtol=1e-12):
                return "%s_%s" % (k, "xyz"[i])
    for j in range(2):
        for i in range(3):
            if not np.allclose(got["dxes"][j][i], want["dxes"][j][i]):
                return "grid spacing"
    return None
