"""Simulations as an optimization plan creates them (part of C06).

Everything between the plan's schemas and the matrix solves is the library's:
simulation spaces drawn from GDS files with dispersive materials, permittivity,
sources, overlaps, simulations and their caches.
"""
import os
import struct

import numpy as np

DX = 100.0
# Micrometers.
BG = [[-0.45, -0.1, 0.45, 0.1]]
FG = BG + [[-0.2, -0.2, 0.2, 0.2]]
WLENS = [1550.0, 1310.0, 1305.0, 1550.001, 1000.0]
SOURCES = ["dipole", "dipole-n", "mode", "gauss", "plane"]


def _real8(x):
    e = 64
    while x >= 1:
        x /= 16.0
        e += 1
    while x < 1 / 16.0:
        x *= 16.0
        e -= 1
    return struct.pack(">B", e) + int(x * 2**56).to_bytes(7, "big")


def gds(rects, layer):
    """A GDS file with rectangles [x0, y0, x1, y1] in micrometers."""
    out = []

    def rec(t, data=b""):
        if len(data) % 2:
            data += b"\0"
        out.append(struct.pack(">HH", len(data) + 4, t) + data)

    i2 = lambda *v: struct.pack(">%dh" % len(v), *v)
    date = i2(*[1] * 12)
    rec(0x0002, i2(3))
    rec(0x0102, date)
    rec(0x0206, b"LIB")
    rec(0x0305, _real8(1e-3) + _real8(1e-9))
    rec(0x0502, date)
    rec(0x0606, b"TOP")
    for x0, y0, x1, y1 in rects:
        pts = [x0, y0, x1, y0, x1, y1, x0, y1, x0, y0]
        rec(0x0800)
        rec(0x0D02, i2(layer))
        rec(0x0E02, i2(0))
        rec(0x1003, struct.pack(">10i", *[int(round(p * 1000)) for p in pts]))
        rec(0x1100)
    rec(0x0700)
    rec(0x0400)
    return b"".join(out)


def files(folder, opn=open):
    import scipy.io
    os.makedirs(folder, exist_ok=True)
    for name, r in (("bg", BG), ("fg", FG)):
        with opn(os.path.join(folder, name + ".gds"), "wb") as f:
            f.write(gds(r, 100))
    r = np.random.RandomState(5)
    x = np.linspace(-300, 300, 4)
    fld = lambda: r.normal(size=(4, 4, 1)) + 1j * r.normal(size=(4, 4, 1))
    scipy.io.savemat(os.path.join(folder, "ov.mat"), {
        "x": x, "y": x, "z": np.zeros(1), "Ex": fld(), "Ey": fld(),
        "Ez": fld()})


def schemas(sims):
    """The nodes of a plan with these simulations."""
    from spins.invdes.problem_graph import optplan
    mat = lambda n: optplan.Material(mat_name=n)
    stack = optplan.GdsMaterialStack(
        background=mat("Air"), stack=[optplan.GdsMaterialStackLayer(
            foreground=mat("Si"), background=mat("SiO2"), gds_layer=[100, 0],
            extents=[-110, 110])])
    spaces = {}
    out = []
    for s in sims:
        if s["space"] not in spaces:
            spaces[s["space"]] = optplan.SimulationSpace(
                name="space%s" % s["space"], mesh=optplan.UniformMesh(dx=DX),
                eps_fg=optplan.GdsEps(gds="fg.gds", mat_stack=stack),
                eps_bg=optplan.GdsEps(gds="bg.gds", mat_stack=stack),
                sim_region=optplan.Box3d(center=[0, 0, 0],
                                         extents=[900, 900, DX]),
                selection_matrix_type=optplan.SelectionMatrixType.DIRECT.value,
                boundary_conditions=[optplan.BlochBoundary()] * 6,
                pml_thickness=[s["space"] % 2 * 2] * 4 + [0, 0])
        space = spaces[s["space"]]
        k = s["id"]
        wl = s["wlen"]
        eps = optplan.Epsilon(name="eps%d" % k, simulation_space=space,
                              wavelength=wl)
        where = dict(center=[-250, 0, 0], extents=[DX, 900, 900],
                     normal=[1, 0, 0])
        # Only what absorbing layers take away can be normalized by.
        norm = s["space"] % 2 == 1 and k < 2
        if s["source"].startswith("dipole"):
            # Normalizing takes a solve of its own.
            src = optplan.DipoleSource(name="src%d" % k, position=[-200, 50, 0],
                                       axis=2, phase=0.3, power=1.0,
                                       normalize_by_sim=norm and
                                       s["source"][-1] == "n")
        elif s["source"] == "gauss":
            src = optplan.GaussianSource(
                name="src%d" % k, w0=400.0, theta=0.0, psi=0.0,
                polarization_angle=0.3, power=1.0, normalize_by_sim=norm,
                **where)
        elif s["source"] == "plane":
            src = optplan.PlaneWaveSource(
                name="src%d" % k, theta=0.3, psi=0.2, polarization_angle=0.3,
                overwrite_bloch_vector=True, power=1.0,
                normalize_by_sim=norm, **where)
        else:
            src = optplan.WaveguideModeSource(name="src%d" % k, mode_num=0,
                                              power=1.0, **where)
        sim = optplan.FdfdSimulation(
            name="sim%d" % k, simulation_space=space, epsilon=eps, source=src,
            wavelength=wl, solver="local_direct")
        if s["overlap"] == "mode":
            ov = optplan.WaveguideModeOverlap(
                name="mo%d" % k, mode_num=0, power=1.0, center=[250, 0, 0],
                extents=[DX, 900, 900], normal=[1, 0, 0])
        else:
            ov = optplan.ImportOverlap(name="mo%d" % k, file_name="ov.mat",
                                       center=[0, 0, 0])
        ovl = optplan.Overlap(name="ov%d" % k, simulation=sim, overlap=ov)
        out.append({"eps": eps, "sim": sim, "ov": ovl, "space": space,
                    "obj": optplan.abs(ovl)**2})
    return out


def gen(rng, tier):
    nsim = rng.randint(1, 3)
    spaces = rng.choice([[0], [1], [0, 1]])
    sims = [{"id": k, "space": rng.choice(spaces), "wlen": rng.choice(WLENS),
             "source": rng.choice(SOURCES), "overlap": rng.choice(
                 ["mode", "import"])} for k in range(nsim)]
    ops = []
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        kind = rng.choice(["set", "set", "back", "nudge", "refset", "eval",
                           "grad", "grad", "fields", "eps", "diff", "diffgrad",
                           "cons", "consgrad", "nofile"])
        if kind in ("set", "refset"):
            ops.append([kind, [round(rng.uniform(-.5, .5), 2)
                               for _ in range(4)]])
        elif kind in ("back", "nudge", "nofile"):
            ops.append([kind])
        elif kind in ("cons", "consgrad"):
            ops.append([kind, [rng.randrange(nsim)
                               for _ in range(rng.randint(2, 3))]])
        else:
            ops.append([kind, rng.randrange(nsim)])
    if rng.random() < 0.3:
        # A file is missing at some first use, which is then tried again.
        i = rng.randrange(len(ops))
        k = rng.randrange(nsim)
        again = [rng.choice(["eval", "eps", "grad", "fields"]), k]
        ops[i:i] = [["nofile"], again, list(again)]
    return sims, ops


def materials(wlen):
    """The permittivities of the waveguide and of what surrounds it."""
    from spins import material
    out = []
    for m in (material.Si(), material.SiO2()):
        n, _ = m.refractive_index(np.array(wlen))
        out.append(float(np.ravel(n)[0])**2)
    return out


def vec(p):
    return 0.5 + 0.8 * np.kron(np.array(p).reshape(2, 2),
                               np.ones((4, 4))).ravel(order="F")


class Work:
    """A workspace with the objects of a plan."""

    def __init__(self, folder, sims, p, ref):
        from spins.invdes.parametrization import DirectParam
        from spins.invdes.problem_graph import optplan, workspace
        self.work = workspace.Workspace(folder)
        self.nodes = {s["id"]: n for s, n in zip(sims, schemas(sims))}
        self.diffs = {}
        for k, n in self.nodes.items():
            # The reference is what another parametrization has right now.
            prm = optplan.PixelParametrization(
                name="ref%d" % k, simulation_space=n["space"],
                init_method=optplan.UniformInitializer(
                    name="ini%d" % k, min_val=0.5, max_val=0.5))
            self.diffs[k] = (prm, optplan.DiffEpsilon(
                name="diff%d" % k, epsilon=n["eps"],
                epsilon_ref=optplan.ParamEps(
                    parametrization=prm, simulation_space=n["space"],
                    wavelength=n["eps"].wavelength)))
        self.param = DirectParam(vec(p), bounds=[0, 1])
        self.ref = ref

    def fun(self, kind, k):
        if kind == "diff":
            prm, node = self.diffs[k]
            f = self.work.get_object(node)
            # Its size is known once the space was drawn.
            self.work.get_object(self.nodes[k]["eps"])
            self.work.get_object(prm).from_vector(vec(self.ref))
            return f
        return self.work.get_object(self.nodes[k][
            {"fields": "sim", "eps": "eps"}.get(kind, "obj")])

    def do(self, kind, k):
        if kind.endswith("grad"):
            return self.fun("diff" if kind == "diffgrad" else "obj",
                            k).calculate_gradient(self.param)
        return self.fun(kind, k).calculate_objective_function(self.param)


def body(w, case, sim, solver, lms, cmp, nxt, scribble, slope, down):
    from spins.invdes import problem
    from spins.invdes.problem_graph import creator_em
    if not hasattr(creator_em, "DIRECT_SOLVER"):
        # Without its seam this stack cannot be put under the simulator.
        w.count("probe:plan-seam-missing")
        return
    folder = w.mkroot("plan")
    files(folder)
    sims, cur, ref = case["sims"], case["p0"], [0.0] * 4
    spec = {s["id"]: s for s in sims}
    creator_em.DIRECT_SOLVER = solver
    work = Work(folder, sims, cur, ref)

    def fresh(kind, k):
        creator_em.DIRECT_SOLVER = lms.DirectSolver()
        try:
            return Work(folder, [spec[k]], cur, ref).do(kind, k)
        finally:
            creator_em.DIRECT_SOLVER = solver

    def values(kind, k):
        """The values of a fresh workspace as a function of the structure."""
        wk = Work(folder, [spec[k]], cur, ref)

        def f(v):
            creator_em.DIRECT_SOLVER = lms.DirectSolver()
            try:
                wk.param.from_vector(v)
                return wk.do(kind, k)
            finally:
                creator_em.DIRECT_SOLVER = solver

        return f, wk.param.to_vector()

    hist = [cur]
    hide = False
    sloped = False
    for oi, op in enumerate(case["ops"]):
        sim.log("op", op)
        kind = op[0]
        if kind in ("set", "back", "nudge"):
            cur = nxt(op, hist)
            work.param.from_vector(vec(cur))
            hist.append(list(cur))
            continue
        if kind == "refset":
            ref = work.ref = op[1]
            continue
        if kind == "nofile":
            hide = True
            continue
        idx = [k for k in (op[1] if isinstance(op[1], list) else [op[1]])
               if k in spec]
        if not idx:
            continue
        one = {"cons": "eval", "consgrad": "grad"}.get(kind, kind)
        names = [os.path.join(folder, f + ".gds") for f in ("fg", "bg")]
        if hide:
            for f in names:
                os.rename(f, f + ".away")
        try:
            if kind in ("cons", "consgrad"):
                funs = [work.fun("eval", k) for k in idx]
                prob = problem.OptimizationProblem(
                    funs[0], cons_eq=funs[:1], cons_ineq=funs[1:])
                a, b = (prob.calculate_constraints(work.param)
                        if kind == "cons" else
                        prob.calculate_constraint_gradients(work.param))
                got = list(a) + list(b)
            else:
                got = [work.do(kind, idx[0])]
        except down:
            w.count("probe:solver-error-raised")
            continue
        except FileNotFoundError:
            w.check(hide, "spurious-error", "op %d %s: no such file" % (oi, op))
            w.count("fault:gds-missing")
            continue
        finally:
            if hide:
                for f in names:
                    os.rename(f + ".away", f)
            hide = False
        if kind == "eps":
            # Next to the design: fully waveguide or fully its surroundings.
            col = np.reshape(got[0], (9, 9, 3), order="F")[1, :, 2]
            want = materials(spec[idx[0]]["wlen"])
            w.check(np.allclose(col[[5, 0]], want, rtol=1e-8), "wrong-material",
                    "op %d: the permittivity at %s nm is %s, the materials "
                    "have %s" % (oi, spec[idx[0]]["wlen"], col[[5, 0]], want))
        for k, g in zip(idx, got):
            cmp(w, oi, "%s of simulation %d" % (kind, k), g, fresh(one, k),
                "stale-" + one)
        if one.endswith("grad") and not sloped and not w.violations:
            sloped = True
            f, at = values(one[:-4] or "eval", idx[0])
            slope(w, oi, f, at, got[0], "%s of simulation %d" % (kind, idx[0]))
        if w.violations:
            return
        if case.get("scribble"):
            scribble(got)
