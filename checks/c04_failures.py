from checks import goosgraph as gg
from checks import invgraph as ig
from checks.c01_goos_values import LEVEL, ASSUMPTIONS
from checks.c03_invdes_graph import STUBS
RUNS = {"quick": 3000, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: a generated graph, an operation "
        "history and failures injected into nodes or thread starts, under one "
        "schedule; non-trivial = an injected failure actually fired; distinct "
        "by (graph, history, faults)")
REAL = ["spins.goos graph executor and plan", "spins.invdes.problem graph "
        "executor, objectives, OptimizationProblem",
        "concurrent.futures.ThreadPoolExecutor (stdlib code)", "numpy"]
shrink = gg.shrink


def setup():
    gg.setup()
    ig.setup()


def gen(rng, tier):
    if rng.random() < 0.5:
        case = gg.gen(rng, tier, ["eval"] * 3 + ["grad"] * 3 + ["set",
                                                                "override"])
        case["stack"] = "goos"
    else:
        case = ig.gen(rng, tier)
    case["faults"] = gg.gen_faults(rng, case)
    return case


def run(w, case):
    if case["stack"] == "goos":
        gg.run(w, case, check_faults=True)
    else:
        ig.run(w, case, check_faults=True)
    w.nontrivial = bool(w.counters.get("probe:fault-raised")) or bool(
        w.violations)
