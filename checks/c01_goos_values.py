from checks import goosgraph as gg
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation = one seeded run: a generated graph and operation "
        "history executed under one schedule; non-trivial = at least one node "
        "marked for parallel evaluation ran; distinct by (graph, history, "
        "faults)")
REAL = ["spins.goos graph executor, plan, flows and math nodes",
        "concurrent.futures.ThreadPoolExecutor (stdlib code)", "numpy"]
STUBS = ["thread scheduler, locks, queues, clock and sleep (simkit)",
         "id() (seeded numbers, dead numbers reused)",
         "extra graph nodes with injected durations (verif.mix)"]
ASSUMPTIONS = ["threads interleave at blocking points, node boundaries and, in "
               "traced runs, at every source line or bytecode of the executor",
               "sampled graphs have at most 16 nodes and real float vectors"]
setup = gg.setup
shrink = gg.shrink


def gen(rng, tier):
    return gg.gen(rng, tier, ["eval"] * 5 + ["override"] * 2 + ["set"] * 2 +
                  ["mark", "freeze", "grad", "callers"])


def run(w, case):
    gg.run(w, case, check_grads=False)
