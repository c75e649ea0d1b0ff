from checks import goosgraph as gg
from checks import invgraph as ig
from checks.c01_goos_values import LEVEL, RULE, ASSUMPTIONS
RUNS = {"quick": 2400, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}
REAL = ["spins.invdes.problem graph executor, objectives, OptimizationProblem",
        "spins.invdes.parametrization.DirectParam",
        "concurrent.futures.ThreadPoolExecutor (stdlib code)", "numpy, scipy"]
STUBS = ["thread scheduler, locks, queues, clock and sleep (simkit)",
         "id() (seeded numbers, dead numbers reused)",
         "extra graph nodes with injected durations"]
setup = ig.setup
shrink = gg.shrink


def gen(rng, tier):
    return ig.gen(rng, tier)


def run(w, case):
    ig.run(w, case)
