from checks import goosgraph as gg
from checks.c01_goos_values import (LEVEL, RULE, REAL, STUBS, ASSUMPTIONS,
                                    setup, shrink)
RUNS = {"quick": 2400, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1500}


def gen(rng, tier):
    return gg.gen(rng, tier, ["grad"] * 6 + ["set"] * 2 +
                  ["mark", "freeze", "eval", "callers"])


def run(w, case):
    gg.run(w, case, check_values=False)
