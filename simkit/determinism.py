"""Determinism campaign: every case several times, in many processes, compared.

usage: python -m simkit.determinism C01,C02 --n 400 --reps 3 [--workers 16]
"""
import argparse
import os
import sys

from . import runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props")
    ap.add_argument("--n", type=int, default=300)
    ap.add_argument("--reps", type=int, default=3)
    ap.add_argument("--workers", type=int, default=12)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args()
    sys.path.insert(0, runner.VERIF)
    from . import env
    env.bootstrap()
    bad = 0
    for prop in a.props.split(","):
        check = runner.load_check(prop)
        if hasattr(check, "setup"):
            check.setup()
        pids = []
        for k in range(a.workers):
            pid = os.fork()
            if pid == 0:
                rc = 0
                for i in range(k, a.n, a.workers):
                    case = check.gen(runner.case_rng(prop, a.seed, i), a.tier)
                    case["run"] = "%s/%s/%d" % (prop, a.seed, i)
                    case["keep_log"] = True
                    outs = [runner.fork_case(check, case)
                            for _ in range(a.reps)]
                    ds = {o.get("digest") for o in outs}
                    if len(ds) > 1:
                        rc = 1
                        ref = outs[0]
                        oth = [o for o in outs
                               if o.get("digest") != ref.get("digest")][0]
                        e1, e2 = ref.get("events", []), oth.get("events", [])
                        j = 0
                        while j < min(len(e1), len(e2)) and e1[j] == e2[j]:
                            j += 1
                        print("%s case %d differs at event %d:\n  %s\n  %s" % (
                            prop, i, j, e1[max(0, j - 2):j + 2],
                            e2[max(0, j - 2):j + 2]), flush=True)
                os._exit(rc)
            pids.append(pid)
        n = sum(os.waitpid(p, 0)[1] != 0 for p in pids)
        print("%s: %d cases x %d, %d workers saw a difference" %
              (prop, a.n, a.reps, n), flush=True)
        bad += n
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
