"""Batch driver: seeded search, confirmation, minimisation, replay, evidence.

usage: python -m simkit.runner <PROPERTY> [--tier quick|thorough] [--replay FILE]
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import time as _time_mod
import traceback

_now = _time_mod.monotonic
_cpu = os.cpu_count() or 4

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# SIM_OUT redirects what a run writes (evidence, replays) when the harness is
# run by hand against a scratch copy, so that /verif is left alone.
OUT = os.environ.get("SIM_OUT", os.path.join(VERIF, "evidence"))
SCRATCH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"

CASE_CPU_S = 150
CASE_WALL_S = 400


def case_rng(prop, seed, index):
    return random.Random("case|%s|%s|%s" % (prop, seed, index))


def load_check(prop):
    for fn in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if fn.lower().startswith(prop.lower()) and fn.endswith(".py"):
            return importlib.import_module("checks." + fn[:-3])
    raise SystemExit("no check for %s" % prop)


def run_case(check, case):
    """Runs one case in this process. Returns an outcome dict."""
    from . import world
    return world.execute(check, case)


def fork_case(check, case, cpu_s=CASE_CPU_S, wall_s=CASE_WALL_S):
    """Runs one case in a forked child (fresh module and class state)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
            try:
                out = run_case(check, case)
            except BaseException:  # harness failure
                out = {"harness_error": traceback.format_exc()[-3000:]}
            blob = json.dumps(out, default=str).encode()
            view = memoryview(struct.pack("<Q", len(blob)) + blob)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = bytearray()
    deadline = _now() + wall_s
    timed_out = False
    while True:
        left = deadline - _now()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    cleanup_scratch(pid)
    if len(data) >= 8:
        n = struct.unpack("<Q", bytes(data[:8]))[0]
        if len(data) == 8 + n:
            return json.loads(bytes(data[8:]).decode())
    if timed_out or (os.WIFSIGNALED(status) and
                     os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL)):
        return {"violations": [{"kind": "hang", "sig": "hang",
                                "msg": "no progress: the run used up its "
                                       "CPU or wall budget"}],
                "hang": True}
    return {"harness_error": "child ended abnormally: status %r" % (status,)}


def scratch_dir(pid=None):
    return os.path.join(SCRATCH_BASE, "spinsim-%d" % (pid or os.getpid()))


def cleanup_scratch(pid):
    d = scratch_dir(pid)
    if os.path.isdir(d) and os.path.basename(d).startswith("spinsim-"):
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
def worker_loop(check, prop, seed, indices, tier, wfd, deadline, rerun_every):
    out = os.fdopen(wfd, "wb")
    for i in indices:
        if _now() > deadline:
            break
        rng = case_rng(prop, seed, i)
        try:
            case = check.gen(rng, tier)
        except Exception:
            res = {"harness_error": traceback.format_exc()[-3000:]}
            case = None
        else:
            case["run"] = "%s/%s/%d" % (prop, seed, i)
            res = fork_case(check, case)
            if rerun_every and i % rerun_every == 0 and not res.get("hang") \
                    and "harness_error" not in res:
                again = fork_case(check, case)
                res["redo_same"] = again.get("digest") == res.get("digest")
        res["index"] = i
        res["case_digest"] = hashlib.sha256(
            json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
        if res.get("violations") or res.get("harness_error"):
            res["case"] = case
        pickle.dump(res, out)
        out.flush()
        if res.get("violations") and not res.get("all_known"):
            # keep going only for known findings
            from . import world
            if any(not is_known(prop, v) for v in res["violations"]):
                break
        if res.get("harness_error"):
            break
    out.close()
    os._exit(0)


_KNOWN = None


def known_findings():
    global _KNOWN
    if _KNOWN is None:
        p = os.path.join(VERIF, "known_findings.json")
        with open(p) as f:
            _KNOWN = json.load(f)["findings"]
    return _KNOWN


def is_known(prop, v):
    for k in known_findings():
        if k["property"] == prop and k.get("status") == "open" and \
                v.get("sig") == k["sig"]:
            return k
    return None


def run_batch(check, prop, seed, nruns, tier, budget_s, workers):
    deadline = _now() + budget_s
    procs = []
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                worker_loop(check, prop, seed, range(k, nruns, workers), tier,
                            w, deadline, rerun_every=23)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(w)
        procs.append((pid, r))
    results = []
    bufs = {r: bytearray() for _, r in procs}
    open_fds = [r for _, r in procs]
    stop = False
    while open_fds:
        rd, _, _ = select.select(open_fds, [], [], 5.0)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_fds.remove(fd)
                continue
            bufs[fd] += chunk
            while True:
                obj, used = _try_unpickle(bufs[fd])
                if not used:
                    break
                del bufs[fd][:used]
                results.append(obj)
                bad = [v for v in obj.get("violations", [])
                       if not is_known(prop, v)]
                if bad or obj.get("harness_error"):
                    stop = True
        if stop:
            break
    for pid, r in procs:
        if stop:
            try:
                os.kill(pid, signal.SIGTERM)
            except OSError:
                pass
    for pid, r in procs:
        os.waitpid(pid, 0)
        try:
            os.close(r)
        except OSError:
            pass
    if stop:
        # children of killed workers: their scratch dirs are pid-named
        for d in os.listdir(SCRATCH_BASE):
            if d.startswith("spinsim-"):
                p = int(d.split("-")[1])
                if not os.path.exists("/proc/%d" % p):
                    shutil.rmtree(os.path.join(SCRATCH_BASE, d),
                                  ignore_errors=True)
    return results


def _try_unpickle(buf):
    import io
    if not buf:
        return None, 0
    bio = io.BytesIO(bytes(buf))
    try:
        obj = pickle.load(bio)
    except (EOFError, pickle.UnpicklingError, IndexError, ValueError, KeyError):
        return None, 0
    return obj, bio.tell()


# ---------------------------------------------------------------------------
def shrink_candidates(check, case):
    """Smaller variants of `case`, biggest cuts first."""
    import copy
    for key in getattr(check, "SHRINK_LISTS", ["ops", "faults"]):
        parts = key.split(".")
        node = case
        for p in parts[:-1]:
            node = node.get(p, {}) if isinstance(node, dict) else {}
        lst = node.get(parts[-1]) if isinstance(node, dict) else None
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                c = copy.deepcopy(case)
                nd = c
                for p in parts[:-1]:
                    nd = nd[p]
                del nd[parts[-1]][start:start + size]
                yield c
            size //= 2
    # schedule
    sched = case.get("schedule")
    if sched:
        n = len(sched)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                c = copy.deepcopy(case)
                del c["schedule"][start:start + size]
                yield c
            size //= 2
    if hasattr(check, "shrink"):
        for c in check.shrink(copy.deepcopy(case)):
            yield c


def case_size(case):
    return len(json.dumps(case, default=str))


def minimise(check, case, sig, budget_s):
    """Greedy delta debugging; the violation signature must persist."""
    t_end = _now() + budget_s
    tried = 0
    best = case
    # Pin the schedule first: replace the random scheduler by its decisions.
    out = fork_case(check, case)
    if not out.get("hang") and out.get("decisions") is not None:
        pinned = dict(case)
        pinned["schedule"] = out["decisions"]
        o2 = fork_case(check, pinned)
        if any(v["sig"] == sig for v in o2.get("violations", [])):
            best = pinned
    improved = True
    while improved and _now() < t_end:
        improved = False
        for cand in shrink_candidates(check, best):
            if _now() > t_end:
                break
            if case_size(cand) >= case_size(best):
                continue
            tried += 1
            o = fork_case(check, cand, wall_s=60)
            if o.get("harness_error"):
                continue
            if any(v["sig"] == sig for v in o.get("violations", [])):
                best = cand
                improved = True
                break
    return best, tried


def write_replay(prop, case, outcome, tag):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tag))
    with open(path, "w") as f:
        json.dump({
            "property": prop,
            "case": case,
            "violation": outcome.get("violations", [None])[0],
            "digest": outcome.get("digest"),
            "trace": outcome.get("events", [])[-200:],
            "faults_fired": outcome.get("fired", []),
            "replay_with": "cd /verif && /opt/venv/bin/python -m "
                           "simkit.runner %s --replay %s" % (prop, path),
        }, f, indent=1, default=str)
    return path


def do_replay(check, prop, path):
    with open(path) as f:
        rep = json.load(f)
    out = fork_case(check, rep["case"])
    if out.get("harness_error"):
        print(out["harness_error"])
        return 2
    bad = [v for v in out.get("violations", []) if not is_known(prop, v)]
    same = out.get("digest") == rep.get("digest")
    for v in bad:
        print("violation: %s: %s" % (v["kind"], v["msg"]))
    for e in out.get("events", [])[-60:]:
        print("   ", e)
    print("event log digest %s the recorded one" %
          ("equals" if same else "differs from"))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation on this tree")
    return 0


def fresh_interpreter_digests(prop, seed, indices, tier, hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    return subprocess.Popen(
        [sys.executable, "-m", "simkit.runner", prop, "--tier", tier,
         "--digests", ",".join(map(str, indices)), "--seed", str(seed)],
        cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="run one case index, verbosely")
    ap.add_argument("--digests")
    args = ap.parse_args(argv)
    prop = args.property
    tier = args.tier
    t0 = _now()
    os.environ.setdefault("PYTHONHASHSEED", "0")

    sys.path.insert(0, VERIF)
    from . import env
    env.bootstrap()
    check = load_check(prop)
    if hasattr(check, "setup"):
        check.setup()
    import gc
    gc.collect()
    gc.freeze()

    seed = args.seed
    if args.replay:
        return do_replay(check, prop, args.replay)
    if args.digests:
        for i in args.digests.split(","):
            case = check.gen(case_rng(prop, seed, int(i)), tier)
            case["run"] = "%s/%s/%d" % (prop, seed, int(i))
            o = fork_case(check, case)
            print(i, o.get("digest"), flush=True)
        return 0
    if args.case is not None:
        case = check.gen(case_rng(prop, seed, args.case), tier)
        case["run"] = "%s/%s/%d" % (prop, seed, args.case)
        print(json.dumps(case, indent=1, default=str)[:6000])
        o = fork_case(check, case)
        ev = o.pop("events", [])
        for e in ev[:300]:
            print("  ", e)
        o.pop("decisions", None)
        print(json.dumps(o, indent=1)[:8000])
        return 0

    nruns = args.runs or check.RUNS[tier]
    budget = args.budget or check.BUDGET.get(tier, 120 if tier == "quick" else 1500)
    workers = args.workers or min(8, _cpu)
    print("%s tier=%s seed=%s runs=%d budget=%.0fs workers=%d" %
          (prop, tier, seed, nruns, budget, workers), flush=True)
    hs_idx = list(range(0, min(nruns, 60), 6))
    hs_proc = fresh_interpreter_digests(prop, seed, hs_idx, tier, 4242)
    results = run_batch(check, prop, seed, nruns, tier, budget, workers)
    wall_search = _now() - t0

    harness = [r for r in results if r.get("harness_error")]
    known_hits = {}
    bad = []
    for r in sorted(results, key=lambda r: r["index"]):
        for v in r.get("violations", []):
            k = is_known(prop, v)
            if k:
                known_hits.setdefault(k["sig"], [k, 0])
                known_hits[k["sig"]][1] += 1
            else:
                bad.append((r, v))

    exit_code = 0
    reported = []
    anomalies = []
    by_index = {r["index"]: r for r in results}
    hs_same = hs_cmp = 0
    if not bad and not harness:
        try:
            so, _ = hs_proc.communicate(timeout=300)
            for line in so.decode().splitlines():
                i, d = line.split()
                if int(i) in by_index:
                    hs_cmp += 1
                    hs_same += d == by_index[int(i)].get("digest")
        except subprocess.TimeoutExpired:
            hs_proc.kill()
    else:
        hs_proc.kill()
    hs_proc.wait()

    if bad:
        seen = set()
        for r, v in bad:
            if v["sig"] in seen or len(seen) >= 3:
                continue
            seen.add(v["sig"])
            # Confirm in a fresh child before reporting.
            confirmed = False
            for _ in range(2):
                o = fork_case(check, r["case"])
                if any(x["sig"] == v["sig"] for x in o.get("violations", [])):
                    confirmed = True
                    break
            if not confirmed:
                anomalies.append({"index": r["index"], "sig": v["sig"],
                                  "msg": v["msg"]})
                continue
            if v["kind"] == "hang":
                best, tried = r["case"], 0
            else:
                best, tried = minimise(check, r["case"], v["sig"],
                                       40 if not reported else 10)
            o = fork_case(check, best)
            path = write_replay(prop, best, o, "seed%s-case%d" %
                                (seed, r["index"]))
            vv = [x for x in o.get("violations", []) if x["sig"] == v["sig"]]
            vv = vv[0] if vv else v
            print("  %s: %s" % (vv["kind"], vv["msg"]))
            print("  minimised with %d runs: %d -> %d bytes" %
                  (tried, case_size(r["case"]), case_size(best)))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            reported.append({"sig": v["sig"], "kind": v["kind"],
                             "msg": vv["msg"], "replay": path,
                             "case_index": r["index"]})
            exit_code = 1
    if harness and not reported:
        print("HARNESS ERROR in case %s:\n%s" %
              (harness[0]["index"], harness[0]["harness_error"]))
        exit_code = 2
    for k in known_findings():
        if k["property"] == prop and k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    write_evidence(check, prop, tier, seed, results, reported, anomalies,
                   known_hits, _now() - t0, wall_search, nruns, workers,
                   hs_cmp, hs_same)
    nsim = len([r for r in results if "harness_error" not in r])
    print("%d simulated runs in %.1fs, exit %d" % (nsim, _now() - t0, exit_code))
    return exit_code


def write_evidence(check, prop, tier, seed, results, reported, anomalies,
                   known_hits, wall, wall_search, nruns, workers, hs_cmp,
                   hs_same):
    counters = {}
    vtime = 0.0
    interleavings = set()
    features = set()
    nontrivial = set()
    steps = 0
    redo = [0, 0]
    for r in results:
        for k, n in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + n
        vtime += r.get("vtime", 0.0)
        steps += r.get("steps", 0)
        if r.get("sched_digest"):
            interleavings.add(r["sched_digest"])
        for f in r.get("features", []):
            features.add(f)
        if r.get("nontrivial"):
            nontrivial.add(r.get("state_digest") or r.get("digest"))
        if "redo_same" in r:
            redo[0] += 1
            redo[1] += bool(r["redo_same"])
    faults = {k[6:]: n for k, n in counters.items() if k.startswith("fault:")}
    probes = {k: n for k, n in counters.items() if not k.startswith("fault:")}
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(seed) if str(seed).isdigit() else 0,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": check.RULE,
            "samples": [r.get("sample") for r in results
                        if r.get("sample")][:5],
            "planned_runs": nruns,
            "runs_per_hour": int(len(results) / max(wall_search, 1e-6) * 3600),
            "simulated_seconds": round(vtime, 3),
            "scheduling_steps": steps,
            "distinct_interleavings": len(interleavings),
            "interleaving_measure": "sha256 of the sequence of thread choices "
                                    "at scheduling points with more than one "
                                    "runnable thread",
            "faults_injected": faults,
            "probes": probes,
            "features_reached": sorted(features)[:200],
            "components_real": check.REAL,
            "components_stubbed": check.STUBS,
            "determinism": {
                "cases_rerun": redo[0], "identical_logs": redo[1],
                "fresh_interpreter_other_hashseed": hs_cmp,
                "fresh_identical_logs": hs_same,
            },
            "workers": workers,
            "unreproduced_anomalies": anomalies,
            "known_findings_hit": {k: n for k, (_, n) in known_hits.items()},
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": reported,
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
