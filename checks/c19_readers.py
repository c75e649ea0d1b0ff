"""C19: log readers see complete, ordered records at any moment."""
import os
import pickle
import threading

import numpy as np

from checks import goosplan as gp
from checks import invplan as ip
from simkit import simfs

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 15000}
BUDGET = {"quick": 70, "thorough": 1500}
RULE = ("one evaluation = one seeded plan (either stack) writing logs, with one "
        "or two readers running next to it under a seeded schedule and after "
        "every crash; non-trivial = a reader next to the writer saw records; "
        "distinct by (plan, faults fired)")
REAL = ip.REAL_COMP + gp.REAL_COMP + [
    "spins.invdes.problem_graph.log_tools.loader, pandas"]
STUBS = ip.STUB_COMP + gp.STUB_COMP + [
    "the reader is a thread of the simulation, not another process"]
ASSUMPTIONS = ip.ASSUME + gp.ASSUME
SHRINK_LISTS = ["crashes", "readers"]
_listdir = simfs._real["listdir"]
_raw_open = ip._open


def setup():
    ip.setup()
    gp.setup()
    from spins.goos import util  # noqa


def shrink(case):
    return (gp if "actions" in case else ip).shrink(case)


def gen(rng, tier):
    if rng.random() < 0.5:
        c = gp.gen_plan(rng, ("descend", "descend", "descend", "set"), (1, 4))
        for a in c["actions"]:
            if a["kind"] == "descend":
                a["log"] = True
    else:
        c = ip.gen_plan(rng, trans=("descend", "descend", "affine", "scipy"),
                        nt=(1, 4))
        for t in c["transforms"]:
            if t["kind"] == "descend":
                t["log"] = True
    c["crashes"] = ip.gen_crashes(rng, 2) if rng.random() < 0.6 else []
    c["readers"] = [[rng.choice(["step", "file", "all", "all", "frame",
                                 "frame", "goos-step", "goos-file"])
                     for _ in range(rng.randint(2, 9))]
                    for _ in range(rng.randint(1, 2))]
    return c


def steps(folder):
    return {int(m.group(1)) for m in map(ip.STEP.match, _listdir(folder)) if m}


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return type(a) == type(b) and (a == b or a != a)


class Reader:

    def __init__(self, w, folder, name):
        self.w, self.folder, self.name = w, folder, name
        self.last = set()
        self.partial = False

    def read(self, kind):
        self.do(kind, steps(self.folder))

    def bad(self, kind, msg):
        self.w.violation(kind, "%s: %s" % (self.name, msg))

    def do(self, kind, before):
        from spins.goos import util
        from spins.invdes.problem_graph import workspace
        from spins.invdes.problem_graph.log_tools import loader
        f = self.folder
        lo = max(before, default=0)
        if kind in ("step", "goos-step"):
            n = (util if kind[0] == "g" else workspace).get_latest_log_step(f)
            hi = max(steps(f), default=0)
            if not lo <= n <= hi:
                self.bad("wrong-latest", "latest step is %s, between %d and %d "
                         "were complete" % (n, lo, hi))
            return
        if kind in ("file", "goos-file"):
            n = (util if kind[0] == "g" else workspace).get_latest_log_file(f)
            hi = max(steps(f), default=0)
            if n is None:
                if lo:
                    self.bad("wrong-latest", "no log file found, step %d was "
                             "complete" % lo)
                return
            m = ip.STEP.match(os.path.basename(n))
            if not m or not lo <= int(m.group(1)) <= hi or \
                    os.path.dirname(os.path.abspath(n)) != os.path.abspath(f):
                self.bad("wrong-latest", "latest file is %s, between %d and %d "
                         "were complete" % (n, lo, hi))
                return
            ip.read_pickle(n)
            return
        recs = loader.load_all_logs(f)
        after = steps(f)
        got = [r["log_counter"] for r in recs]
        self.w.count("probe:reads")
        if len(set(got)) != len(got):
            self.bad("duplicate-record", "records %s" % sorted(got))
            return
        got_s = set(got)
        if not (before | self.last) <= got_s <= after:
            self.bad("wrong-records", "read %s; %s were complete before, %s "
                     "after, %s read earlier" % (sorted(got), sorted(before),
                                                 sorted(after),
                                                 sorted(self.last)))
            return
        if got_s != set(range(1, len(got) + 1)):
            self.bad("record-gap", "read records %s" % sorted(got))
            return
        self.last = got_s
        if got:
            self.partial = True
        for r in recs:
            with _raw_open(os.path.join(f, "step%d.pkl" % r["log_counter"]),
                           "rb") as fp:
                disk = pickle.load(fp)
            if not same(r, disk):
                self.bad("wrong-content", "record %d differs from its file" %
                         r["log_counter"])
                return
        if kind == "frame" and recs:
            self.frame(loader, recs)

    def frame(self, loader, recs):
        df = loader.create_log_data_frame(recs)
        order = list(df["log_counter"])
        want = sorted(r["log_counter"] for r in recs)
        if order != want:
            self.bad("frame-order", "the data frame has rows %s, expected %s" %
                     (order, want))
            return
        by = sorted(recs, key=lambda r: r["log_counter"])
        for col, f in (("transformation", lambda r: r["transformation"]),
                       ("event:state", lambda r: r["event"]["state"])):
            if list(df[col]) != [f(r) for r in by]:
                self.bad("frame-content", "column %s is %s" %
                         (col, list(df[col])))
                return
        mons = sorted({k for r in by for k in r["monitor_data"]})
        for mon in mons:
            want = {}
            for r in by:
                if r["event"]["state"] == "optimizing" and \
                        mon in r["monitor_data"]:
                    want.setdefault(r["transformation"], []).append(
                        (float(np.ravel(r["monitor_data"][mon])[0]),
                         r["event"]["iteration"]))
            got = loader.get_monitor_data(df, mon, "optimizing")
            flat = {k: [(float(np.ravel(x)[0]), int(i)) for x, i in
                        zip(v.data, v.iteration)] for k, v in got.items()}
            if list(flat.items()) != list(want.items()):
                self.bad("monitor-data", "monitor %s is %s, the records hold "
                         "%s" % (mon, list(flat.items()), list(want.items())))
                return
            if not want:
                continue
            joined = loader.get_joined_scalar_monitors(df, mon, "optimizing",
                                                       None)
            flat = [float(np.ravel(x)[0]) for x in joined.data]
            if flat != [x for v in want.values() for x, _ in v]:
                self.bad("joined-data", "joined monitor %s is %s" %
                         (mon, flat))
            its, changes = [], []
            for v in want.values():
                if its:
                    changes.append(len(its))
                off = its[-1] if its else 0
                its += [i + off for _, i in v]
            if [int(i) for i in joined.iterations] != its or \
                    [int(i) for i in joined.transformation_changes] != changes:
                self.bad("joined-data", "joined monitor %s has iterations %s, "
                         "changes %s; the records %s, %s" % (
                             mon, joined.iterations,
                             joined.transformation_changes, its, changes))
            single = loader.get_single_monitor_data(df, mon,
                                                    event_name="optimizing")
            if float(np.ravel(single)[0]) != list(want.values())[-1][-1][0]:
                self.bad("single-data", "last value of %s is %s, expected %s" %
                         (mon, single, list(want.values())[-1][-1][0]))
        if not self.broken():
            self.queries(loader, df, by, mons)

    def broken(self):
        return bool(self.w.violations)

    def queries(self, loader, df, by, mons):
        """Monitors by event, transformation and iteration; joined monitors."""
        uniq = lambda xs: list(dict.fromkeys(xs))
        trans = uniq(r["transformation"] for r in by)
        events = uniq(r["event"]["state"] for r in by)
        num = lambda x: complex(np.ravel(x)[0])

        def series(names, event):
            out = {}
            for t in trans:
                for m in names:
                    rows = [(num(r["monitor_data"][m]),
                             r["event"].get("iteration")) for r in by
                            if r["transformation"] == t and
                            r["event"]["state"] == event and
                            r["monitor_data"].get(m) is not None]
                    if rows:
                        out[t] = rows
                        break
            return out

        self.w.count("probe:queries")
        picks = [[m] for m in mons] + [mons[::-1], mons]
        # A different part of the questions at every read.
        k = self.asked = getattr(self, "asked", len(by)) + 1
        for names in [picks[k % len(picks)]] if mons else []:
            for ev in events:
                want = series(names, ev)
                got = loader.get_monitor_data(df, list(names), ev)
                a = [(t, [num(x) for x in v.data], [int(i) for i in v.iteration])
                     for t, v in got.items()]
                b = [(t, [x for x, _ in v],
                      [i for _, i in v if i is not None])
                     for t, v in want.items()]
                if a != b:
                    self.bad("monitor-data", "monitors %s of event %s are %s, "
                             "the records hold %s" % (names, ev, a, b))
                    return
                flat = np.array([x for v in want.values() for x, _ in v])
                its = [i for v in want.values() for _, i in v]
                if len(flat) and None not in its and {np.shape(x) for v in
                        got.values() for x in v.data} <= {()}:
                    for op, f in (("magnitude", np.abs), ("phase", np.angle),
                                  ("magnitude_squared",
                                   lambda x: np.abs(x)**2),
                                  ("real", np.real),
                                  ("imag", np.imag))[k % 5:][:1]:
                        j = loader.get_joined_scalar_monitors(
                            df, list(names), ev, op)
                        if not np.allclose(np.ravel(j.data), f(flat),
                                           equal_nan=True):
                            self.bad("joined-data", "%s of %s joined is %s, "
                                     "expected %s" % (op, names, j.data,
                                                      f(flat)))
                            return
            for t in [(trans + [None])[k % (len(trans) + 1)]]:
                for ev in [None, events[k % len(events)]]:
                    for it in [(None, 1, 2)[k % 3]]:
                        want = None
                        for tt in reversed(trans) if t is None else [t]:
                            for e in reversed(events) if ev is None else [ev]:
                                v = series(names, e).get(tt)
                                if v and want is None:
                                    hit = [x for x, i in v if i == it and
                                           it is not None]
                                    want = hit[0] if hit else v[-1][0]
                        got = loader.get_single_monitor_data(
                            df, list(names), t, it, ev)
                        got = None if isinstance(got, list) and not got \
                            else num(got)
                        if got != want:
                            self.bad("single-data", "%s of transformation %s, "
                                     "event %s, iteration %s is %s, the "
                                     "records hold %s" % (names, t, ev, it,
                                                          got, want))
                            return


def pruned(w, folder):
    """The latest log is found, also when the user removed older ones."""
    from spins.goos import util
    from spins.invdes.problem_graph import workspace
    from spins.invdes.problem_graph.log_tools import loader
    have = sorted(steps(folder))
    if len(have) < 2:
        return
    for n in have[:-1]:
        if (n * 2654435761 >> 5) % 3:
            os.remove(os.path.join(folder, "step%d.pkl" % n))
    have = sorted(steps(folder))
    w.count("probe:pruned-folders")
    for mod in (util, workspace):
        n = mod.get_latest_log_step(folder)
        f = mod.get_latest_log_file(folder)
        w.check(n == have[-1] and ip.STEP.match(os.path.basename(f or "")) and
                os.path.basename(f) == "step%d.pkl" % have[-1],
                "wrong-latest", "folder with the logs %s: the latest is %s, "
                "%s" % (have, n, f))
    got = sorted(r["log_counter"] for r in loader.load_all_logs(folder))
    w.check(got == have, "wrong-records", "folder with the logs %s: read %s" %
            (have, got))


def run(w, case):
    import traceback

    def side(sim, fs, main):
        folder = fs.root

        def loop(r, reads):
            for k in reads:
                n0 = len(fs.fired)
                try:
                    r.read(k)
                except Exception as e:  # pylint: disable=broad-except
                    if isinstance(e, OSError) and len(fs.fired) > n0:
                        continue
                    tb = traceback.extract_tb(e.__traceback__)
                    r.bad("reader-failed", "%s raised %r at %s" % (
                        k, e, " <- ".join("%s:%d" % (
                            os.path.basename(x.filename), x.lineno)
                            for x in reversed(tb[-3:]))))
                    return
                for _ in range(sim.rng.randrange(30)):
                    sim.yield_point("reader")

        ts = []
        for i, reads in enumerate(case["readers"]):
            r = Reader(w, folder, "reader %d" % i)
            readers.append(r)
            ts.append(threading.Thread(target=loop, args=(r, reads)))
        for t in ts:
            t.start()
        try:
            main()
        finally:
            for t in ts:
                t.join()

    readers = []

    def after(folder):
        r = Reader(w, folder, "reader after the process ended")
        for k in ("step", "file", "all", "frame", "goos-step"):
            try:
                r.read(k)
            except Exception as e:  # pylint: disable=broad-except
                r.bad("reader-failed", "%s raised %r" % (k, e))
                return

    ex = gp.execute if "actions" in case else ip.execute
    got = ex(w, case, side=side, after=after, strict=False)
    if got is not None and not w.violations:
        pruned(w, got[1] if isinstance(got[1], str) else got[1].folder)
    w.nontrivial = any(r.partial for r in readers)
