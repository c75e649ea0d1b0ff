"""Runs the checks of some properties against small source changes (by hand).

usage: mut.py FILE.py [NAME...]   FILE defines M = [(name, props, file, old, new)]
Each change is applied in a scratch copy; prints which properties reported a
violation, and runs the repository's tests for changes that none reported.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PAR = int(os.environ.get("MUT_PAR", "3"))


def one(m):
    name, props, fn, old, new = m
    W = "/tmp/mut/" + name
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(os.environ.get("MUT_BASE", "/repo"), W, symlinks=True)
    try:
        p = os.path.join(W, fn)
        s = open(p).read()
        if s.count(old) != 1:
            return name, "BAD PATTERN count=%d" % s.count(old)
        open(p, "w").write(s.replace(old, new))
        out = []
        hit = False
        for prop in props.split():
            env = dict(os.environ, SIM_REPO=W, SIM_OUT=W + "-out",
                       PYTHONHASHSEED="0", VERIF_SEED="1")
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "simkit.runner", prop, "--tier",
                 "quick", "--budget", "400", "--workers", str(max(1, 8 // PAR))],
                cwd="/verif", env=env, capture_output=True, timeout=900)
            txt = r.stdout.decode()
            n = [l for l in txt.splitlines() if "VIOLATION" not in l]
            if r.returncode == 1:
                hit = True
                kind = next((l for l in txt.splitlines()
                             if "VIOLATION" in l), "")
                out.append("%s:CAUGHT %s" % (prop, " | ".join(n)[:90]))
            elif r.returncode == 0:
                out.append("%s:missed" % prop)
            else:
                out.append("%s:ERROR%d %s" % (prop, r.returncode,
                                              (txt + r.stderr.decode())[-300:]))
        if not hit:
            t = open("/opt/vp/test.sh").read().replace("/repo", W).replace(
                "-n 8", "-n 3")
            open(W + ".sh", "w").write(t)
            subprocess.run(["bash", W + ".sh", W + ".json"],
                           capture_output=True)
            o = json.load(open(W + ".json"))
            b = json.load(open("/opt/vp/BASELINE.json"))
            miss = set(map(str, b["stable"])) - set(map(str, o["passed"]))
            out.append("tests " + ("PASS" if not miss else "fail %d" % len(miss)))
        return name, "; ".join(out)
    finally:
        shutil.rmtree(W, ignore_errors=True)
        shutil.rmtree(W + "-out", ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("m", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ms = [m for m in mod.M if not sys.argv[2:] or m[0] in sys.argv[2:]]
    os.makedirs("/tmp/mut", exist_ok=True)
    with ThreadPoolExecutor(PAR) as ex:
        for name, res in ex.map(one, ms):
            print(name, res, flush=True)


if __name__ == "__main__":
    main()
