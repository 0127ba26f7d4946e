"""Create and confirm a planted bug.

usage: mkseed.py DEF.py [--no-tests]
DEF.py defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO
(python source of the demonstration: exits non-zero when the bug shows).
Works in a scratch copy /tmp/seed_<ID>, which is removed afterwards. The folder
is written only when: the patch applies, every module imports, the demo passes
on the clean tree and fails with the patch, and the stable tests pass.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# cwd: the repository under test
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
exec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    d = {}
    exec(open(sys.argv[1]).read(), d)
    tests = "--no-tests" not in sys.argv
    i = d["ID"]
    wt = "/tmp/seed_%s" % i
    out = os.path.join(VERIF, "seeded", i)
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a %s %s && git -C %s checkout -q -- ." % (os.environ.get("SEED_BASE", "/repo"), wt, wt))
    tmp = "/tmp/seedout_%s" % i
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        open(tmp + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
        r = sh("bash %s/demo.sh" % tmp, cwd=wt)
        if r.returncode:
            print(i, "FAIL demo fails on the clean tree\n", r.stdout[-2000:])
            return 1
        for f, a, b in d["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(i, "FAIL pattern occurs %d times in %s" % (s.count(a), f))
                return 1
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C %s diff" % wt).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        r = sh("bash %s/demo.sh" % tmp, cwd=wt)
        if r.returncode == 0:
            print(i, "FAIL demo passes with the bug")
            return 1
        if r.returncode == 124:
            print(i, "note: demo timed out with the bug")
        print(i, "demo with bug:", r.stdout.strip().splitlines()[-1:] )
        if tests:
            ts = open("/opt/vp/test.sh").read().replace("/repo", wt)
            open(tmp + "/test.sh", "w").write(ts)
            r = sh("bash %s/test.sh %s/t.json" % (tmp, tmp))
            t = set(json.load(open(tmp + "/t.json"))["passed"])
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = sorted(stable - t)
            os.remove(tmp + "/test.sh")
            os.remove(tmp + "/t.json")
            if miss:
                print(i, "FAIL tests catch it:", len(miss), miss[:4])
                return 1
        json.dump(
            {"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
            open(tmp + "/meta.json", "w"),
            indent=1,
        )
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(i, "OK")
        return 0
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
