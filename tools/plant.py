#!/usr/bin/env python3
"""plant.py ID PROP FILE...: makes seeded/ID from the edits now in a scratch copy.

Usage: plant.py spec.json, with id, property, needs, what_it_breaks,
edits [[file, old, new], ...] and demo (a Python program). The patch is made in
a scratch copy of /repo; then, on /repo itself: the demonstration must pass
without and fail with it, the tests must pass with it, and the property's check
is run with it. /repo is restored in the end. With --scratch, a copy of
/repo stands in for it.
"""
import json
import os
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """#!/bin/bash
# %s
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore - <<'PY'
import logging
logging.disable(logging.CRITICAL)
%s
PY
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    global REPO
    if "--scratch" in sys.argv:
        REPO = "/tmp/plant-scratch/repo"
        shutil.rmtree("/tmp/plant-scratch", ignore_errors=True)
        os.makedirs("/tmp/plant-scratch")
        sh("cp -a /repo /tmp/plant-scratch/")
    for spec in json.load(open(sys.argv[1])):
        d = os.path.join(VERIF, "seeded", spec["id"])
        assert sh("git -C %s status --porcelain" % REPO).stdout == "", "dirty /repo"
        try:
            for f, old, new, *n in spec["edits"]:
                t = open(REPO + "/" + f).read()
                assert t.count(old) == (n or [1])[0], (spec["id"], f, t.count(old), old)
                open(REPO + "/" + f, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % REPO).stdout
            sh("git -C %s checkout -- ." % REPO)
            # only lines of the original
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(HEAD % (spec["what_it_breaks"].split("\n")[0], spec["demo"].strip()))
            json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
            mine = set(l[1:].strip() for l in sh("git -C %s diff 72560e9 HEAD -- pygsp" % REPO).stdout.split("\n") if l.startswith("+") and not l.startswith("+++"))
            touched = [l[1:].strip() for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in touched if l in mine and l]
            if bad:
                print(spec["id"], "TOUCHES MY LINES", bad)
            a = sh("bash %s/demo.sh" % d, cwd=REPO, timeout=300)
            if a.returncode:
                print(spec["id"], "demo fails on the clean tree", a.stdout[-500:], a.stderr[-800:])
                continue
            r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
            assert r.returncode == 0, r.stderr
            b = sh("bash %s/demo.sh" % d, cwd=REPO, timeout=300)
            if b.returncode == 0:
                print(spec["id"], "demo passes with the patch")
                continue
            t = "skipped"
            if "--notests" not in sys.argv:
                t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --basetemp=/tmp/plant-tests", cwd=REPO).stdout.strip().split("\n")[-1]
            c = sh("./check.py %s" % spec["property"], cwd=VERIF, env=dict(os.environ, VERIF_REPO=REPO))
            out = [l for l in c.stdout.split("\n") if l.strip().startswith("case")]
            print(spec["id"], "| demo", (b.stdout + b.stderr).strip().split("\n")[-1][:120], "| tests", t, "| check", c.returncode, out[:1] or c.stdout[-200:])
        finally:
            sh("git -C %s checkout -- ." % REPO)


main()
