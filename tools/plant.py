#!/usr/bin/env python3
"""Make planted bugs: plant.py BUGS.py [ids]. BUGS.py defines bugs = [dict(id, property,
edits=[(file, old, new, nth)], demo, needs, breaks)]. Each is made in a scratch copy of
/repo, its demonstration run with and without it and the stable tests with it; those that
do what they should are written to /verif/seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
DEMO = """#!/bin/bash
# run with cwd at the repository; exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
HEAD = """import logging
import os
import sys
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
import numpy as np


def check(ok, what):
    if not ok:
        print("FAILS:", what)
        sys.exit(1)


"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def base_lines(path):
    out = sh(["git", "blame", "-s", path], "/repo").stdout.splitlines()
    return [l.startswith("^") for l in out]


def one(bug):
    tmp = tempfile.mkdtemp(prefix="plant-")
    wt = os.path.join(tmp, "repo")
    msgs = []
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        for f, old, new, nth in bug["edits"]:
            p = os.path.join(wt, "robuststats", f)
            s = open(p).read()
            if old not in s:
                return bug["id"], ["old text not found in " + f]
            i = -1
            for _ in range(nth):
                i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        diff = sh(["git", "diff", "-U2"], wt).stdout
        # every removed line has to be one of the original repository
        f, n, mine, orig = None, 0, 0, 0
        for l in diff.splitlines():
            if l.startswith("--- "):
                f = l[6:]
                base = base_lines(f)
            elif l.startswith("@@"):
                n = int(l.split()[1][1:].split(",")[0]) - 1
            elif l.startswith("-"):
                orig += base[n]
                mine += not base[n]
                n += 1
            elif l.startswith(" "):
                n += 1
        if mine or not orig:
            msgs.append("removes %d original and %d other lines" % (orig, mine))
        d = os.path.join(HERE, "seeded", bug["id"])
        stage = os.path.join(tmp, "stage")
        os.makedirs(stage)
        open(os.path.join(stage, "patch.diff"), "w").write(diff)
        open(os.path.join(stage, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(stage, "demo.sh"), 0o755)
        open(os.path.join(stage, "demo.py"), "w").write(HEAD + bug["demo"].strip() + "\n")
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]},
                  open(os.path.join(stage, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(stage, "demo.sh")], "/repo")
        b = sh(["bash", os.path.join(stage, "demo.sh")], wt)
        if a.returncode:
            msgs.append("demo fails on the clean tree: " + (a.stdout + a.stderr)[-600:])
        if not b.returncode:
            msgs.append("demo passes with the bug")
        elif b.returncode != 1 or "FAILS:" not in b.stdout:
            msgs.append("demo with the bug: %d %s" % (b.returncode, (b.stdout + b.stderr)[-300:]))
        xml = os.path.join(tmp, "r.xml")
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o",
                "junit_family=xunit2", "--junitxml=" + xml, "tests"], wt)
        sh(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(tmp, "r.json"),
            "junit:" + xml], tmp)
        r = json.load(open(os.path.join(tmp, "r.json")))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = sorted(stable - set(r.get("passed", [])))
        if bad:
            msgs.append("tests broken: %s" % bad)
        if not msgs or "--force" in sys.argv:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(stage, d)
        return bug["id"], msgs or ["ok: " + b.stdout.strip()[-150:]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in ns["bugs"] if not want or b["id"] in want]
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, bugs):
            print(i, *m, sep="\n   ", flush=True)
