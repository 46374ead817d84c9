#!/usr/bin/env python3
"""Run the checks against the planted bugs: catch.py [-j N] [bug ids...]. Each bug is applied
to a copy of /repo that is bind-free: the check is pointed at it with VSIM_REPO."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.path.join(HERE, "seeded")


def run(bug, seeds=(1,), tier="quick"):
    prop = json.load(open(os.path.join(seeded, bug, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        wt = os.path.join(tmp, "repo")
        shutil.copytree("/repo", wt, symlinks=True)
        vf = os.path.join(tmp, "verif")
        shutil.copytree(HERE, vf, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
        subprocess.run(["git", "apply", os.path.join(seeded, bug, "patch.diff")], cwd=wt, check=True)
        out = []
        for s in seeds:
            r = subprocess.run(["./run.py", "check", prop, "--tier", tier, "--seed", str(s)], cwd=vf,
                               env=dict(os.environ, VSIM_REPO=wt), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "ind=" in l]
            out.append("%s rc=%d %s" % (prop, r.returncode, (v or [r.stdout[-200:] + r.stderr[-200:]])[0][:200]))
        return bug, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[1:]] or sorted(os.listdir(seeded))
    with ThreadPoolExecutor(2) as ex:
        for b, o in ex.map(run, want):
            print(b, *o, sep="\n   ", flush=True)
