#!/usr/bin/env python3
"""Quick mutation battery: battery.py FILE [substring]; FILE defines muts =
[(property, name, [(file, old, new, nth)...])]. Prints what each check said."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m):
    prop, name, edits = m
    tmp = tempfile.mkdtemp(prefix="battery-")
    try:
        wt = os.path.join(tmp, "repo")
        shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        vf = os.path.join(tmp, "verif")
        shutil.copytree(HERE, vf, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else 1
            p = os.path.join(wt, "robuststats", f)
            s = open(p).read()
            if nth == "all":
                assert old in s, (name, old)
                open(p, "w").write(s.replace(old, new))
                continue
            i = -1
            for _ in range(nth):
                i = s.find(old, i + 1)
                if i < 0:
                    return name, "OLD TEXT NOT FOUND in " + f
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        out = []
        for q in prop.split(","):
            r = subprocess.run(["./run.py", "check", q], cwd=vf,
                               env=dict(os.environ, VSIM_REPO=wt), capture_output=True, text=True)
            kind = ""
            if "VIOLATION" in r.stdout:
                kind = " ".join(l for l in r.stdout.splitlines() if "VIOLATION" not in l)[:160]
            out.append("%s rc=%d %s" % (q, r.returncode, kind or r.stdout[-60:].strip() + r.stderr[-200:]))
        return name, "; ".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2:]
    ms = [m for m in ns["muts"] if not sel or any(s in m[1] or s in m[0] for s in sel)]
    with ThreadPoolExecutor(3) as ex:
        for n, o in ex.map(run, ms):
            print(("MISS  " if "rc=0" in o or "NOT" in o else "ok    ") + n + ": " + o[:260], flush=True)
