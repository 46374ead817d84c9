"""The same seeds must give the same executions: event logs, line counts and
outcomes are compared between fresh interpreters with other hash seeds and
numbers of lanes."""
import glob
import os
import subprocess
import sys

from . import env

RUN = os.path.join(env.VERIF, "run.py")


def logs(pid, runs, seed, lanes, hashseed):
    e = dict(os.environ, VSIM_LANES=str(lanes), VSIM_HASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, RUN, "logs", pid, "--runs", str(runs),
                        "--seed", str(seed)], env=e, stdout=subprocess.PIPE, text=True,
                       check=True)
    return p.stdout.splitlines()


def main(properties, runs, seeds):
    ids = properties or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(
        os.path.join(env.VERIF, "vsim", "props", "c[0-9]*.py")))
    bad = 0
    for pid in ids:
        for seed in range(1, seeds + 1):
            a = logs(pid, runs, seed, 8, 0)
            b = logs(pid, runs, seed, 3, 4242)
            d = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
            if d or len(a) != len(b):
                bad += 1
                print("%s seed %d: %d of %d executions differ, first %s | %s" % (
                    pid, seed, len(d), len(a), a[d[0]], b[d[0]]))
            else:
                print("%s seed %d: %d executions identical" % (pid, seed, len(a)))
            sys.stdout.flush()
    return 1 if bad else 0
