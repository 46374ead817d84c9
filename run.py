#!/opt/venv/bin/python
"""Entry point: check, replay, determinism, one, selftest."""
import os
import sys

if os.environ.get("VSIM_CHILD") != "1":
    # a fresh interpreter with everything that must be fixed at start-up fixed
    e = dict(os.environ)
    e.update(VSIM_CHILD="1", PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"),
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1")
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONWARNINGS", "JOBLIB_MULTIPROCESSING"):
        e.pop(k, None)
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(py, [py, "-X", "frozen_modules=off", os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.pop("VSIM_CHILD", None)
from vsim import env                                     # noqa: E402
env.setup()
try:
    env.load()
    from vsim import core                                # noqa: E402
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", choices=("quick", "thorough"), default="quick")
    c.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1") or 1))
    r = sub.add_parser("replay")
    r.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("index", type=int)
    o.add_argument("--tier", default="quick")
    o.add_argument("--seed", type=int, default=1)
    d = sub.add_parser("determinism")
    d.add_argument("properties", nargs="*")
    d.add_argument("--runs", type=int, default=40)
    d.add_argument("--seeds", type=int, default=2)
    lg = sub.add_parser("logs")
    lg.add_argument("property")
    lg.add_argument("--runs", type=int, default=40)
    lg.add_argument("--seed", type=int, default=1)
    a = ap.parse_args(argv)
    if a.cmd == "check":
        return core.check(a.property, a.tier, a.seed)
    if a.cmd == "replay":
        return core.replay(a.file)
    if a.cmd == "one":
        import json
        mod = core.prop_module(a.property)
        plan = core.make_plan(mod, a.property, a.seed, a.index, a.tier)
        out = core.run_plan(mod, plan)
        out["plan"] = plan
        json.dump(out, sys.stdout, indent=1)
        print()
        return 0
    if a.cmd == "logs":
        mod = core.prop_module(a.property)
        res = {}
        for x in core.lanes_run(mod, a.property, a.seed, "quick",
                                list(range(a.runs)), core.LANES,
                                core.real_mono() + 3600, stop_on_fail=False):
            res[x["index"]] = "%s %s %s %s" % (x["status"], x.get("log"),
                                               x.get("nlog"), x.get("lines"))
        for i in sorted(res):
            print(i, res[i])
        return 0
    if a.cmd == "determinism":
        from vsim import determinism
        return determinism.main(a.properties, a.runs, a.seeds)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
