"""Runs, seeds, outcomes, minimisation, replay files and evidence."""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import env

real_time = time.time
real_mono = time.monotonic
VERIF = env.VERIF
LANES = int(os.environ.get("VSIM_LANES", "8"))
RUN_TIMEOUT = float(os.environ.get("VSIM_RUN_TIMEOUT", "120"))
DEFAULT_BUDGET = 3_000_000


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail = kind, str(detail)


class InvalidPlan(Exception):
    """A (shrunk) plan that does not describe a run."""


class _Oracle:
    """Inside this block an exception raised by looking at what the code under
    test returned means that it returned something malformed."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None or issubclass(t, (Violation, InvalidPlan)):
            return False
        if issubclass(t, (MemoryError, OSError)) or not issubclass(t, Exception):
            return False
        raise Violation("malformed:" + self.what,
                        "%s: %s" % (t.__name__, e)) from e


class Ctx:
    def __init__(self, plan, mon):
        self.plan = plan
        self.mon = mon
        self.faults = Counter()
        self.probes = Counter()
        self.sigs = set()
        self.log = hashlib.sha256()
        self.nlog = 0
        self.trace = [] if os.environ.get("VSIM_TRACE") else None
        self.choices = []
        self._replay = list(plan["choices"]) if plan.get("choices") is not None else None
        self._rng = random.Random(plan.get("sched_seed", 0))
        self.sim_time = 0.0
        self.switches = 0
        self.nontrivial = False

    # -- decisions ---------------------------------------------------------
    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self._replay is not None:
            c = self._replay.pop(0) % n if self._replay else 0
        else:
            c = self._rng.randrange(n)
        self.choices.append(c)
        return c

    # -- observations ------------------------------------------------------
    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name):
        self.probes[name] += 1

    def sig(self, *parts):
        self.sigs.add("|".join(map(str, parts)))

    def event(self, *parts):
        s = " ".join(map(str, parts))
        self.log.update(s.encode() + b"\n")
        self.nlog += 1
        if self.trace is not None:
            self.trace.append(s)

    def oracle(self, what):
        return _Oracle(what)


def seed_of(prop, base, i):
    h = hashlib.sha256(("%s/%s/%s" % (prop, base, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def prop_module(pid):
    return importlib.import_module("vsim.props." + pid.lower())


def make_plan(mod, pid, base, i, tier):
    s = seed_of(pid, base, i)
    rng = random.Random(s)
    plan = mod.gen(rng, tier)
    plan.setdefault("sched_seed", rng.randrange(2 ** 40))
    plan["seed"] = s
    plan["index"] = i
    return json.loads(json.dumps(plan))


def _sut_in_tb(tb, root):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _chain_has_sut(e, root, depth=0):
    if e is None or depth > 5:
        return False
    return _sut_in_tb(e.__traceback__, root) or \
        _chain_has_sut(e.__cause__, root, depth + 1) or \
        _chain_has_sut(e.__context__, root, depth + 1)


# What a harness that holds on the unchanged tree meets only when the code under
# test gives it something malformed: a missing attribute, None instead of a matrix...
MALFORMED = (AttributeError, TypeError, ValueError, LookupError, ArithmeticError,
             AssertionError, pickle.PicklingError)
FOREIGN = os.sep + "sklearn" + os.sep, os.sep + "pymanopt" + os.sep


def blames_sut(e, root):
    """Whether this exception is the doing of the code under test."""
    if _chain_has_sut(e, root) or isinstance(e, MALFORMED):
        return True
    tb = e.__traceback__
    while tb is not None:
        if any(f in tb.tb_frame.f_code.co_filename for f in FOREIGN):
            return True
        tb = tb.tb_next
    return False


def execute(mod, plan):
    """One simulated run in this process. Returns a JSON-able outcome."""
    import numpy as np
    from .mon import Monitor, BudgetExceeded
    mon = Monitor(env.REPO, getattr(mod, "EXTRA_YIELD", ()))
    ctx = Ctx(plan, mon)
    out = {"seed": plan.get("seed"), "index": plan.get("index")}
    np.random.seed(plan.get("np_seed", 12345) % 2 ** 32)
    mon.budget = getattr(mod, "BUDGET", DEFAULT_BUDGET)
    try:
        mon.start()
        mod.execute(plan, ctx)
        out["status"] = "ok"
    except Violation as v:
        out.update(status="violation", kind=v.kind, detail=v.detail[:2000])
    except InvalidPlan as e:
        out.update(status="invalid", detail=str(e))
    except BudgetExceeded as e:
        out.update(status="violation", kind="no-progress",
                   detail="more than %d lines executed by the code under test"
                   % getattr(mod, "BUDGET", DEFAULT_BUDGET))
    except BaseException as e:
        if blames_sut(e, mon.root) or type(e).__name__ == "Deadlock":
            out.update(status="violation", kind="unexpected:" + type(e).__name__,
                       detail=traceback.format_exc()[-1800:])
        else:
            out.update(status="error", detail=traceback.format_exc()[-3000:])
    finally:
        mon.stop()
    out["faults"] = dict(ctx.faults)
    out["probes"] = dict(ctx.probes)
    out["sigs"] = sorted(ctx.sigs)[:40]
    out["nontrivial"] = bool(ctx.nontrivial)
    out["log"] = ctx.log.hexdigest()[:24]
    out["nlog"] = ctx.nlog
    out["lines"] = mon.lines
    out["choices"] = ctx.choices
    out["sim_time"] = ctx.sim_time
    out["switches"] = ctx.switches
    if ctx.trace is not None:
        out["trace"] = ctx.trace
    return out


# ---------------------------------------------------------------------------
# forked execution
# ---------------------------------------------------------------------------
def _child(fn, w):
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VSIM_STDERR"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        data = json.dumps(fn()).encode()
        os.write(w, struct.pack(">Q", len(data)))
        v = memoryview(data)
        while v:
            n = os.write(w, v[:65536])
            v = v[n:]
    except BaseException:
        try:
            data = json.dumps({"status": "error",
                               "detail": traceback.format_exc()[-3000:]}).encode()
            os.write(w, struct.pack(">Q", len(data)) + data)
        except BaseException:
            code = 3
    finally:
        os._exit(code)


def forked(fn, timeout=RUN_TIMEOUT):
    """Run fn() in a forked child; its JSON result, or an error outcome."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, w)
    os.close(w)
    buf = b""
    end = real_mono() + timeout
    dead = None
    try:
        while True:
            left = end - real_mono()
            if left <= 0:
                dead = "wall timeout of %gs" % timeout
                break
            ok, _, _ = select.select([r], [], [], left)
            if not ok:
                continue
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    finally:
        os.close(r)
        if dead:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) == 8 + struct.unpack(">Q", buf[:8])[0]:
        return json.loads(buf[8:])
    return {"status": "error", "detail": dead or "the run's process died"}


def run_plan(mod, plan, timeout=RUN_TIMEOUT):
    return forked(lambda: execute(mod, plan), timeout)


def lanes_run(mod, pid, base, tier, indices, lanes, deadline, stop_on_fail=True):
    """Distribute indices over lane processes; yields outcomes."""
    import gc
    gc.collect()
    gc.freeze()
    procs = []
    stop_r, stop_w = os.pipe()
    for k in range(lanes):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            os.close(stop_w)
            try:
                for i in indices[k::lanes]:
                    if real_mono() > deadline:
                        break
                    if select.select([stop_r], [], [], 0)[0]:
                        break

                    def job(i=i):
                        plan = make_plan(mod, pid, base, i, tier)
                        o = execute(mod, plan)
                        if o["status"] != "ok":
                            o["plan"] = plan
                        else:
                            o.pop("choices", None)
                            if i < 3:
                                o["plan"] = plan
                        return o
                    o = forked(job)
                    o.setdefault("index", i)
                    data = json.dumps(o).encode()
                    v = memoryview(struct.pack(">Q", len(data)) + data)
                    while v:
                        n = os.write(w, v[:65536])
                        v = v[n:]
            finally:
                os._exit(0)
        os.close(w)
        procs.append([p, r, b""])
    os.close(stop_r)
    try:
        open_ = {x[1]: x for x in procs}
        while open_:
            ok, _, _ = select.select(list(open_), [], [], 1.0)
            for fd in ok:
                x = open_[fd]
                d = os.read(fd, 1 << 16)
                if not d:
                    del open_[fd]
                    continue
                x[2] += d
                while len(x[2]) >= 8:
                    n = struct.unpack(">Q", x[2][:8])[0]
                    if len(x[2]) < 8 + n:
                        break
                    o = json.loads(x[2][8:8 + n])
                    x[2] = x[2][8 + n:]
                    if o["status"] != "ok" and stop_on_fail and stop_w is not None:
                        os.close(stop_w)        # lanes see EOF and stop
                        stop_w = None
                    yield o
    finally:
        if stop_w is not None:
            os.close(stop_w)
        for p, r, _ in procs:
            try:
                os.close(r)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------
def _get(plan, path):
    o = plan
    for k in path:
        if isinstance(o, dict) and k not in o:
            return None
        if isinstance(o, list) and (not isinstance(k, int) or k >= len(o)):
            return None
        o = o[k]
    return o


def _set(plan, path, v):
    o = plan
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = v


def _paths(o, pre=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _paths(o[k], pre + (k,))
    elif isinstance(o, list):
        yield pre, o
        for i, x in enumerate(o):
            if isinstance(x, (dict, list)):
                yield from _paths(x, pre + (i,))


def _leaves(o, pre=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _leaves(o[k], pre + (k,))
    elif isinstance(o, list):
        for i, x in enumerate(o):
            yield from _leaves(x, pre + (i,))
    else:
        yield pre, o


SHRINK_SMALL = {"n": 8, "n_trials": 1, "n_jobs": 1, "iter_max": 1, "p": 2}


def minimise(mod, out, seconds=40.0, max_runs=400):
    """Greedy reduction of ops/faults/threads lists, sizes and the schedule."""
    kind = out["kind"]
    best = json.loads(json.dumps(out["plan"]))
    best["choices"] = out["choices"]
    end = real_mono() + seconds
    runs = [0]
    last = [out]

    def fails(p):
        if runs[0] >= max_runs or real_mono() > end:
            return False
        runs[0] += 1
        o = run_plan(mod, p, 60)
        if o["status"] == "violation" and o["kind"] == kind:
            last[0] = o
            return True
        return False

    if not fails(best):
        best["choices"] = None
        return out["plan"], out, runs[0]
    lists = tuple(getattr(mod, "SHRINK_LISTS", ("ops", "faults", "threads", "jumps")))
    progress = True
    while progress and real_mono() < end and runs[0] < max_runs:
        progress = False
        # drop list elements
        for path, lst in list(_paths(best)):
            if not path or path[-1] not in lists:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while True:
                    cur = _get(best, path)
                    if cur is None or i >= len(cur):
                        break
                    p = json.loads(json.dumps(best))
                    c = _get(p, path)
                    del c[i:i + size]
                    if fails(p):
                        best = p
                        progress = True
                    else:
                        i += size
                size //= 2
        # truncate the schedule
        ch = best.get("choices") or []
        k = len(ch)
        while k > 0 and ch:
            k = k // 2
            p = dict(best, choices=ch[:len(ch) - max(1, k)])
            if fails(p):
                best = json.loads(json.dumps(p))
                ch = best["choices"]
                k = len(ch)
                progress = True
        # smaller numbers
        small = getattr(mod, "SHRINK_INTS", SHRINK_SMALL)
        for path, v in list(_leaves(best)):
            if not path or path[-1] not in small or not isinstance(v, int) \
                    or isinstance(v, bool):
                continue
            lo = small[path[-1]]
            while isinstance(v, int) and v > lo:
                nv = max(lo, v // 2)
                p = json.loads(json.dumps(best))
                try:
                    _set(p, path, nv)
                except (KeyError, IndexError):
                    break
                if not fails(p):
                    break
                best, v, progress = p, nv, True
    return best, last[0], runs[0]


# ---------------------------------------------------------------------------
# commands
# ---------------------------------------------------------------------------
def write_json(path, o):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.%d.tmp" % (path, os.getpid())
    with open(tmp, "w") as f:
        json.dump(o, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def check(pid, tier, base):
    t0 = real_mono()
    mod = prop_module(pid)
    n = mod.RUNS[tier]
    scale = float(os.environ.get("VSIM_SCALE", "1"))
    n = max(8, int(n * scale))
    if hasattr(mod, "prepare"):
        mod.prepare()
    # the suite is a fixed number of seeds; the wall limit only protects
    # against a machine so slow that the caller would kill the check
    wall = {"quick": 300.0, "thorough": 7200.0}[tier]
    outs, bad, errs = [], [], []
    for o in lanes_run(mod, pid, base, tier, list(range(n)), LANES,
                       t0 + wall):
        outs.append(o)
        if o["status"] == "violation":
            bad.append(o)
        elif o["status"] in ("error", "invalid"):
            errs.append(o)
    if not outs:
        sys.stderr.write("no run completed\n")
        return 2
    rc = 0
    known = [k for k in known_findings() if k["property"] == pid]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    bad.sort(key=lambda o: o["index"])
    bad = [o for o in bad if not any(k["kind"] == o["kind"] for k in known)]
    mini = None
    if bad:
        o = bad[0]
        plan, last, runs = minimise(mod, o)
        rep = {"property": pid, "seed": o["seed"], "base_seed": base,
               "index": o["index"], "kind": o["kind"],
               "detail": last.get("detail", o["detail"]),
               "plan": plan, "original_plan": o["plan"],
               "original_choices": o["choices"],
               "minimise_runs": runs, "log": last.get("log"), "tier": tier}
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, o["seed"]))
        write_json(path, rep)
        ok = replay_fresh(path, pid)
        if not ok:
            rep["plan"] = dict(o["plan"], choices=o["choices"])
            write_json(path, rep)
            ok = replay_fresh(path, pid)
        rep["replayed_in_fresh_process"] = ok
        write_json(path, rep)
        mini = rep
        print("%s: %s" % (rep["kind"], rep["detail"]))
        print("seed=%d index=%d minimised with %d runs; fresh replay %s" % (
            o["seed"], o["index"], runs, "identical" if ok else "NOT reproduced"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errs:
        sys.stderr.write("HARNESS ERROR in run %s (%d of %d):\n%s\n" % (
            errs[0].get("index"), len(errs), len(outs), errs[0].get("detail")))
        rc = 2
    evidence(mod, pid, tier, base, outs, bad, errs, real_mono() - t0, mini, n)
    if rc == 0:
        print("%s %s: %d runs, %d distinct non-trivial, %.1fs, held" % (
            pid, tier, len(outs), len({s for o in outs if o.get("nontrivial")
                                       for s in o.get("sigs", [])}),
            real_mono() - t0))
    return rc


def replay_fresh(path, pid):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"),
                        "replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=300)
    return p.returncode == 1 and ("VIOLATION property=" + pid).encode() in p.stdout


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = prop_module(rep["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    o = run_plan(mod, rep["plan"])
    if o["status"] == "violation" and o["kind"] == rep["kind"]:
        print("%s: %s" % (o["kind"], o["detail"]))
        same = rep.get("log") in (None, o["log"])
        print("event log %s%s" % (o["log"], "" if same else " (differs from the recorded one)"))
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced: %s %s" % (o["status"], o.get("kind") or o.get("detail", "")))
    return 0 if o["status"] == "ok" else 2


def evidence(mod, pid, tier, base, outs, bad, errs, wall, mini, planned):
    faults, probes, sigs = Counter(), Counter(), set()
    inter = set()
    for o in outs:
        faults.update(o.get("faults", {}))
        probes.update(o.get("probes", {}))
        if o.get("nontrivial"):
            sigs.update(o.get("sigs", []))
        inter.add(o.get("log"))
    samples = []
    for o in outs:
        if "plan" in o and len(samples) < 3:
            s = json.dumps(o["plan"], sort_keys=True)
            if len(s) < 6000:
                samples.append(json.loads(s))
    cov = {
        "evaluations": len(outs),
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples or ["(plans too large to quote)"],
        "runs_planned": planned,
        "runs_per_hour": round(3600.0 * len(outs) / max(wall, 1e-9)),
        "simulated_seconds": round(sum(o.get("sim_time") or 0 for o in outs), 3),
        "faults_fired": dict(faults),
        "probes_hit": dict(probes),
        "distinct_event_logs": len(inter),
        "context_switches": sum(o.get("switches") or 0 for o in outs),
        "lines_of_code_under_test_executed": sum(o.get("lines") or 0 for o in outs),
        "runs_with_a_fault_or_switch": sum(1 for o in outs if o.get("nontrivial")),
        "first_index": min((o["index"] for o in outs), default=None),
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
    }
    if mini:
        cov["violation_kind"] = mini["kind"]
    ev = {"property": pid, "tier": tier, "seed": base, "level": "exploration",
          "coverage": cov, "assumptions": list(mod.ASSUMES),
          "violations": len(bad), "harness_errors": len(errs),
          "wall_s": round(wall, 3)}
    write_json(os.path.join(VERIF, "evidence", pid + ".json"), ev)
