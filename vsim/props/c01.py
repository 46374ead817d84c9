"""C01 batch covariance estimation is independent of the schedule."""
import copy

import numpy as np
import sklearn.covariance as skc

from .. import zoo
from ..core import Violation, InvalidPlan
from . import _batch as B

RUNS = {"quick": 1600, "thorough": 30000}
EXTRA_YIELD = ("vsim/testest",)
RULE = ("one per (backend, worker class, estimator, completion order class, "
        "thread interleaving hash, batch shape) of runs with a fault, a straggler "
        "or a context switch")
REAL, STUB, ASSUMES = B.REAL, B.STUB, B.ASSUMES
SHRINK_LISTS = ("calls",)
SHRINK_INTS = {"n_trials": 1, "n": 12, "iter_max": 1}

SK = ("sk:EmpiricalCovariance", "sk:LedoitWolf", "sk:ShrunkCovariance", "sk:OAS")


def make_est(spec):
    if spec["cls"].startswith("sk:"):
        return getattr(skc, spec["cls"][3:])(**spec["params"])
    return zoo.build(spec)


def draw_spec(rng, ab):
    cls = rng.choice(zoo.FP * 2 + zoo.EMP + ("KroneckerEllipticalMM",)
                     + ("Steps", "ComplexSteps", "Nested") * 4 + SK + ("NatGrad",))
    if cls == "NatGrad":
        return {"cls": "TylerShapeMatrix",
                "params": {"method": "natural gradient",
                           "normalisation": rng.choice(zoo.NORMS)}}
    if cls in ("Steps", "ComplexSteps", "Nested"):
        P = {"weight": rng.choice([1.0, 2.5])}
        if cls == "Steps":
            P["memory"] = rng.random() < .5
        return {"cls": cls, "params": P}
    if cls.startswith("sk:"):
        return {"cls": cls, "params": {"assume_centered": rng.random() < .5}}
    P = zoo.draw_params(rng, cls, ab=ab)
    if "iter_max" in P:
        P["iter_max"] = min(P["iter_max"], 30)
    return {"cls": cls, "params": P}


def redraw(rng, params, cls, ab=(2, 2)):
    """Other values for the same parameters."""
    if cls == "Nested":
        return params           # what it builds from them is not a parameter
    if cls in ("Steps", "ComplexSteps"):
        new = {"weight": rng.choice([1.0, 2.5, 0.5])}
    elif cls.startswith("sk:"):
        new = {"assume_centered": rng.random() < .5}
    else:
        new = zoo.draw_params(rng, cls, ab=ab)
    if "iter_max" in new:
        new["iter_max"] = min(new["iter_max"], 30)
    return dict(params, **{k: v for k, v in new.items() if k in params})


def draw_kw(rng, spec, d):
    cls = spec["cls"]
    kw = {}
    if cls in zoo.FP and (spec["params"].get("method") or rng.random() < .4):
        kw["init"] = rng.randrange(10 ** 6)
    if cls in ("Steps", "ComplexSteps", "Nested") and rng.random() < .5:
        kw["ridge"] = rng.choice([0.5, 3.0])
    return kw


def real_kw(kw, d):
    out = dict(kw)
    if "init" in out:
        out["init"] = zoo.spd(np.random.RandomState(out["init"]), d["p"], d["cplx"])
    return out


def gen(rng, tier):
    ab = rng.choice([(1, 2), (2, 2), (2, 1), (3, 2)])
    spec = draw_spec(rng, ab)
    cls = spec["cls"]
    kron = cls in zoo.KRON
    d = zoo.draw_data(rng, cls, ab=ab if kron else None, dtypes=True,
                      n=rng.randint(14, 30) if rng.random() < .96 or kron
                      else rng.choice([130, 300, 520, 1030]))
    d.setdefault("cplx", zoo.is_complex(cls))
    if not spec["params"].get("method"):
        zoo.widen(rng, d, cls)
    if d["cplx"] and rng.random() < .2:
        d["dtype"] = "float32"
    if spec["params"].get("method"):
        d["p"], d["n"] = 2, 14
        d.pop("dtype", None)
    calls = []
    now, free = spec, not spec["params"].get("method")
    sizes = free and not kron and rng.random() < .3
    swap = rng.random() < .5
    callers = rng.choice([0, 0, 0, 2, 3]) if free else 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        nt = rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 13, 24])
        if cls in ("Steps", "ComplexSteps", "RealEmpiricalCovariance") and rng.random() < .25:
            nt = rng.choice([40, 70, 130] + [1030] * (d["n"] < 50 and rng.random() < .1))
        elif rng.random() < .05:
            nt = rng.choice([33, 50, 65, 100, 129])
        if spec["params"].get("method") or kron:
            nt = min(nt, 3)
        dd = dict(d, seed=rng.randrange(10 ** 6))
        if sizes and rng.random() < .6:
            dd["p"] = rng.choice([1, 2, 3, 4, 5])
        if calls and swap and free and not callers:
            now = {"cls": cls, "params": redraw(rng, now["params"], cls, ab)}
        calls.append({"n_trials": nt, "data": dd, "kw": draw_kw(rng, spec, d),
                      "spec": now, "change": rng.choice(B.CHANGES),
                      "prefit_p": rng.choice([2, 3, 6]) if sizes else None,
                      "job": B.draw_jobs(rng), "how": rng.choice(
                          ["transform", "transform", "fit_transform", "set"]),
                      "prefit": rng.random() < .3,
                      "repeat": B.draw_repeat(rng)})
    return {"spec": spec, "calls": calls, "cluster": B.draw_cluster(rng),
            "tick": rng.choice([1e-6, 1e-4, 0.01]),
            "shared": rng.random() < .7,
            "callers": callers}


def expected(spec, X, kw):
    out = []
    for x in X:
        e = make_est(spec)
        e.fit(np.array(x), **copy.deepcopy(kw))
        out.append(np.array(e.covariance_))
    return out


def execute(plan, ctx):
    from robuststats.estimation.base import CovariancesEstimation
    spec = plan["spec"]
    jobs, want = [], []
    for c in plan["calls"]:
        if c["data"]["n"] < 2:
            raise InvalidPlan("too few samples")
        X = B.repeat_trials(zoo.make_stack(c["data"], c["n_trials"]), c["repeat"])
        kw = real_kw(c["kw"], c["data"])
        jobs.append((X, kw))
        try:
            want.append(expected(c["spec"], X, kw))
        except np.linalg.LinAlgError:
            if spec["params"].get("method"):
                ctx.probe("descent_left_the_cone")
                return              # numerically impossible data for a descent
            raise
    proto = make_est(spec)
    tr = CovariancesEstimation(proto)
    now, kept = spec, []
    if plan["callers"]:
        # several callers of one transformer at the same time
        k = [i % len(jobs) for i in range(max(len(jobs), plan["callers"]))]
        got, trace = B.concurrently(plan, ctx, [
            lambda i=i: tr.transform(jobs[i][0], **jobs[i][1]) for i in k])
        ctx.probe("concurrent_callers")
        ctx.sig(spec["cls"], "callers", trace)
        for i, g in zip(k, got):
            kept.append((g, jobs[i][0], plan["calls"][i], want[i]))
            judge(*kept[-1])
    for k, (c, (X, kw), ref) in enumerate(zip(plan["calls"], jobs, want)):
        if not plan["shared"]:
            proto = make_est(spec)
            tr = CovariancesEstimation(proto)
            now = spec
        if c["spec"] != now:
            proto = B.change(tr, proto, c["change"], c["spec"], make_est)
            now = c["spec"]
            ctx.probe("parameters_changed_between_calls")
        if c["prefit"] and len(X) and not spec["params"].get("method"):
            x = np.array(X[-1])
            if c["prefit_p"]:
                x = zoo.make_data(dict(c["data"], p=c["prefit_p"], layout="C"))
            proto.fit(x)
            B.reset_counts(proto)
        before = B.state(proto)
        tr.set_params(n_jobs=c["job"]["n_jobs"])
        with B.cluster(plan, ctx) as cl, B.config(c["job"]):
            if c["how"] == "fit_transform" and not kw:
                got = tr.fit_transform(X)
            elif c["how"] == "set":
                t2 = CovariancesEstimation(make_est(now), n_jobs=c["job"]["n_jobs"])
                got = t2.fit(X).transform(X, **kw)
            else:
                got = tr.transform(X, **kw)
        kind = "threads" if cl.threads is not None else (
            "processes" if cl.executed else "sequential")
        ctx.probe(kind)
        ctx.sig(spec["cls"], kind, c["job"]["n_jobs"], len(X), cl.completed_order,
                cl.threads.trace if cl.threads else 0)
        if cl.completed_order != sorted(cl.completed_order):
            ctx.probe("out_of_order_completion")
            ctx.fault("reordered_completion")
        judge(got, X, c, ref)
        B.untouched("call %d" % k, proto, before)
        kept.append((got, X, c, ref))
        ctx.event("call", k, kind, len(X), got.shape)
    for k in kept:              # earlier results are still what they were
        judge(*k)


def judge(got, X, c, ref):
    n, p = len(X), c["data"]["p"]
    if not isinstance(got, np.ndarray) or got.shape != (n, p, p):
        raise Violation("malformed:batch", "shape %r" % (getattr(got, "shape", None),))
    dt = X.dtype if np.issubdtype(X.dtype, np.inexact) else np.dtype(float)
    if got.dtype != dt:
        raise Violation("wrong-precision", "input %s, output %s" % (X.dtype, got.dtype))
    for i in range(n):
        B.compare(got[i], ref[i], "covariance", i, B.tol_of(dt))
