"""C03 a fault during a batch is an error, never a wrong or partial result."""
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..mon import CallFault, InterruptAt
from . import _batch as B
from ..testest import FAILURES, MARK
from . import c01, c02

RUNS = {"quick": 2200, "thorough": 24000}
EXTRA_YIELD = ("vsim/testest",)
RULE = ("one per (batch kind, estimator, fault kind, where it struck, backend, "
        "thread interleaving hash) of runs in which a fault fired")
REAL = B.REAL
STUB = B.STUB + ("allocation failures, interrupts, worker creation failures "
                 "(injected exceptions at calls leaving the package)",)
ASSUMES = B.ASSUMES + (
    "An allocation failure surfaces as MemoryError raised by the numpy, scipy or "
    "scikit-learn function called by the package.",)
SHRINK_LISTS = ("bad",)
SHRINK_INTS = {"n_trials": 1, "n": 12}

FAULTS = ("bad_trial", "bad_trial", "bad_trial", "odd_trial", "nan_trial", "crash", "crash", "submit_fail",
          "interrupt_wait", "memory", "memory", "interrupt_c")


def gen(rng, tier):
    batch = rng.choice(["cov", "feat"])
    fault = rng.choice(FAULTS)
    if fault == "odd_trial":
        cls = rng.choice(["ComplexSteps"] + (["CovScale"] if batch == "feat" else []))
        P = {"CovScale": {"power": .5}, "ComplexSteps": {"weight": 2.0}}[cls]
    elif fault == "bad_trial":
        cls = rng.choice(["Steps", "ComplexSteps", "Nested"] + (["CovScale", "Scalar"]
                                                     if batch == "feat" else []))
        P = {"CovScale": {"power": .5}, "Scalar": {"shift": 1.0},
             "Steps": {"weight": 2.0, "memory": rng.random() < .5},
             "ComplexSteps": {"weight": 2.0}, "Nested": {"weight": 2.0}}[cls]
    else:
        cls = rng.choice(zoo.FP + zoo.EMP + (() if fault == "nan_trial" else ("Steps", "ComplexSteps", "Nested")))
        P = {"weight": 2.0} if "Steps" in cls or cls == "Nested" else zoo.draw_params(rng, cls)
        if "iter_max" in P:
            P["iter_max"] = min(P["iter_max"], 6)
    d = zoo.draw_data(rng, cls, n=rng.randint(14, 22))
    if fault == "odd_trial":
        d["p"] = max(3, d["p"])
    nt = rng.choice([1, 2, 3, 5, 8, 12] * 4 + [20, 33, 65])
    job = B.draw_jobs(rng)
    job["outer"] = None
    cl = B.draw_cluster(rng)
    if fault in ("crash", "submit_fail", "interrupt_wait"):
        job["n_jobs"] = rng.choice([2, 3, 4, -1])
        if fault == "crash":
            job["backend"] = rng.choice(["default", "loky", "multiprocessing"])
    plan = {"batch": batch, "spec": {"cls": cls, "params": P}, "data": d,
            "n_trials": nt, "job": job, "cluster": cl, "fault": fault,
            "prefit": rng.random() < .6, "tick": 1e-4,
            "where": rng.random(), "before": rng.random() < .5,
            "exc": rng.choice(["MemoryError", "MemoryError", "LinAlgError", "OSError"]),
            "retries": rng.choice([1, 1, 2]), "bad": [],
            "kw": c01.draw_kw(rng, {"cls": cls, "params": P}, d)
            if batch == "cov" and rng.random() < .4 else {},
            "failure": rng.randrange(len(FAILURES)) if rng.random() < .8 else 0}
    if fault == "odd_trial":
        plan["n_trials"] = nt = max(2, nt)
    if fault in ("bad_trial", "nan_trial", "odd_trial"):
        plan["bad"] = sorted(rng.sample(range(nt), min(nt, rng.choice([1, 1, 2]))))
        if fault == "odd_trial" and len(plan["bad"]) == nt:
            plan["bad"] = plan["bad"][:1]
    if fault == "crash":
        cl["crash"] = {"task": rng.randrange(max(1, nt)),
                       "when": rng.choice(["start", "end"])}
    if fault == "submit_fail":
        cl["submit_fail"] = rng.randint(1, nt)
    if fault == "interrupt_wait":
        cl["interrupt_poll"] = rng.randint(1, 5)
    return plan


def spoil(X, bad, how, failure=0):
    X = np.array(X)
    for i in bad:
        if i >= len(X):
            raise InvalidPlan("bad trial outside the batch")
        if how == "nan_trial":
            X[i, i % X.shape[1], 0] = np.nan if i % 2 else np.inf
        else:
            X[i, 0, 0] = MARK - 1 if how == "odd_trial" else MARK + failure
    return X


def new_batch(plan, est):
    from robuststats.estimation import base
    cls = base.CovariancesEstimation if plan["batch"] == "cov" else base.FeaturesEstimation
    return cls(est, n_jobs=plan["job"]["n_jobs"])


def reference(plan, X):
    if plan["batch"] == "cov":
        return c01.expected(plan["spec"], X, c01.real_kw(plan["kw"], plan["data"]))
    return [c02.feature(plan["spec"], x) for x in X]


def verify(plan, got, ref):
    if plan["batch"] == "feat":
        return c02.check(got, ref, 1e-8)
    if not isinstance(got, np.ndarray) or len(got) != len(ref):
        raise Violation("malformed:batch", "%r" % (np.shape(got),))
    for i, r in enumerate(ref):
        B.compare(got[i], r, "covariance", i, 1e-8)


EXC = {"MemoryError": MemoryError, "LinAlgError": np.linalg.LinAlgError,
       "OSError": OSError}


def execute(plan, ctx):
    d = plan["data"]
    if plan["n_trials"] < 1 or d["n"] < 4:
        raise InvalidPlan("no data")
    good = zoo.make_stack(d, plan["n_trials"])
    kw = c01.real_kw(plan["kw"], d)
    if plan["fault"] == "odd_trial" and (len(plan["bad"]) >= plan["n_trials"] or d["p"] < 3):
        raise InvalidPlan("nothing to differ from")
    X = spoil(good, plan["bad"], plan["fault"], plan["failure"])
    ref = reference(plan, good)
    est = zoo.build(plan["spec"])
    if plan["prefit"]:
        est.fit(np.array(good[-1][:-1]))
    B.reset_counts(est)
    batch = new_batch(plan, est)
    quiet = {k: plan["cluster"][k] for k in
             ("cpus", "readonly", "reseed", "max_batch", "straggler")}
    earlier = None
    if plan["before"]:
        with B.cluster(dict(plan, cluster=quiet), ctx), B.config(plan["job"]):
            earlier = batch.transform(np.array(good), **kw)
        verify(plan, earlier, ref)
    p0, l0 = zoo.params(est), B.state(est)
    b0 = zoo.params(batch)
    snap = X.tobytes()
    fired, out, exc = None, None, None
    cl = None
    flt = None
    if plan["fault"] in ("memory", "interrupt_c"):
        # count the fault points of a clean run, then strike one of them
        mk = (lambda at: CallFault(at, EXC[plan["exc"]])) \
            if plan["fault"] == "memory" else (lambda at: InterruptAt(at))
        dry = mk(None)
        if plan["fault"] == "memory":
            dry.thread = None           # any thread may run out of memory
        plan1 = dict(plan, cluster=quiet)
        with B.cluster(plan1, ctx), B.config(plan["job"]):
            ctx.mon.set_fault(dry)
            try:
                new_batch(plan, zoo.build(plan["spec"])).transform(np.array(good), **kw)
            finally:
                ctx.mon.set_fault(None)
        flt = mk(int(plan["where"] * max(1, dry.n)))
        flt.thread = dry.thread
    try:
        with B.cluster(plan, ctx) as cl, B.config(plan["job"]):
            ctx.mon.set_fault(flt)
            try:
                out = batch.transform(X, **kw)
            finally:
                ctx.mon.set_fault(None)
    except BaseException as e:
        if isinstance(e, (Violation, InvalidPlan)) or type(e).__name__ in (
                "Deadlock", "BudgetExceeded"):
            raise
        exc = e
    kind = "threads" if cl.threads is not None else (
        "processes" if cl.executed or cl.submitted else "sequential")
    fired = {"bad_trial": bool(plan["bad"]), "odd_trial": bool(plan["bad"]), "nan_trial": bool(plan["bad"]),
             "crash": ctx.faults["worker_killed"] > 0,
             "submit_fail": ctx.faults["submit_fails"] > 0,
             "interrupt_wait": ctx.faults["interrupt_while_waiting"] > 0,
             }.get(plan["fault"], flt is not None and flt.fired is not None)
    if fired:
        ctx.fault(plan["fault"] + (
            ":" + plan["exc"] if plan["fault"] == "memory" else ""))
        ctx.sig(plan["batch"], plan["spec"]["cls"], plan["fault"], kind,
                flt.fired if flt else plan["bad"], plan["failure"] if
                plan["fault"] == "bad_trial" else bool(kw), cl.completed_order,
                cl.threads.trace if cl.threads else 0)
    ctx.event("fault", plan["fault"], fired, type(exc).__name__, kind)
    if exc is None:
        if plan["bad"]:
            raise Violation("fault-hidden", "%s in trials %s, yet a result of %s trials "
                            "was returned" % (plan["fault"], plan["bad"], len(out)))
        verify(plan, out, ref)        # nothing lost: must be the full right answer
        ctx.probe("returned_right_result")
    else:
        ctx.probe("raised:" + type(exc).__name__)
        if not fired:
            raise exc
    if X.tobytes() != snap:
        raise Violation("input-modified", plan["fault"])
    if B.state_diff(l0, B.state(est)) or zoo.same(p0, zoo.params(est)):
        raise Violation("prototype-modified", "%s %s" % (
            B.state_diff(l0, B.state(est)), zoo.same(p0, zoo.params(est))))
    if set(b0) != set(zoo.params(batch)) or batch.estimator is not est \
            or batch.n_jobs != plan["job"]["n_jobs"]:
        raise Violation("transformer-modified", "")
    if earlier is not None:
        verify(plan, earlier, ref)
    # the fault is over: the same objects give the full answer
    for r in range(plan["retries"]):
        with B.cluster(dict(plan, cluster=quiet), ctx), B.config(plan["job"]):
            again = batch.transform(good if r else np.array(good), **kw)
        verify(plan, again, ref)
    if earlier is not None:
        verify(plan, earlier, ref)
