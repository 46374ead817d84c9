"""C02 batch feature estimation gives each trial its own feature, in order."""
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from . import _batch as B
from . import c01

RUNS = {"quick": 1400, "thorough": 20000}
EXTRA_YIELD = ("vsim/testest",)
RULE = c01.RULE
REAL, STUB, ASSUMES = B.REAL, B.STUB, B.ASSUMES
SHRINK_LISTS = ("calls",)
SHRINK_INTS = {"n_trials": 1, "n": 12, "iter_max": 1}


def draw_spec(rng):
    cls = rng.choice(zoo.FP + zoo.EMP + ("CovScale",) * 5 + ("Scalar",) * 4
                     + ("Steps",) * 3 + ("ComplexSteps", "Nested") * 2)
    if cls == "CovScale":
        return {"cls": cls, "params": {"power": rng.choice([1.0, 0.5])}}
    if cls == "Scalar":
        return {"cls": cls, "params": {"shift": rng.choice([0.0, 2.0])}}
    if cls == "Steps":
        return {"cls": cls, "params": {"weight": 1.5, "memory": rng.random() < .5}}
    if cls in ("ComplexSteps", "Nested"):
        return {"cls": cls, "params": {"weight": 1.5}}
    P = zoo.draw_params(rng, cls)
    if "iter_max" in P:
        P["iter_max"] = min(P["iter_max"], 20)
    return {"cls": cls, "params": P}


def redraw(rng, params, cls):
    new = {"CovScale": {"power": rng.choice([1.0, 0.5])},
           "Scalar": {"shift": rng.choice([0.0, 2.0, -1.0])}}.get(cls)
    return c01.redraw(rng, params, cls) if new is None else new


def gen(rng, tier):
    spec = draw_spec(rng)
    cls = spec["cls"]
    d = zoo.draw_data(rng, cls, n=rng.randint(14, 26) if rng.random() < .96
                      else rng.choice([130, 520]), dtypes=True)
    zoo.widen(rng, d, cls)
    calls = []
    big = cls in ("CovScale", "Scalar", "Steps") and rng.random() < .05
    callers = 0 if big else rng.choice([0, 0, 0, 2, 3])
    now, swap, sizes = spec, rng.random() < .5, rng.random() < .3
    for _ in range(1 if big else rng.choice([1, 1, 2, 3])):
        nt = rng.choice([1, 1, 2, 3, 4, 5, 8, 12, 20])
        if rng.random() < .04:
            nt = rng.choice([33, 65, 129])
        if big:
            nt = rng.choice([999, 1001, 1030, 2105])
        if calls and swap and not callers:
            now = {"cls": cls, "params": redraw(rng, now["params"], cls)}
        dd = dict(d, seed=rng.randrange(10 ** 6))
        if sizes:
            dd["p"] = rng.choice([1, 2, 3, 4, 5])
        calls.append({"n_trials": nt, "data": dd,
                      "spec": now, "change": rng.choice(B.CHANGES),
                      "job": B.draw_jobs(rng),
                      "ragged": rng.random() < .15 and not big and d["n"] >= 14,
                      "how": rng.choice(["transform", "fit_transform", "set"]),
                      "repeat": B.draw_repeat(rng),
                      "prefit": rng.random() < .3})
    if big:
        d["p"], d["n"] = 2, 14
        calls[0]["data"].update(p=2, n=14)
    cl = B.draw_cluster(rng)
    if big:
        cl["max_batch"] = 60
        for c in calls:
            if c["job"]["backend"] == "threading":
                c["job"]["backend"] = "loky"
    return {"spec": spec, "calls": calls, "cluster": cl,
            "tick": rng.choice([1e-6, 1e-4, 0.01]),
            "callers": callers}


def feature(spec, x):
    """The feature the estimator reports for one trial, as a list of arrays."""
    e = zoo.build(spec)
    f = e.fit_transform(np.array(x))
    if spec["cls"] == "Scalar":
        return [np.array([f])]
    if isinstance(f, np.ndarray):
        return [f]
    return [np.array(y) for y in f]


def vec(parts):
    """Vectorised features of all trials: symmetric matrices by upper triangle."""
    out = []
    for a in parts:
        if a.ndim == 3 and a.shape[1] == a.shape[2]:
            h = np.transpose(a, (0, 2, 1)).conj()
            if (np.abs(a - h) < 1e-5).all() or (np.abs(a + h) < 1e-5).all():
                iu = np.triu_indices(a.shape[1])
                a = a[:, iu[0], iu[1]]
        out.append(a.reshape(len(a), -1))
    return np.concatenate(out, axis=1)


def execute(plan, ctx):
    from robuststats.estimation.base import FeaturesEstimation
    spec = plan["spec"]
    work = []
    for c in plan["calls"]:
        if c["n_trials"] < 1:
            raise InvalidPlan("no trial")
        X = B.repeat_trials(zoo.make_stack(c["data"], c["n_trials"]), c["repeat"])
        if c["ragged"]:
            X = [x[:len(x) - (i % 3)] for i, x in enumerate(X)]
        work.append((X, [feature(c["spec"], x) for x in X]))
    proto = zoo.build(spec)
    tr = FeaturesEstimation(proto)
    now, kept = spec, []
    if plan["callers"]:
        # several callers of one transformer at the same time
        k = [i % len(work) for i in range(max(len(work), plan["callers"]))]
        got, trace = B.concurrently(plan, ctx, [
            lambda i=i: tr.transform(work[i][0]) for i in k])
        ctx.probe("concurrent_callers")
        ctx.sig(spec["cls"], "callers", trace)
        for i, g in zip(k, got):
            kept.append((g, work[i][1], B.tol_of(work[i][0][0].dtype)))
            check(*kept[-1])
    for k, (c, (X, ref)) in enumerate(zip(plan["calls"], work)):
        if c["spec"] != now:
            proto = B.change(tr, proto, c["change"], c["spec"], zoo.build)
            now = c["spec"]
            ctx.probe("parameters_changed_between_calls")
        if c["prefit"]:
            proto.fit(np.array(X[-1]))
            B.reset_counts(proto)
        before = B.state(proto)
        tr.set_params(n_jobs=c["job"]["n_jobs"])
        with B.cluster(plan, ctx) as cl, B.config(c["job"]):
            if c["how"] == "fit_transform":
                got = tr.fit_transform(X)
            elif c["how"] == "set":
                got = FeaturesEstimation(zoo.build(now),
                                         n_jobs=c["job"]["n_jobs"]).fit(X).transform(X)
            else:
                got = tr.transform(X)
        kind = "threads" if cl.threads is not None else (
            "processes" if cl.executed else "sequential")
        ctx.probe(kind)
        if len(X) > 1000:
            ctx.probe("over_1000_trials")
        ctx.sig(spec["cls"], kind, c["job"]["n_jobs"], len(X), cl.completed_order,
                cl.threads.trace if cl.threads else 0)
        if cl.completed_order != sorted(cl.completed_order):
            ctx.fault("reordered_completion")
        check(got, ref, B.tol_of(X[0].dtype))
        B.untouched("call %d" % k, proto, before)
        kept.append((got, ref, B.tol_of(X[0].dtype)))
        ctx.event("call", k, kind, len(X))
    for got, ref, tol in kept:        # earlier results are still what they were
        check(got, ref, tol)


def check(got, ref, tol):
    n, m = len(ref), len(ref[0])
    if len(got) != n:
        raise Violation("wrong-count", "%d features for %d trials" % (len(got), n))
    with Violation_on_error("features"):
        ex = got.export()
        ex = [ex] if m == 1 else list(ex)
        parts = [np.stack([r[j] for r in ref]) for j in range(m)]
        if len(ex) != m:
            raise Violation("malformed:features", "%d components" % len(ex))
        for j in range(m):
            a = ex[j] if n > 1 else ex[j][np.newaxis]
            if np.shape(a) != parts[j].shape:
                raise Violation("malformed:features", "%r for %r" % (
                    np.shape(a), parts[j].shape))
            for i in range(n):
                B.compare(a[i], parts[j][i], "feature", i, tol)
        for i in {0, n // 2, n - 1}:
            one = got[int(i)].export()
            one = [one] if m == 1 else list(one)
            for j in range(m):
                B.compare(one[j], parts[j][i], "feature-item", i, tol)
        v = got.vectorize()
        # the symmetric shortcut may differ when a matrix is on its threshold
        if not zoo.close(v, vec(parts), max(tol, 1e-5)):
            raise Violation("wrong-result:vectorize", "shape %s" % (v.shape,))


def Violation_on_error(what):
    from ..core import _Oracle
    return _Oracle(what)
