"""C21 one object can be read by many threads at once."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..sched import Sched
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E
from . import _online as O

RUNS = {"quick": 4000, "thorough": 60000}
EXTRA_YIELD = ("vsim/testest",)
RULE = ("one per (shared objects, reads of the threads, thread interleaving hash, faults) "
        "of runs with at least one context switch inside the package")
REAL = E.REAL + ("CPython threads (one runs at a time)",)
STUB = ("thread scheduler", "clocks (virtual)",
        "memory failures and interrupts (injected exceptions at calls)")
ASSUMES = ("Threads are pre-empted between lines of the package, not inside numpy, "
           "scipy, scikit-learn or pymanopt.",
           "Nobody changes the shared objects while they are read.")
SHRINK_LISTS = ("objects", "threads", "ops")
SHRINK_INTS = {"n": 12}

READS = {
    "est": E.QUERIES + ("attrs", "params", "copy", "copyfit", "clonefit", "pickle",
                        "model", "learned"),
    "online": ("precision", "transform", "error", "attrs", "copy", "params", "pickle"),
    "frozen": ("logpdf", "logpdf", "pdf", "entropy", "copy", "pickle", "mean", "mean", "rvs",
               "rvs"),
    "features": ("len", "item", "slice", "mask", "export", "vectorize", "dtype", "shape",
                 "into", "copy", "pickle", "iter", "str"),
    "hpd": ("exp", "log", "dist", "inner", "retr", "transp", "egrad", "dim", "proj", "norm"),
    "shpd": ("exp", "log", "dist", "inner", "retr", "transp", "egrad", "dim", "proj", "norm"),
    "spv": ("exp", "log", "dist", "inner", "retr", "transp", "egrad", "dim", "proj", "norm"),
    "kron": ("inner", "retr", "egrad", "dim", "proj", "norm", "transp", "exp", "log", "dist",
             "dist", "dist", "dist"),
    "product": ("inner", "retr", "egrad", "dim", "proj", "norm", "transp", "exp", "log",
                "dist", "dist"),
    "covs": ("transform", "params", "clone"),
    "feats": ("transform", "params", "clone"),
}


def gen(rng, tier):
    p = rng.choice([2, 3])
    objects = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.choice(["est"] * 8 + ["online"] * 3 + ["frozen"] * 3 + ["features"] * 4
                       + ["hpd", "shpd", "spv", "kron", "kron", "kron", "product", "product",
                          "covs", "feats"])
        o = {"kind": k, "seed": rng.randrange(10 ** 6)}
        if k == "est":
            spec = E.draw_spec(rng, slow=rng.random() < .25)
            if "iter_max" in spec["params"]:
                spec["params"]["iter_max"] = min(spec["params"]["iter_max"], 10 if rng.random() < .85 else 60)
            o.update(spec=spec, fit=E.draw_fit(rng, spec, p=p, odd=0),
                     used=rng.random() < .5)
        elif k == "online":
            o.update(pair=rng.random() < .5, n=rng.randint(1, 6))
        elif k == "frozen":
            o.update(dist=rng.choice(["normal", "t"]), cplx=rng.random() < .6,
                     mean=rng.choice(["zero", "some", "some", "real", "none"]))
        elif k == "features":
            o.update(sizes=[rng.choice([1, 2, 5, 40]) for _ in range(rng.choice([1, 2, 3]))],
                     sym=rng.random() < .5)
        elif k in ("covs", "feats"):
            cls = rng.choice(["TylerShapeMatrix", "ComplexTylerShapeMatrix",
                              "HuberMEstimator", "RealEmpiricalCovariance",
                              "ComplexSteps", "Steps"])
            P = {"iter_max": 4} if "Tyler" in cls or "Huber" in cls else {}
            if "Huber" in cls:
                P["q"] = .9
            o.update(spec={"cls": cls, "params": P}, trials=rng.randint(1, 4))
        objects.append(o)
    threads = []
    for t in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            i = rng.randrange(len(objects))
            ops.append({"o": i, "q": rng.choice(READS[objects[i]["kind"]]),
                        "seed": rng.randrange(10 ** 6), "n": rng.choice([5, 8, 20])})
        threads.append({"ops": ops})
    if rng.random() < .5:
        # all of them ask the same at the same time
        for t in threads[1:]:
            for a, b in zip(t["ops"], threads[0]["ops"]):
                a.update(o=b["o"], q=b["q"])
        first = threads[0]["ops"][0]
        if objects[first["o"]]["kind"] not in ("est", "covs", "feats"):
            # ... and again and again
            for t in threads:
                t["ops"] = [dict(first, seed=rng.randrange(10 ** 6))
                            for _ in range(rng.choice([1, 4, 8, 8]))]
    fault = None
    if rng.random() < .25:
        fault = {"kind": rng.choice(["memory", "interrupt"]), "at": rng.choice(
            [rng.randrange(4), rng.randrange(10), rng.randrange(60), rng.randrange(300)])}
    return {"p": p, "objects": objects, "threads": threads, "fault": fault,
            "again": rng.random() < .5}


# ---------------------------------------------------------------------------
def make(o, p):
    k = o["kind"]
    rs = np.random.RandomState(o["seed"])
    if k == "est":
        e = zoo.build(o["spec"])
        E.run_fit(e, o["spec"], o["fit"])
        if o["used"]:
            E.query(e, o["spec"], "precision", zoo.make_data(o["fit"]["data"]))
            E.run_fit(e, o["spec"], o["fit"])
        return e
    if k == "online":
        from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
        c = zoo.spd(rs, p, True)
        X = rs.randn(o["n"], p) + 1j * rs.randn(o["n"], p)
        e = S(O.Flat(), O.rgrad_pair, .1, O.total) if o["pair"] else S(O.HPD(), O.rgrad_gauss, .1)
        return e.fit(X, init=[c, c.conj() + .1 * np.eye(p)] if o["pair"] else c)
    if k == "frozen":
        from robuststats.models import probability as P
        C = zoo.spd(rs, p, o["cplx"])
        m = {"zero": np.zeros(p, dtype=C.dtype), "real": 1. + np.arange(p), "none": None,
             "some": rs.randn(p) + (1j * rs.randn(p) if o["cplx"] else 0)}[o["mean"]]
        if o["dist"] == "t":
            return P.complex_multivariate_t(m, C, 4.0)
        return P.complex_multivariate_normal(m, C)
    if k == "features":
        from robuststats.estimation.base import _FeatureArray
        f = _FeatureArray((2, 2), (3,))
        for m in o["sizes"]:
            a = rs.randn(m, 2, 2)
            if o["sym"]:
                a = a + np.transpose(a, (0, 2, 1))
            f.append([a, rs.randn(m, 3)])
        return f
    if k in ("covs", "feats"):
        from robuststats.estimation.base import CovariancesEstimation, FeaturesEstimation
        return (CovariancesEstimation if k == "covs" else FeaturesEstimation)(
            zoo.build(o["spec"]))
    from robuststats.models import manifolds as M
    return {"hpd": lambda: M.HermitianPositiveDefinite(p),
            "shpd": lambda: M.SpecialHermitianPositiveDefinite(p),
            "spv": lambda: M.StrictlyPositiveVectors(p),
            "product": lambda: M.WeightedProduct((M.SpecialHermitianPositiveDefinite(p),
                                                  M.HermitianPositiveDefinite(2)), (1.5, .7)),
            "kron": lambda: M.KroneckerHermitianPositiveElliptical(p, 2, .8)}[k]()


def state(o, obj):
    """Everything the object holds that someone can see."""
    k = o["kind"]
    if k in ("est", "online"):
        d = zoo.learned(obj)
        d.update({"param:" + n: repr(v) for n, v in sorted(zoo.params(obj).items())}
                 if k == "est" else {})
        return d
    if k == "features":
        return {"v": np.array(obj.vectorize()), "n": len(obj),
                **{"e%d" % i: np.array(a) for i, a in enumerate(obj.export())}}
    if k in ("covs", "feats"):
        d = zoo.learned(obj.estimator)
        d.update({"param:" + n: repr(v) for n, v in sorted(zoo.params(obj.estimator).items())})
        return d
    if k == "frozen":
        X = np.ones((2, obj_dim(obj)))
        return {"m": held(obj), "l": np.array(obj.logpdf(X + 0j if o["cplx"] else X))}
    return {"d": int(obj.dim)}


def held(f):
    """The location a frozen distribution shows."""
    m = getattr(f, "mean", None)
    m = getattr(f, "loc", None) if m is None or callable(m) else m
    return np.zeros(0) if m is None else np.array(m)


def obj_dim(f):
    for n in ("_cov_orig", "_shape_orig"):
        if hasattr(f, n):
            return len(getattr(f, n))
    return f.dim


def read(o, obj, q, p):
    """The answer to one read, as {name: value}."""
    k, what = o["kind"], q["q"]
    rs = np.random.RandomState(q["seed"])
    if k == "est":
        spec, d = o["spec"], o["fit"]["data"]
        X = zoo.make_data(dict(d, seed=q["seed"], n=max(q["n"], 4 * d["p"])))
        if what in E.QUERIES:
            r = E.query(obj, spec, what, X)
            return {"r": 0 if r is None else r}
        if what == "attrs":
            return zoo.learned(obj)
        if what == "learned":
            c = np.array(obj.covariance_)
            return {"c": c, "p": np.array(obj.get_precision()), "c2": np.array(obj.covariance_)}
        if what == "params":
            return {n: repr(v) for n, v in sorted(zoo.params(obj).items())}
        if what == "model":
            if spec["cls"] == "KroneckerStudent":
                return {"a": obj.alpha, "d": int(obj.manifold.dim)}
            return {"c": np.array(obj.transform(X))}
        if what == "pickle":
            return zoo.learned(pickle.loads(pickle.dumps(obj)))
        if what == "copy":
            return zoo.learned(copy.deepcopy(obj))
        from sklearn.base import clone
        e = copy.deepcopy(obj) if what == "copyfit" else clone(obj)
        f = {"data": dict(d, seed=q["seed"]), "init": q["seed"] if o["fit"]["init"] else None}
        E.run_fit(e, spec, f)
        return zoo.learned(e)
    if k == "online":
        if what == "precision":
            return {"r": np.array(obj.get_precision())}
        if what == "transform":
            return {"r": np.array(obj.transform(None))}
        if what == "error":
            return {"r": obj.error_norm(np.eye(p))}
        if what == "attrs":
            return plain(obj)
        if what == "params":
            return {"r": obj.get_params(deep=False)["lrate"]}
        e = copy.deepcopy(obj) if what == "copy" else pickle.loads(pickle.dumps(obj))
        e.update(rs.randn(1, p) + 1j * rs.randn(1, p), "inverse iteration")
        return plain(e)
    if k == "frozen":
        X = rs.randn(q["n"], p)
        X = X + 1j * rs.randn(q["n"], p) if o["cplx"] else X
        f = obj
        if what == "copy":
            f = copy.deepcopy(obj)
        elif what == "pickle":
            f = pickle.loads(pickle.dumps(obj))
        elif what == "entropy" and o["dist"] == "normal":
            return {"r": obj.entropy()}
        elif what == "mean":
            return {"m": held(obj), "r": np.array(obj.logpdf(X))}
        elif what == "rvs":
            return {"r": np.array(obj.rvs(q["n"], random_state=q["seed"]))}
        if what == "pdf" and not o["cplx"]:
            return {"r": np.array(f.pdf(X))}
        return {"r": np.array(f.logpdf(X))}
    if k == "features":
        i = q["seed"] % len(obj)
        if what == "len":
            return {"r": len(obj)}
        if what in ("dtype", "shape"):
            return {"r": repr(getattr(obj, what))}
        if what == "vectorize":
            return {"r": np.array(obj.vectorize())}
        if what == "str":
            return {"r": str(len(str(obj)) > 0)}
        if what == "into":
            from robuststats.estimation.base import _FeatureArray
            f = _FeatureArray((2, 2), (3,))
            for _ in range(2):
                f.append([np.array(a) for a in obj[0:len(obj)].export()])
        else:
            f = {"item": lambda: obj[i], "slice": lambda: obj[i:],
                 "mask": lambda: obj[np.arange(len(obj)) % 2 == 0],
                 "iter": lambda: obj[[0, i, 0]],
                 "export": lambda: obj, "copy": lambda: copy.deepcopy(obj),
                 "pickle": lambda: pickle.loads(pickle.dumps(obj))}[what]()
        return {"n": len(f), **{"e%d" % j: np.array(a) for j, a in enumerate(f.export())}}
    if k in ("covs", "feats"):
        if what == "params":
            return {"r": obj.get_params(deep=False)["n_jobs"]}
        if what == "clone":
            from sklearn.base import clone
            return {n: repr(v) for n, v in sorted(zoo.params(clone(obj).estimator).items())}
        cplx = zoo.is_complex(o["spec"]["cls"])
        X = rs.randn(o["trials"], 16, p) + (1j * rs.randn(o["trials"], 16, p) if cplx else 0)
        r = obj.transform(X)
        return {"r": np.array(r if k == "covs" else r.vectorize())}
    return geometry(k, obj, what, p, rs)


def plain(e):
    est = e.estimate_
    d = {"c": np.array(e.covariance_), "p": np.array(e.get_precision())}
    for i, x in enumerate(est if isinstance(est, (list, tuple)) else [est]):
        d["e%d" % i] = np.array(x)
    return d


def geometry(k, m, what, p, rs):
    if k == "spv":
        x, y = np.exp(rs.randn(p, 1)), np.exp(rs.randn(p, 1))
        u, v = rs.randn(p, 1) * x, rs.randn(p, 1) * x
        g = rs.randn(p, 1)
    else:
        x, y = zoo.spd(rs, p, True), zoo.spd(rs, p, True)
        if k == "shpd":
            x, y = (a / np.real(np.linalg.det(a)) ** (1 / p) for a in (x, y))
        h = [rs.randn(p, p) + 1j * rs.randn(p, p) for _ in range(3)]
        u, v = (x @ (a + a.conj().T) @ x for a in h[:2])
        g = h[2]
        if k == "shpd":
            u, v = m.proj(x, u), m.proj(x, v)
        if k in ("kron", "product"):
            s = zoo.spd(rs, 2, True)
            x, y = [x / np.real(np.linalg.det(x)) ** (1 / p), s], \
                [y / np.real(np.linalg.det(y)) ** (1 / p), 2 * s]
            w = rs.randn(2, 2)
            u, v, g = m.proj(x, [u, w + w.T + 0j]), m.proj(x, [v, s]), [g, w + 0j]
            short = [.1 * a for a in u]
    r = {"exp": lambda: m.exp(x, .1 * u if k not in ("kron", "product") else short), "log": lambda: m.log(x, y),
         "dist": lambda: m.dist(x, y), "inner": lambda: m.inner(x, u, v),
         "norm": lambda: m.norm(x, u), "proj": lambda: m.proj(x, v),
         "retr": lambda: m.retr(x, u if isinstance(u, (list, tuple)) else .1 * u),
         "transp": lambda: m.transp(x, y, u), "egrad": lambda: m.egrad2rgrad(x, g),
         "dim": lambda: int(m.dim)}[what]()
    r = list(r) if isinstance(r, (list, tuple)) else [r]
    return {"r%d" % i: a if np.isscalar(a) else np.array(a) for i, a in enumerate(r)}


# ---------------------------------------------------------------------------
def solo(plan, want_state):
    """Each read of a fresh object, nobody else around."""
    def go():
        objs = [make(o, plan["p"]) for o in plan["objects"]]
        out = []
        for t in plan["threads"]:
            mine = objs if not want_state else [make(o, plan["p"]) for o in plan["objects"]]
            out.append([read(plan["objects"][q["o"]], mine[q["o"]], q, plan["p"])
                        for q in t["ops"]])
        return out
    try:
        return E.pristine(go)
    except E.PeerFailure as e:
        raise Violation("unexpected:" + e.name, str(e))


def execute(plan, ctx):
    if not plan["threads"] or not plan["objects"]:
        raise InvalidPlan("nothing")
    for t in plan["threads"]:
        for q in t["ops"]:
            if q["o"] >= len(plan["objects"]) or \
                    q["q"] not in READS[plan["objects"][q["o"]]["kind"]]:
                raise InvalidPlan("no such object")
    for o in plan["objects"]:
        if o["kind"] == "est" and o["fit"]["data"]["n"] < 2 * o["fit"]["data"]["p"]:
            raise InvalidPlan("too few samples")
    with Clock(tick=1e-6) as ck:
        run(plan, ctx)
        ctx.sim_time += ck.mono - 1000.0


def run(plan, ctx):
    p = plan["p"]
    want = solo(plan, True)
    objs = [make(o, p) for o in plan["objects"]]
    before = [state(o, x) for o, x in zip(plan["objects"], objs)]
    s = Sched(ctx.mon, ctx.choose)
    flt = None
    if plan["fault"]:
        flt = CallFault(plan["fault"]["at"], MemoryError) \
            if plan["fault"]["kind"] == "memory" \
            else InterruptAt(plan["fault"]["at"], libraries=True)
        flt.thread = None

    def body(t):
        out = []
        for q in t["ops"]:
            for _ in range(2):
                try:
                    out.append(read(plan["objects"][q["o"]], objs[q["o"]], q, p))
                    break
                except (MemoryError, KeyboardInterrupt):
                    # asked again; the injected fault strikes once only
                    if flt is None or flt.fired is None or "asked" in t_asked:
                        raise
                    t_asked["asked"] = q["q"]
        return out
    t_asked = {}
    tasks = [s.spawn("t%d" % i, lambda t=t: body(t)) for i, t in enumerate(plan["threads"])]
    ctx.mon.set_fault(flt)
    try:
        s.run()
    finally:
        ctx.mon.set_fault(None)
        s.kill_all()
    ctx.switches += s.switches
    ctx.nontrivial = s.switches > len(tasks)
    if ctx.nontrivial:
        ctx.fault("preemption", s.switches)
    if t_asked:
        ctx.fault("read_" + plan["fault"]["kind"])
    ctx.sig([(o["kind"], o.get("spec", {}).get("cls")) for o in plan["objects"]],
            [[q["q"] for q in t["ops"]] for t in plan["threads"]], s.trace, sorted(t_asked.values()))
    ctx.event("sched", s.switches, s.trace)
    for i, (t, w) in enumerate(zip(tasks, want)):
        if t.exc is not None:
            raise t.exc
        for q, a, b in zip(plan["threads"][i]["ops"], t.result, w):
            k = zoo.same(a, b, 1e-10)
            if k is not None:
                raise Violation("interference", "thread %d, %s of the shared %s: %s is %s, "
                                "alone %s" % (i, q["q"], name(plan, q["o"]), k,
                                              E.short(a.get(k)), E.short(b.get(k))))
    for i, (o, x, b) in enumerate(zip(plan["objects"], objs, before)):
        k = zoo.exact(state(o, x), b)
        if k is not None:
            raise Violation("reading-changes", "%s: %s" % (name(plan, i), k))
    if plan["again"]:
        for i, t in enumerate(plan["threads"]):
            for q, b in zip(t["ops"], want[i]):
                a = read(plan["objects"][q["o"]], objs[q["o"]], q, p)
                k = zoo.same(a, b, 1e-10)
                if k is not None:
                    raise Violation("reading-changes", "a later %s of %s: %s" % (
                        q["q"], name(plan, q["o"]), k))


def name(plan, i):
    o = plan["objects"][i]
    return o.get("spec", {}).get("cls", o["kind"])
