"""C23 queries answer for the last completed fit."""
import copy
import pickle

import numpy as np
from scipy.special import gammaln

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E
from . import _online as O
from .c06 import usable

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one per (estimator, what happened before each query, kinds of queries, faults "
        "that struck) of runs with a query after more than one operation")
REAL = E.REAL
STUB = ("process without history (forked before the first operation)",
        "closed forms of the queries", "failing calls and interrupts (injected exceptions)",
        "clock (virtual)")
ASSUMES = ("Queries that a class does not offer (score of Huber, mahalanobis of complex "
           "data) are not asked.",)
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"n": 12}

NORM = ("frobenius", "spectral")


def gen(rng, tier):
    what = rng.choice(["batch"] * 5 + ["online"])
    p = rng.choice([2, 3, 4])
    spec = None
    if what == "batch":
        spec = E.draw_spec(rng, ("KroneckerStudent",) if rng.random() < .1 else None,
                           slow=rng.random() < .3)
        if "Student" not in spec["cls"] and rng.random() < .3:
            spec = E.draw_spec(rng, ("CenteredStudentMLE", "ComplexCenteredStudentMLE",
                                     "RealEmpiricalCovariance", "TylerShapeMatrix",
                                     "ComplexEmpiricalCovariance"))
        p = spec.get("p") or p
    fits = [E.draw_fit(rng, spec, p=p, dtypes=rng.random() < .2, odd=.1) if spec else
            {"n": rng.randint(1, 6), "p": p} for _ in range(rng.choice([1, 2, 3]))]
    n = rng.choice([2, 3, 4, 5]) if spec and E.slow(spec) else rng.choice([3, 5, 8, 8, 14, 25])
    ops = []
    for _ in range(n):
        k = rng.choice(["fit", "fit", "ask", "ask", "ask", "ask", "badfit", "fault", "setp",
                        "copy", "other"])
        if spec and E.slow(spec) and k in ("badfit", "fault", "other") and rng.random() < .7:
            k = rng.choice(["ask", "setp", "setp"])
        o = {"op": k, "fit": rng.randrange(len(fits)), "s": rng.randrange(10 ** 6),
             "where": rng.random()}
        if k == "badfit":
            o["kind"] = rng.choice(E.BAD)
        if k in ("fault", "ask"):
            o["kind"] = rng.choice(["memory", "interrupt"])
        if k == "ask":
            o["q"] = rng.choice(["precision", "mahalanobis", "transform", "norm", "norm",
                                 "score", "score", "failed"])
            o.update(norm=rng.choice(NORM), scaling=rng.random() < .5, sq=rng.random() < .5,
                     rows=rng.choice([1, 2, 7, 7, 40]), same=rng.random() < .5,
                     twice=rng.random() < .4, far=rng.choice([1., 1., 1e-3, 50.]))
        if k == "setp":
            draw_setp(rng, spec, o)
        if k == "copy":
            o["how"] = rng.choice(["deepcopy", "pickle", "copy"])
        ops.append(o)
    ops.append(dict(op="fit", fit=rng.randrange(len(fits)), s=3))
    for q in rng.sample(["precision", "mahalanobis", "transform", "norm", "score"], 3):
        if rng.random() < .35:
            ops.append({"op": "setp", "fit": 0, "s": 0})
            draw_setp(rng, spec, ops[-1])
        ops.append(dict(op="ask", fit=0, s=rng.randrange(10 ** 6), q=q, norm=rng.choice(NORM),
                        scaling=rng.random() < .5, sq=rng.random() < .5, rows=7, same=True,
                        twice=False, far=1., kind="memory", where=0))
    return {"what": what, "spec": spec, "p": p, "fits": fits, "ops": ops,
            "pair": rng.random() < .4}


def draw_setp(rng, spec, o):
    o["n"] = rng.randrange(10 ** 6)
    if spec:
        q = E.draw_spec(rng, (spec["cls"],), natgrad=False, ab=(
            spec["params"].get("a"), spec["params"].get("b")) if spec.get("p") else None)
        one = rng.choice(sorted(set(q["params"]) - {"a", "b"}))
        o["params"] = {one: q["params"][one]}


# ---------------------------------------------------------------------------
# closed forms
# ---------------------------------------------------------------------------
def t_logpdf(X, loc, S, df):
    d = len(S)
    m = np.einsum("ij,jk,ik->i", X - loc, np.linalg.inv(S), X - loc)
    return (gammaln((df + d) / 2) - gammaln(df / 2) - d / 2 * np.log(df * np.pi)
            - .5 * np.linalg.slogdet(S)[1] - (df + d) / 2 * np.log1p(m / df))


def real(C):
    return .5 * np.block([[C.real, -C.imag], [C.imag, C.real]])


def flat(X):
    return np.concatenate([X.real, X.imag], axis=-1)


def expected(ref, spec, params, q, arg):
    """The answer, from what a lone fit learned and the current parameters;
    None when it is not offered."""
    c = ref["covariance_"]
    c = np.asarray(c, dtype=np.result_type(c, float))
    if q == "precision":
        return np.linalg.pinv(c, hermitian=True)
    if q == "transform":
        return c
    if q == "norm":
        e = arg["comp"] - c
        v = np.sum(np.abs(e) ** 2) if arg["norm"] == "frobenius" else \
            np.max(np.linalg.svd(e, compute_uv=False)) ** 2
        if arg["scaling"]:
            v = v / len(c)
        return v if arg["sq"] else np.sqrt(v)
    if spec is None:
        return None
    cls, X = spec["cls"], arg["X"]
    if cls == "RealEmpiricalCovariance":
        Y = X - ref["location_"]
        P = np.linalg.pinv(c, hermitian=True)
        if q == "mahalanobis":
            return np.einsum("ij,jk,ik->i", Y, P, Y)
        s, ld = np.linalg.slogdet(P)
        return .5 * (-np.sum((Y.T @ Y / len(Y)) * P) + ld - len(c) * np.log(2 * np.pi))
    if q == "mahalanobis":
        return None
    if cls == "CenteredStudentMLE":
        return np.sum(t_logpdf(X, 0, c, params["df"]))
    if cls == "ComplexCenteredStudentMLE":
        return np.sum(t_logpdf(flat(X), 0, real(c), params["df"]))
    if cls == "KroneckerStudent":
        return np.sum(t_logpdf(flat(X), flat(ref["location_"]), real(c), params["df"]))
    return None


def ask(est, q, arg):
    if q == "precision":
        return est.get_precision()
    if q == "transform":
        return est.transform(arg["X"])
    if q == "norm":
        return est.error_norm(arg["comp"], norm=arg["norm"], scaling=arg["scaling"],
                              squared=arg["sq"])
    if q == "mahalanobis":
        return est.mahalanobis(arg["X"])
    return est.score(arg["X"])


# ---------------------------------------------------------------------------
class Subject:
    """The estimator and what it must have learned."""

    def __init__(self, plan):
        self.plan, self.spec = plan, copy.deepcopy(plan["spec"])
        self.ref = None
        self.lr = .1
        if self.spec is None:
            self.est = online(plan, self)
        else:
            self.est = zoo.build(self.spec)

    def params(self):
        return {} if self.spec is None else self.spec["params"]


def online(plan, sub):
    from robuststats.online.estimation import StochasticGradientCovarianceEstimator
    return StochasticGradientCovarianceEstimator(
        O.Flat() if plan["pair"] else O.HPD(),
        O.rgrad_pair if plan["pair"] else O.rgrad_gauss, sub.lr,
        O.total if plan["pair"] else None)


def execute(plan, ctx):
    if not plan["ops"]:
        raise InvalidPlan("nothing")
    with Clock(tick=1e-6):
        run(plan, ctx)


def args_of(plan, o, buf):
    rs = np.random.RandomState(o["s"])
    p = plan["p"]
    cplx = plan["spec"] is None or zoo.is_complex(plan["spec"]["cls"])
    X = rs.randn(o["rows"], p) * o["far"]
    comp = zoo.spd(rs, p, cplx) * o["far"]
    if cplx:
        X = X + 1j * rs.randn(o["rows"], p)
    if o["s"] % 6 == 0:     # nobody says it is a covariance
        comp = comp + .7 * o["far"] * np.triu(np.ones((p, p)), 1)
    if o["same"]:       # the same arrays, with other contents
        b = buf.setdefault(("X", X.shape, X.dtype.str), X)
        b[...] = X
        X = b
        b = buf.setdefault("comp", comp)
        b[...] = comp
        comp = b
    return {"X": X, "comp": comp, "norm": o["norm"], "scaling": o["scaling"], "sq": o["sq"]}


def run(plan, ctx):
    spec = plan["spec"]
    sub = Subject(plan)
    past, buf = [], {}
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        done = globals()["op_" + k](plan, sub, o, ctx, buf, past, i)
        if done:
            past.append((k, done))
    asked = [d for k, d in past if k == "ask"]
    if asked and len(past) > 2:
        ctx.nontrivial = True
    ctx.sig(spec["cls"] if spec else "online", past)


def lone(plan, sub, o):
    """What a process without history learns, or None if the fit must fail."""
    spec = sub.spec
    if spec is None:
        e = online(plan, sub)
        return E.pristine(lambda: (zoo.learned(online_fit(plan, e, o)),))[0]
    return E.alone(spec, usable(spec, plan["fits"][o["fit"]]))


def online_fit(plan, e, o):
    rs = np.random.RandomState(o["s"] % 2 ** 32 + o["fit"])
    f = plan["fits"][o["fit"]]
    c = zoo.spd(rs, f["p"], True)
    start = [c, c.conj() + .1 * np.eye(f["p"])] if plan["pair"] else c
    X = rs.randn(f["n"], f["p"]) + 1j * rs.randn(f["n"], f["p"])
    return e.fit(X, init=start)


def op_fit(plan, sub, o, ctx, buf, past, i):
    ref = lone(plan, sub, o)
    if sub.spec is None:
        online_fit(plan, sub.est, o)
    else:
        E.run_fit(sub.est, sub.spec, usable(sub.spec, plan["fits"][o["fit"]]))
    sub.ref = ref
    ctx.event(i, "fit")
    return "fit"


def op_badfit(plan, sub, o, ctx, buf, past, i):
    if sub.spec is None:
        try:
            sub.est.fit(np.ones((2, plan["p"] + 1)) + 0j, init=np.full((2, 2), np.nan))
        except Exception as e:
            ctx.fault("bad_input:online")
            return type(e).__name__
        return None
    if sub.spec["cls"] == "RealEmpiricalCovariance":
        return None             # scikit-learn's own fit sets its location first
    X, kw = E.bad_call(o["s"], sub.spec, usable(sub.spec, plan["fits"][o["fit"]]), o["kind"])
    try:
        sub.est.fit(X, **kw)
    except Exception as e:
        ctx.fault("bad_input:" + o["kind"])
        ctx.event(i, "badfit", type(e).__name__)
        return o["kind"]
    raise InvalidPlan("a fit that should fail did not")


def op_fault(plan, sub, o, ctx, buf, past, i):
    if sub.spec is None or sub.spec["cls"] == "RealEmpiricalCovariance":
        return None
    fit = usable(sub.spec, plan["fits"][o["fit"]])
    mk = (lambda at: CallFault(at, MemoryError)) if o["kind"] == "memory" \
        else (lambda at: InterruptAt(at))
    dry = mk(None)
    ref = lone(plan, sub, o)
    ctx.mon.set_fault(dry)
    try:
        E.run_fit(zoo.build(sub.spec), sub.spec, fit)
    finally:
        ctx.mon.set_fault(None)
    flt = mk(int(o["where"] * max(1, dry.n)))
    ctx.mon.set_fault(flt)
    try:
        E.run_fit(sub.est, sub.spec, fit)
        sub.ref = ref
    except (Exception, KeyboardInterrupt):
        if flt.fired is None:
            raise
        ctx.fault(o["kind"])
        # the fit may have been over already
        c = vars(sub.est).get("covariance_")
        was = sub.ref["covariance_"] if sub.ref else None
        if c is not None and (was is None or not zoo.close(c, was, 1e-9)):
            if not zoo.close(c, ref["covariance_"], 1e-9):
                raise Violation("neither-fit", "%s: covariance %s after an interrupted fit"
                                % (sub.spec["cls"], E.short(c)))
            sub.ref = None
            E.run_fit(sub.est, sub.spec, fit)
            sub.ref = ref
    finally:
        ctx.mon.set_fault(None)
    ctx.event(i, "fault", str(flt.fired))
    return str(flt.fired)


def op_setp(plan, sub, o, ctx, buf, past, i):
    if sub.spec is None:
        sub.lr = .05 + o["n"] % 7 * .01
        sub.est.set_params(lrate=sub.lr)
        return ["lrate"]
    P = {k: v for k, v in o["params"].items() if k not in ("a", "b")}
    sub.est.set_params(**P)
    sub.spec = dict(sub.spec, params=dict(sub.spec["params"], **P))
    return sorted(P)


def op_copy(plan, sub, o, ctx, buf, past, i):
    if sub.spec is None:
        sub.est = copy.deepcopy(sub.est)
    else:
        sub.est = {"deepcopy": copy.deepcopy, "copy": copy.copy,
                   "pickle": lambda e: pickle.loads(pickle.dumps(e))}[o["how"]](sub.est)
    return o.get("how")


def op_other(plan, sub, o, ctx, buf, past, i):
    """Another object of the class is fitted and asked."""
    if sub.spec is None:
        e = online(plan, sub)
        online_fit(plan, e, o)
        e.get_precision()
        return "other"
    if E.slow(sub.spec):
        return None
    e = zoo.build(sub.spec)
    fit = usable(sub.spec, plan["fits"][o["fit"]])
    fit = dict(fit, data=dict(fit["data"], seed=o["s"], p=plan["p"]))
    if fit["data"]["n"] < fit["data"]["p"] * 2:
        return None
    X = zoo.make_data(dict(fit["data"], odd=None))
    e.fit(X, **E.fit_kw(sub.spec, fit))
    for q in ("precision", "transform", "norm", "score"):
        if expected(zoo.learned(e), sub.spec, sub.params(), q,
                    {"X": X, "comp": np.eye(len(e.covariance_)), "norm": "spectral",
                     "scaling": True, "sq": True}) is not None:
            ask(e, q, {"X": X, "comp": np.eye(len(e.covariance_)), "norm": "spectral",
                       "scaling": True, "sq": True})
    return "other"


def op_ask(plan, sub, o, ctx, buf, past, i):
    if sub.ref is None:
        return None
    c = sub.ref["covariance_"]
    if len(c) != plan["p"]:
        return None                 # data of one feature
    w = np.linalg.eigvalsh(c)
    if not np.all(np.isfinite(w)) or w[0] <= 1e-9 * w[-1]:
        return None
    if sub.est.store_precision and sub.est.precision_ is None:
        return None                 # fitted without, asked for since
    arg = args_of(plan, o, buf)
    q = o["q"]
    fails = q == "failed"
    if fails:
        q = "norm"
    want = expected(sub.ref, sub.spec, sub.params(), q, arg)
    if want is None:
        return None
    if sub.spec and q in ("mahalanobis", "score") and \
            sub.spec["cls"] == "RealEmpiricalCovariance" and \
            sub.est.n_features_in_ != len(c):
        return None
    if fails:
        query_fails(sub, q, arg, o, ctx)
    got = ask(sub.est, q, arg)
    if o["twice"]:
        # the caller may write to what it was given
        if isinstance(got, np.ndarray) and got.flags.writeable and q == "mahalanobis":
            got[...] = 0
        got = ask(sub.est, q, arg)
    tol = 1e-7 if q in ("precision", "mahalanobis", "score") else 1e-8
    tol = max(tol, 1e-14 * w[-1] / w[0])
    if c.dtype == np.float32:
        tol = 1e-4 + 1e-5 * w[-1] / w[0]
    if not zoo.close(np.asarray(got), np.asarray(want), tol):
        raise Violation("stale-or-wrong-answer", "%s after %s: %s is %s, the last fit gives %s" % (
            sub.spec["cls"] if sub.spec else "online", [x[0] for x in past[-4:]],
            q, E.short(got), E.short(want)))
    ctx.event(i, "ask", q)
    return (o["q"], o.get("norm") if q == "norm" else None)


def query_fails(sub, q, arg, o, ctx):
    mk = (lambda at: CallFault(at, MemoryError)) if o["kind"] == "memory" \
        else (lambda at: InterruptAt(at))
    dry = mk(None)
    e = copy.deepcopy(sub.est)
    ctx.mon.set_fault(dry)
    try:
        ask(e, q, arg)
    finally:
        ctx.mon.set_fault(None)
    flt = mk(int(o["where"] * max(1, dry.n)))
    ctx.mon.set_fault(flt)
    try:
        ask(sub.est, q, arg)
    except (Exception, KeyboardInterrupt):
        if flt.fired is None:
            raise
        ctx.fault("query_" + o["kind"])
    finally:
        ctx.mon.set_fault(None)
