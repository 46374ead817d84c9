"""C06 a fit depends on its data, its initial point and the parameters only."""
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E
from . import _online as O

RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("one per (estimator, kinds and order of the operations before each compared "
        "fit, faults that struck) of runs where something happened before a fit")
REAL = E.REAL
STUB = ("process without history (forked before the first operation)",
        "failing calls and interrupts (injected exceptions)", "clock (virtual)")
ASSUMES = ("The clock does not jump while a descent runs (C14 covers jumps).",)
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"n": 12}


def gen(rng, tier):
    online = rng.random() < .2
    ops = []
    if online:
        pair = rng.random() < .4
        for _ in range(rng.choice([2, 3, 4, 6])):
            k = rng.choice(["fit", "fit", "fit", "update", "set", "badfit", "setp", "query"])
            ops.append(dict(op=k, n=rng.randint(1, 9), seed=rng.randrange(10 ** 6),
                            upd=rng.choice(["inverse iteration", "constant"]),
                            lr=rng.choice([.05, .3]), where=rng.random()))
        ops.append(dict(op="fit", n=rng.randint(2, 9), seed=rng.randrange(10 ** 6),
                        upd="inverse iteration", lr=.1, where=0))
        return {"online": True, "pair": pair, "p": rng.choice([2, 3]), "ops": ops}
    flip = rng.random() < .04
    spec = E.draw_spec(rng, slow=rng.random() < .3) if rng.random() < .97 else \
        E.draw_spec(rng, ("KroneckerStudent",))
    if flip:
        spec = E.draw_spec(rng, ("KroneckerStudent",) * 2 + zoo.EMP
                           + ("KroneckerEllipticalMM",))
    p = rng.choice([2, 3, 4])
    fits = []
    for _ in range(rng.choice([1, 2, 3])):
        fits.append(E.draw_fit(rng, spec, p=p, dtypes=rng.random() < .3))
        if len(fits) > 1 and rng.random() < .6:
            # samples of the same number and kind, another content
            fits[-1]["data"] = dict(fits[0]["data"], seed=rng.randrange(10 ** 6))
        if rng.random() < .25 and not spec.get("p"):
            p = rng.choice([2, 3, 5])       # another dimension
    now = dict(spec["params"])
    n = rng.choice([1, 2, 3, 4]) if E.slow(spec) else rng.choice([1, 2, 3, 5, 8] * 8 + [24, 40])
    for _ in range(n):
        k = rng.choice(["fit", "fit", "fit", "badfit", "fault", "fault", "query", "query",
                        "setp", "other", "transform"])
        o = {"op": k, "fit": rng.randrange(len(fits)), "s": rng.randrange(10 ** 6)}
        if k == "badfit":
            o["kind"] = rng.choice(E.BAD)
        if k == "fault":
            o.update(kind=rng.choice(["memory", "interrupt"]), where=rng.random())
        if k == "query":
            o["q"] = rng.choice(E.QUERIES)
        if k == "setp":
            o["spec"] = E.draw_spec(rng, (spec["cls"],), ab=(spec["params"].get("a"),
                                    spec["params"].get("b")) if spec.get("p") else None)
            if rng.random() < .6:       # one parameter only
                q = rng.choice(sorted(o["spec"]["params"]))
                if isinstance(spec["params"].get(q), bool):
                    o["spec"]["params"][q] = rng.random() < .5
                o["spec"]["params"] = {q: o["spec"]["params"][q]}
            near = [q for q in ("q", "df", "tol") if q in now]
            if near and rng.random() < .35:     # almost the present value
                q = rng.choice(near)
                o["spec"] = {"params": {q: now[q] * (1 + rng.choice(
                    [-1e-2, -1e-3, 1e-4, -1e-5]))}}
            now.update(o["spec"]["params"])
        if k == "other":
            o["spec"] = E.draw_spec(rng, (spec["cls"],) if rng.random() < .6 else None,
                                    slow=False, natgrad=False)
            o["own"] = E.draw_fit(rng, o["spec"], p=p)
        ops.append(o)
    if flip:        # one option set, fitted, set back, fitted
        q = rng.choice(sorted(k for k, v in spec["params"].items() if isinstance(v, bool)))
        v = spec["params"][q]
        ops = [{"op": "fit", "fit": rng.randrange(len(fits)), "s": 0}]
        for v in (not v, v)[:rng.choice([1, 2, 2])]:
            ops.append({"op": "setp", "spec": {"params": {q: v}}, "fit": 0, "s": 0})
            if v == spec["params"][q] or rng.random() < .8:
                ops.append({"op": "fit", "fit": rng.randrange(len(fits)), "s": 0})
        ops.pop()
    ops.append({"op": "fit", "fit": rng.randrange(len(fits)), "s": 0})
    # the samples may come in a buffer that is used again for others
    return {"online": False, "spec": spec, "fits": fits, "ops": ops,
            "buffer": rng.random() < .4}


def execute(plan, ctx):
    if not plan["ops"]:
        raise InvalidPlan("nothing")
    with Clock(tick=1e-6):
        (online if plan["online"] else batch)(plan, ctx)


def usable(spec, fit):
    """The fit with an initial point where the method needs one."""
    if zoo.gradient_spec(spec) and fit["init"] is None:
        fit = dict(fit, init=7)
    if fit["data"]["n"] < 4:
        raise InvalidPlan("too few samples")
    if zoo.gradient_spec(spec) and fit["data"]["n"] < 3 * fit["data"]["p"]:
        raise InvalidPlan("too few samples")
    return fit


def batch(plan, ctx):
    spec = dict(plan["spec"])
    # what every fit must learn, each by a process without history
    want = []
    for o in plan["ops"]:
        w = None
        if o["op"] == "setp":
            spec = dict(spec, params=dict(spec["params"], **o["spec"]["params"]))
        if o["op"] == "fit":
            w = (spec, usable(spec, plan["fits"][o["fit"]]))
            w = w + (E.alone(*w),)
        want.append(w)
    spec = dict(plan["spec"])
    est = zoo.build(spec)
    past = []
    buffers = {}

    def samples(d):
        X = zoo.make_data(d)
        if not plan.get("buffer"):
            return X
        b = buffers.setdefault((X.shape, X.strides, X.dtype.str), X)
        b[...] = X
        return b
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        if k == "fit":
            now, fit, ref = want[i]
            X, kw = samples(fit["data"]), E.fit_kw(spec, fit)
            r = est.fit(X, **kw)
            if r is not est:
                raise Violation("fit-returns-other", repr(type(r)))
            E.check_same(zoo.learned(est), ref, "depends-on-history")
            E.promised(now, fit, zoo.learned(est))
            if past:
                ctx.nontrivial = True
                ctx.sig(spec["cls"], past)
            ctx.event(i, "fit", len(ref))
        elif k == "badfit":
            X, kw = E.bad_call(o["s"], spec, usable(spec, plan["fits"][o["fit"]]), o["kind"])
            try:
                est.fit(X, **kw)
            except Exception as e:
                ctx.fault("bad_input:" + o["kind"])
                ctx.event(i, "badfit", type(e).__name__)
        elif k == "fault":
            fault(est, spec, usable(spec, plan["fits"][o["fit"]]), o, ctx, samples)
        elif k in ("query", "transform"):
            if not hasattr(est, "covariance_") or \
                    est.n_features_in_ // (2 if zoo.is_complex(spec["cls"]) else 1) \
                    != len(est.covariance_):
                continue        # scikit-learn records the width of rejected data
            if est.store_precision and est.precision_ is None:
                continue        # fitted without, asked for since
            X = zoo.make_data(dict(plan["fits"][o["fit"]]["data"], dtype=None,
                                   p=len(est.covariance_),
                                   n=17 if o["s"] % 3 else 45))
            a = zoo.learned(est)
            E.query(est, spec, o.get("q", "transform"), X)
            if zoo.exact(zoo.learned(est), a):
                raise Violation("query-changes-estimate", o.get("q", k))
        elif k == "setp":
            est.set_params(**o["spec"]["params"])
            spec = dict(spec, params=dict(spec["params"], **o["spec"]["params"]))
        elif k == "other":
            own = usable(o["spec"], o["own"])
            E.run_fit(zoo.build(o["spec"]), o["spec"], own, X=samples(own["data"]))
        past.append((k, o.get("kind") or o.get("q")))


def fault(est, spec, fit, o, ctx, samples):
    mk = (lambda at: CallFault(at, MemoryError)) if o["kind"] == "memory" \
        else (lambda at: InterruptAt(at, libraries=True))
    dry = mk(None)
    tmp = zoo.build(spec)
    ctx.mon.set_fault(dry)
    try:
        E.run_fit(tmp, spec, fit)
    finally:
        ctx.mon.set_fault(None)
    flt = mk(int(o["where"] * max(1, dry.n)))
    X, kw = samples(fit["data"]), E.fit_kw(spec, fit)
    ctx.mon.set_fault(flt)
    try:
        est.fit(X, **kw)
    except (Exception, KeyboardInterrupt):
        if flt.fired is None:
            raise
    finally:
        ctx.mon.set_fault(None)
    if flt.fired:
        ctx.fault(o["kind"])
    ctx.event("fault", o["kind"], flt.fired)


# ---------------------------------------------------------------------------
def stream(plan, o):
    rs = np.random.RandomState(o["seed"])
    p = plan["p"]
    X = rs.randn(max(1, o["n"]), p) + 1j * rs.randn(max(1, o["n"]), p)
    c = zoo.spd(rs, p, True)
    return X, ([c, c.conj().copy()] if plan["pair"] else c)


def new_online(plan, lr):
    from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
    if plan["pair"]:
        return S(O.Flat(), O.rgrad_pair, lr, O.first)
    return S(O.HPD(), O.rgrad_gauss, lr)


def online_state(e):
    return {"c": np.array(e.covariance_), "e": [np.array(x) for x in (
        e.estimate_ if isinstance(e.estimate_, list) else [e.estimate_])],
        "p": np.array(e.get_precision())}


def online_ref(plan, o, lr):
    def go():
        X, init = stream(plan, o)
        e = new_online(plan, lr)
        e.fit(X, init=init, lr_update=o["upd"])
        a = online_state(e)
        e.update(X[:1] * .5, o["upd"])      # and what a further sample does
        return [a, online_state(e)]
    try:
        return E.pristine(go)
    except E.PeerFailure as e:
        raise Violation("unexpected:" + e.name, str(e))


def online(plan, ctx):
    want, lr = [], .1
    for o in plan["ops"]:
        if o["op"] == "setp":
            lr = o["lr"]
        want.append(online_ref(plan, o, lr) if o["op"] == "fit" else None)
    est = new_online(plan, .1)
    past = []
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        X, init = stream(plan, o)
        if k == "fit":
            est.fit(X, init=init, lr_update=o["upd"])
            E.check_same(online_state(est), want[i][0], "depends-on-history")
            if i % 2 or i == len(plan["ops"]) - 1:
                est.update(X[:1] * .5, o["upd"])
                E.check_same(online_state(est), want[i][1], "depends-on-history")
            if past:
                ctx.nontrivial = True
                ctx.sig("online", plan["pair"], past)
        elif k == "set":
            est.set_estimate(init)
        elif k == "update" and est.estimate_ is not None:
            est.update(X[:1], o["upd"])
        elif k == "setp":
            est.set_params(lrate=o["lr"])
        elif k == "query" and est.estimate_ is not None:
            a = online_state(est)
            est.transform(X), est.error_norm(np.eye(plan["p"]))
            if zoo.exact(online_state(est), a):
                raise Violation("query-changes-estimate", "online")
        elif k == "badfit":
            flt = CallFault(int(o["where"] * 12 * len(X)), MemoryError)
            ctx.mon.set_fault(flt)
            try:
                est.fit(X, init=init, lr_update=o["upd"])
            except MemoryError:
                if flt.fired is None:
                    raise
                ctx.fault("memory")
            finally:
                ctx.mon.set_fault(None)
        past.append(k)
        ctx.event(i, k)
