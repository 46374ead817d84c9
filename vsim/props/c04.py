"""C04 concurrent callers using distinct objects get what each gets alone."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..sched import Sched
from ..clock import Clock
from . import _est as E

RUNS = {"quick": 2600, "thorough": 24000}
EXTRA_YIELD = ("vsim/testest",)
RULE = ("one per (operations of the threads, thread interleaving hash) of runs with "
        "at least one context switch inside the package")
REAL = E.REAL + ("CPython threads (one runs at a time)",)
STUB = ("thread scheduler", "clocks (virtual)")
ASSUMES = ("Threads are pre-empted between lines of the package, not inside numpy, "
           "scipy, scikit-learn or pymanopt.",
           "Operations that draw from the global generator are excluded: the "
           "generator itself is shared.")
SHRINK_LISTS = ("threads", "ops")
SHRINK_INTS = {"iter_max": 1, "n": 12, "times": 1}

FUNCS = ("t_logpdf", "n_logpdf", "maps", "cost", "linalg", "hpd", "features", "kron_manifold",
         "spv", "shpd", "product", "rvs", "frozen_rvs", "codes")


def gen(rng, tier):
    p = rng.choice([2, 3, 4])
    same_cls = rng.random() < .5
    base = E.draw_spec(rng, natgrad=True, slow=rng.random() < .12)
    pool = [{"seed": rng.randrange(10 ** 6), "n": rng.randint(14, 24), "p": p,
             "cplx": c, "dist": rng.choice(["gauss", "t"]), "layout": "C",
             "scale": 1.0} for c in (False, True)]
    threads = []
    # threads that do the same thing meet at the same place
    theme = rng.choice([None, "mixed", "func", "func", "online", "batch"])
    if rng.random() < .35:
        return {"pool": pool, "threads": twins(rng, p), "p": p,
                "ref_first": rng.random() < .5, "tick": rng.choice([1e-6, 1e-3])}
    fname = rng.choice(FUNCS)
    lo, hi = {"func": (.76, 1), "online": (.52, .66), "batch": (.66, .76)}.get(theme, (0, 1))
    for t in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            r = lo + (hi - lo) * rng.random()
            if r < .52:
                spec = base if same_cls else E.draw_spec(rng, slow=False)
                if same_cls and rng.random() < .5:
                    # same class, other parameters
                    spec = E.draw_spec(rng, (base["cls"],), natgrad=rng.random() < .2)
                if "iter_max" in spec["params"]:
                    spec["params"]["iter_max"] = min(spec["params"]["iter_max"], 8)
                own = rng.random() < .4 or bool(spec.get("p"))
                fit = E.draw_fit(rng, spec, p=p)
                ops.append({"op": "fit", "spec": spec, "fit": fit, "own": own,
                            "refit": rng.random() < .3,
                            "queries": rng.sample(E.QUERIES, 2)})
                if rng.random() < .3:
                    # a fit that fails, on the object that is fitted again next
                    ops[-1]["bad"] = [rng.choice(E.BAD), rng.randrange(10 ** 6)]
                if rng.random() < .25:
                    ops[-1]["copies"] = rng.choice(["clone", "deepcopy", "pickle", "params"])
            elif r < .66:
                ops.append({"op": "online", "fail": rng.choice([None, None, 1, 2, 4]),"p": 2, "n": rng.randint(2, 8),
                            "seed": rng.randrange(10 ** 6),
                            "lr": rng.choice([0.1, 1.0]),
                            "upd": rng.choice(["inverse iteration", "constant"])})
            elif r < .76:
                ops.append({"op": "batch", "spec": {"cls": "TylerShapeMatrix", "params": {
                    "iter_max": 4}}, "n_trials": rng.randint(1, 4),
                    "feat": rng.random() < .5})
            else:
                ops.append({"op": rng.choice(FUNCS) if theme in (None, "mixed")
                            or rng.random() < .2 else fname, "seed": rng.randrange(10 ** 6),
                            "p": rng.choice([2, 3])})
        threads.append({"ops": ops})
    return {"pool": pool, "threads": threads, "p": p, "ref_first": rng.random() < .5,
            "tick": rng.choice([1e-6, 1e-3])}


def twins(rng, p):
    """Threads that do the same on data of one shape, each with data and
    parameters of its own."""
    ab = rng.choice([(2, 2), (1, 2), (3, 2)])
    ops = []
    if rng.random() < .4:
        fname = rng.choice(FUNCS)
        for _ in range(rng.choice([1, 2])):
            ops.append({"op": fname, "p": p if p < 4 else 2,
                        "times": rng.choice([1, 2, 4])})
    else:
        cls = rng.choice(zoo.FP * 2 + zoo.EMP + ("KroneckerEllipticalMM",) * 3)
        spec = E.draw_spec(rng, (cls,), natgrad=False, ab=ab)
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"op": "fit", "spec": spec, "own": True,
                        "fit": E.draw_fit(rng, spec, p=p, n=rng.randint(14, 20),
                                          odd=0),
                        "refit": rng.random() < .4,
                        "queries": rng.sample(E.QUERIES, 2)})
    threads = []
    for t in range(rng.choice([2, 2, 3])):
        mine = copy.deepcopy(ops)
        for o in mine:
            if o["op"] != "fit":
                o["seed"] = rng.randrange(10 ** 6)
                continue
            P = o["spec"]["params"]
            fresh = zoo.draw_params(rng, o["spec"]["cls"], ab=ab)
            P.update({k: fresh[k] for k in fresh if rng.random() < .7})
            if "iter_max" in P:
                P["iter_max"] = min(P["iter_max"], 8)
            o["fit"]["data"]["seed"] = rng.randrange(10 ** 6)
        threads.append({"ops": mine})
    return threads


def run_op(o, shared):
    """What the operation lets its caller see, as often as it is done."""
    return [x for _ in range(o.get("times", 1)) for x in one_op(o, shared)]


def one_op(o, shared):
    """Everything the operation lets its caller see."""
    k = o["op"]
    if k == "fit":
        spec, fit = o["spec"], o["fit"]
        cplx = zoo.is_complex(spec["cls"])
        X = zoo.make_data(fit["data"]) if o["own"] else shared["X"][int(cplx)]
        kw = {}
        if fit["init"] is not None:
            kw = E.fit_kw(spec, fit) if o["own"] else {"init": shared["init"][int(cplx)]}
        est = zoo.build(spec)
        out = []
        if o.get("bad"):
            try:
                est.fit(*E.bad_call(o["bad"][1], spec, fit, o["bad"][0])[:1], **kw)
                out.append({"exc": "none"})
            except Exception as e:
                out.append({"exc": type(e).__name__})
            out.append(zoo.learned(est))
        how = o.get("copies")
        if how == "clone":
            from sklearn.base import clone
            est = clone(est)
        elif how == "deepcopy":
            est = copy.deepcopy(est)
        elif how == "pickle":
            est = pickle.loads(pickle.dumps(est))
        elif how == "params":
            est.set_params(**est.get_params())
        for _ in range(1 + o["refit"]):
            est.fit(X, **kw)
            out.append(zoo.learned(est))
        for q in o["queries"]:
            out.append({q: E.query(est, spec, q, X)})
        out.append(zoo.params(est))
        return out
    if k == "online":
        from . import _online
        return _online.simple_run(o)
    if k == "batch":
        from robuststats.estimation.base import CovariancesEstimation, FeaturesEstimation
        X = np.stack([np.roll(shared["X"][0], i, axis=1) for i in range(o["n_trials"])])
        if o["feat"]:
            f = FeaturesEstimation(zoo.build(o["spec"])).transform(X)
            return [{"v": f.vectorize(), "n": len(f)}]
        return [{"v": CovariancesEstimation(zoo.build(o["spec"])).transform(X)}]
    from robuststats.models import probability, mappings, cost, manifolds
    from robuststats.utils import linalg
    from robuststats.estimation.base import _FeatureArray
    rs = np.random.RandomState(o["seed"])
    p = o["p"]
    S, C = zoo.spd(rs, p), zoo.spd(rs, p, True)
    Z = rs.randn(7, p) + 1j * rs.randn(7, p)
    if k == "t_logpdf":
        g = probability.complex_multivariate_t
        return [{"a": g.logpdf(Z.real, np.zeros(p), S, 3.0),
                 "b": g(np.zeros(p, dtype=complex), C, 4.0).logpdf(Z)}]
    if k == "n_logpdf":
        g = probability.complex_multivariate_normal
        return [{"a": g.logpdf(Z, np.zeros(p, dtype=complex), C),
                 "b": g.pdf(Z.real, np.zeros(p), S),
                 "c": g.entropy(np.zeros(p), S)}]
    if k == "maps":
        return [{"a": mappings.covariancetocomplex(mappings.covariancetoreal(C)),
                 "b": mappings.arraytocomplex(mappings.arraytoreal(Z)),
                 "c": mappings.covariancestocomplex(mappings.covariancestoreal(
                     np.stack([C, 2 * C])))}]
    if k == "cost":
        return [{"a": cost.Tyler_cost_real(Z.real, S), "b": cost.Tyler_cost_complex(Z, C)}]
    if k == "linalg":
        return [{"a": linalg.sqrtm(C), "b": linalg.invsqrtm(S), "c": linalg.logm(C),
                 "d": linalg.powm(S, .3), "e": linalg.expm(C)}]
    if k == "hpd":
        m = manifolds.HermitianPositiveDefinite(p)
        u = C @ (Z[:p] + Z[:p].conj().T) @ C
        return [{"a": m.exp(C, u), "b": m.log(C, S + 0j), "c": m.dist(C, S + 0j),
                 "d": m.retr(C, .1 * u), "e": m.inner(C, u, u)}]
    if k == "spv":
        m = manifolds.StrictlyPositiveVectors(p)
        x, y = np.exp(Z[:1].real.T), np.exp(Z[1:2].real.T)
        return [{"e": m.exp(x, .1 * y), "l": m.log(x, y), "d": m.dist(x, y),
                 "i": m.inner(x, y, y), "r": m.retr(x, y), "t": m.transp(x, y, y)}]
    if k == "shpd":
        m = manifolds.SpecialHermitianPositiveDefinite(p)
        x, y = (a / np.real(np.linalg.det(a)) ** (1 / p) for a in (C, S + 0j))
        u = m.proj(x, x @ (Z[:p] + Z[:p].conj().T) @ x)
        return [{"e": m.exp(x, .1 * u), "l": m.log(x, y), "d": m.dist(x, y),
                 "i": m.inner(x, u, u), "r": m.retr(x, .1 * u), "t": m.transp(x, y, u),
                 "g": m.egrad2rgrad(x, Z[:p])}]
    if k == "product":
        m = manifolds.WeightedProduct([manifolds.HermitianPositiveDefinite(p),
                                       manifolds.StrictlyPositiveVectors(p)], [2., .5])
        v = np.exp(Z[:1].real.T)
        x, y = [C, v], [S + 0j, 2 * v]
        u = m.egrad2rgrad(x, y)
        return [{"i": m.inner(x, u, u), "d": m.dist(x, y), "g": u[0], "h": u[1],
                 "e": m.exp(x, u)[0], "r": m.retr(x, u)[1]}]
    if k in ("rvs", "frozen_rvs"):
        n, t = probability.complex_multivariate_normal, probability.complex_multivariate_t
        mean = np.zeros(p, dtype=complex)
        if k == "rvs":
            g = np.random.RandomState(o["seed"])
            return [{"a": n.rvs(mean, C, size=3, random_state=g),
                     "b": t.rvs(mean, C, 3.0, size=2, random_state=g),
                     "c": t.rvs(mean.real, S, 3.0, size=2, random_state=o["seed"])}]
        f, g = n(mean, C, seed=o["seed"]), t(mean.real, S, 3.0, seed=o["seed"])
        return [{"a": f.rvs(2), "b": g.rvs(3), "c": f.rvs(1), "d": g.rvs(1),
                 "l": f.logpdf(Z)}]
    if k == "codes":
        out = {"v": linalg.vec(C), "h": linalg.vech(S), "u": linalg.unvec(linalg.vec(C)),
               "w": linalg.unvech(linalg.vech(S)), "t": linalg.ToeplitzMatrix(.4, p),
               "c": mappings.iscovariance(C), "s": mappings.check_Symmetric(S),
               "m": linalg.multiherm(np.stack([C, S + 0j]))}
        return [out]
    if k == "kron_manifold":
        m = manifolds.KroneckerHermitianPositiveElliptical(p, 2, .8)
        B = zoo.spd(rs, 2, True)
        return [{"d": m.dim, "a": m.egrad2rgrad([C, B], [C @ C, B])[0],
                 "i": m.inner([C, B], [C, B], [C, B])}]
    if k == "features":
        f = _FeatureArray((p, p), (1, p))
        for i in range(3):
            f.append([C * (i + 1), Z[i:i + 1]])
            try:
                f.append([C[:1], Z[i:i + 1]])
            except Exception:
                pass
        return [{"v": f.vectorize(), "n": len(f), "e": f.export()[0], "i": f[1].export()[1]}]
    raise InvalidPlan(k)


def shared_data(plan):
    X = [zoo.make_data(d) for d in plan["pool"]]
    rs = np.random.RandomState(plan["pool"][0]["seed"])
    init = [zoo.spd(rs, plan["p"]), zoo.spd(rs, plan["p"], True)]
    for a in X + init:
        a.flags.writeable = False       # shared inputs belong to everybody
    return {"X": X, "init": init}


def solo(plan):
    sh = shared_data(plan)
    return [[run_op(o, sh) for o in t["ops"]] for t in plan["threads"]]


def execute(plan, ctx):
    for t in plan["threads"]:
        for o in t["ops"]:
            if o["op"] == "fit" and o["fit"]["data"]["n"] < 4:
                raise InvalidPlan("too few samples")
    if not plan["threads"]:
        raise InvalidPlan("no thread")
    with Clock(tick=plan["tick"]) as ck:
        want = solo(plan) if plan["ref_first"] else None
        sh = shared_data(plan)
        s = Sched(ctx.mon, ctx.choose)

        def body(t):
            # one operation after the other; results in the caller's hands
            return [run_op(o, sh) for o in t["ops"]]
        tasks = [s.spawn("t%d" % i, lambda t=t: body(t))
                 for i, t in enumerate(plan["threads"])]
        try:
            s.run()
        finally:
            s.kill_all()
        ctx.sim_time += ck.mono - 1000.0
        ctx.switches += s.switches
        ctx.nontrivial = s.switches > len(tasks)
        if ctx.nontrivial:
            ctx.fault("preemption", s.switches)
        ctx.sig([o.get("spec", {}).get("cls", o["op"]) for t in plan["threads"]
                 for o in t["ops"]], s.trace)
        ctx.event("sched", s.switches, s.trace)
        if want is None:
            want = solo(plan)
    for i, (t, w) in enumerate(zip(tasks, want)):
        if t.exc is not None:
            if isinstance(t.exc, np.linalg.LinAlgError):
                raise Violation("unexpected:LinAlgError", "thread %d" % i) from t.exc
            raise t.exc
        for o, a, b in zip(plan["threads"][i]["ops"], t.result, w):
            for x, y in zip(a, b):
                k = zoo.same(x, y, 1e-10)
                if k is not None:
                    raise Violation("interference", "thread %d %s: %s is %s, alone %s" % (
                        i, o["op"], k, E.short(x.get(k)), E.short(y.get(k))))
            ctx.event(o["op"], len(a))
