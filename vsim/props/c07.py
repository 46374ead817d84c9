"""C07 the parameters in effect are the reported ones; copies are independent."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E
from . import _online as O
from .c06 import usable, new_online, online_state, stream

RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("one per (estimator, kinds and order of the operations on the family of "
        "objects, failed operations) of runs with a copy or a parameter change")
REAL = E.REAL
STUB = ("process without history (forked before the first operation)",
        "interleaving of the holders of the copies", "failing calls (bad input, bad "
        "parameter names)", "clock (virtual)")
ASSUMES = ("Copies are made with sklearn clone, copy.deepcopy or pickle.",)
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"n": 12}


def gen(rng, tier):
    if rng.random() < .15:
        ops = []
        for _ in range(rng.choice([3, 4, 6, 8])):
            ops.append({"op": rng.choice(["set", "attr", "clone", "deepcopy", "fit", "fit",
                                          "update", "write"]),
                        "i": rng.randrange(6), "lr": rng.choice([.02, .1, .4]),
                        "upd": rng.choice(["inverse iteration", "constant"]),
                        "conv": rng.choice(["first", "total"]),
                        "n": rng.randint(1, 6), "seed": rng.randrange(10 ** 6)})
        ops.append({"op": "fit", "i": rng.randrange(6), "lr": .1, "upd": "constant",
                    "conv": "first", "n": 3, "seed": rng.randrange(10 ** 6)})
        return {"online": True, "pair": True, "p": 2, "ops": ops}
    if rng.random() < .14:
        return gen_transformer(rng)
    spec = E.draw_spec(rng, slow=rng.random() < .35) if rng.random() < .94 else \
        E.draw_spec(rng, ("KroneckerStudent",))
    ab = (spec["params"]["a"], spec["params"]["b"]) if spec.get("p") else None
    fits = [E.draw_fit(rng, spec, p=rng.choice([2, 3])) for _ in range(2)]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 9]) if not E.slow(spec) else rng.choice([2, 3, 4])):
        k = rng.choice(["set", "set", "attr", "clone", "deepcopy", "pickle", "fit", "fit",
                        "badset", "badfit", "method", "swapab", "one", "write"])
        if "Tyler" in spec["cls"] and k in ("badset", "swapab"):
            k = "method"
        o = {"op": k, "i": rng.randrange(6), "fit": rng.randrange(2),
             "s": rng.randrange(10 ** 6)}
        if k in ("set", "attr", "one"):
            o["spec"] = E.draw_spec(rng, (spec["cls"],), ab=ab)
        if k == "badfit":
            o["kind"] = rng.choice(E.BAD)
        ops.append(o)
    ops.append({"op": "fit", "i": rng.randrange(6), "fit": rng.randrange(2), "s": 0})
    return {"online": False, "spec": spec, "fits": fits, "ops": ops}


def gen_transformer(rng):
    """A batch transformer: its parameters are the estimator and the jobs."""
    feat = rng.random() < .5
    cplx = rng.random() < .4
    pool = (zoo.CPLX_FP + zoo.EMP[1:]) if cplx else zoo.REAL_FP + zoo.EMP[:1]

    def spec():
        s = E.draw_spec(rng, pool, natgrad=False)
        if "iter_max" in s["params"]:
            s["params"]["iter_max"] = rng.choice([1, 2, 5])
        return s
    ops = []
    for _ in range(rng.choice([2, 3, 5, 7])):
        ops.append({"op": rng.choice(["est", "est", "jobs", "nested", "nested", "attr", "clone",
                                      "deepcopy", "pickle", "transform", "transform",
                                      "inner"]),
                    "i": rng.randrange(5), "spec": spec(), "n": rng.choice([1, 1, 2]),
                    "s": rng.randrange(10 ** 6)})
    ops.append({"op": "transform", "i": rng.randrange(5), "s": rng.randrange(10 ** 6)})
    return {"online": None, "feat": feat, "spec": spec(), "ops": ops,
            "data": zoo.draw_data(rng, "Complex" if cplx else "Real", p=2, n=9,
                                  layouts=False)}


def transformer(plan, ctx):
    from sklearn.base import clone
    from robuststats.estimation import base

    def new(spec, n=1):
        return (base.FeaturesEstimation if plan["feat"] else base.CovariancesEstimation)(
            zoo.build(spec), n_jobs=n)

    def go(t, o):
        r = t.transform(zoo.make_stack(dict(plan["data"], seed=o["s"]), 3))
        return {"r": np.array(r.vectorize() if plan["feat"] else r)}

    def copied(m):
        return {"spec": {"cls": m["spec"]["cls"], "params": dict(m["spec"]["params"])},
                "n": m["n"]}

    def step(o, ms):
        m = ms[o["i"] % len(ms)]
        k = o["op"]
        if k in ("est", "attr"):
            m["spec"] = copied({"spec": o["spec"], "n": 1})["spec"]
        elif k == "jobs":
            m["n"] = o["n"]
        elif k in ("nested", "inner") and m["spec"]["cls"] == o["spec"]["cls"]:
            m["spec"]["params"].update(o["spec"]["params"])
        elif k in ("clone", "deepcopy", "pickle"):
            ms.append(copied(m))
        return m

    ms = [copied({"spec": plan["spec"], "n": 1})]
    want = []
    for o in plan["ops"]:
        m = step(o, ms)
        want.append(E.pristine(lambda: go(new(m["spec"]), o)) if o["op"] == "transform"
                    else None)
    ms = [copied({"spec": plan["spec"], "n": 1})]
    objs, past = [new(plan["spec"])], []
    for i, o in enumerate(plan["ops"]):
        t, k = objs[o["i"] % len(objs)], o["op"]
        was = ms[o["i"] % len(objs)]["spec"]["cls"]
        m = step(o, ms)
        same = was == o.get("spec", {}).get("cls")
        if k == "est":
            t.set_params(estimator=zoo.build(o["spec"]))
        elif k == "attr":
            t.estimator = zoo.build(o["spec"])
        elif k == "jobs":
            t.set_params(n_jobs=o["n"])
        elif k == "nested" and same:
            t.set_params(**{"estimator__" + n: v for n, v in o["spec"]["params"].items()})
        elif k == "inner" and same:
            t.estimator.set_params(**o["spec"]["params"])
        elif k in ("clone", "deepcopy", "pickle"):
            objs.append({"clone": clone, "deepcopy": copy.deepcopy,
                         "pickle": lambda e: pickle.loads(pickle.dumps(e))}[k](t))
            ctx.fault("copy:" + k)
        elif k == "transform":
            t.set_params(n_jobs=1)
            E.check_same(go(t, o), want[i], "other-parameters-in-effect")
            t.set_params(n_jobs=m["n"])
        for e, mm in zip(objs, ms):
            if e.n_jobs != mm["n"] or type(e.estimator).__name__ != mm["spec"]["cls"]:
                raise Violation("wrong-params", repr(e.get_params(deep=False)))
            report(e.estimator, mm["spec"]["params"], mm["spec"]["cls"])
        past.append((k, o["i"] % len(objs)))
        ctx.event(i, k, len(objs))
    ctx.nontrivial = any(k != "transform" for k, _ in past)
    ctx.sig("transformer", plan["feat"], past)


def execute(plan, ctx):
    with Clock(tick=1e-6):
        {True: online, False: batch, None: transformer}[plan["online"]](plan, ctx)


def report(est, want, cls):
    got = est.get_params()
    for k, v in want.items():
        if k not in got or not zoo.close(got[k], v) or type(got[k]) is not type(v) and \
                not isinstance(v, (int, float)):
            raise Violation("wrong-params", "%s reports %s=%r, set to %r" % (
                cls, k, got.get(k), v))
    if cls == "KroneckerStudent":
        metric(est, want)


def metric(est, P):
    """The geometry a descent would use is that of the reported parameters."""
    from robuststats.models.manifolds import KroneckerHermitianPositiveElliptical as K
    m = getattr(est, "manifold", None)
    if not hasattr(m, "inner"):
        return
    a, b = P["a"], P["b"]
    rs = np.random.RandomState(a + 10 * b)
    x, u = [[zoo.spd(rs, n, True) for n in (a, b)] for _ in (0, 1)]
    want = K(a, b, (P["df"] + a * b) / (P["df"] + a * b + 1)).inner(x, u, u)
    try:
        got = m.inner(x, u, u)
    except ValueError as e:
        raise Violation("other-parameters-in-effect", "metric: %s" % e) from e
    if not zoo.close(got, want):
        raise Violation("other-parameters-in-effect", "metric %r instead of %r" % (got, want))


def step(i, o, objs, spec0, plan):
    """The model: parameters of every object after the operation and, for a
    fit, what it must learn. Returns the fit to check or None."""
    m = objs[o["i"] % len(objs)]
    k = o["op"]
    if k in ("set", "attr"):
        m.update(o["spec"]["params"])
    elif k == "one":
        P = o["spec"]["params"]
        n = sorted(set(P) - {"a", "b"})     # sizes only change together
        n = n[o["s"] % len(n)]
        m[n] = P[n]
    elif k == "method" and "Tyler" in spec0["cls"]:
        m["method"] = "natural gradient" if m.get("method") != "natural gradient" \
            else "fixed-point"
    elif k == "swapab" and spec0.get("p"):
        m["a"], m["b"] = m["b"], m["a"]
    elif k in ("clone", "deepcopy", "pickle"):
        objs.append(dict(m))
    elif k == "fit":
        spec = dict(spec0, params=dict(m))
        return spec, usable(spec, plan["fits"][o["fit"]])
    return None


def batch(plan, ctx):
    from sklearn.base import clone
    spec0 = plan["spec"]
    models, want = [dict(spec0["params"])], []
    for i, o in enumerate(plan["ops"]):
        w = step(i, o, models, spec0, plan)
        want.append(None if w is None else w + (E.alone(*w),))
    models = [dict(spec0["params"])]
    objs = [zoo.build(spec0)]
    snaps = [zoo.learned(objs[0])]
    past = []
    for i, o in enumerate(plan["ops"]):
        j = o["i"] % len(objs)
        est, k = objs[j], o["op"]
        before = dict(models[j])
        step(i, o, models, spec0, plan)
        m = models[j]
        changed = {n: v for n, v in m.items() if n not in before or before[n] != v}
        if k in ("set", "one", "method", "swapab"):
            r = est.set_params(**(o["spec"]["params"] if k == "set" else changed))
            if r is not est:
                raise Violation("set_params-returns-other", repr(type(r)))
        elif k == "attr":
            for n, v in o["spec"]["params"].items():
                setattr(est, n, v)
        elif k == "badset":
            try:
                est.set_params(no_such_parameter=1)
                raise Violation("bad-parameter-accepted", spec0["cls"])
            except ValueError:
                ctx.fault("bad_parameter")
        elif k == "badfit":
            spec = dict(spec0, params=dict(m))
            X, kw = E.bad_call(o["s"], spec, usable(spec, plan["fits"][o["fit"]]), o["kind"])
            try:
                est.fit(X, **kw)
            except Exception:
                ctx.fault("bad_input")
            snaps[j] = zoo.learned(est)
        elif k in ("clone", "deepcopy", "pickle"):
            new = {"clone": clone, "deepcopy": copy.deepcopy,
                   "pickle": lambda e: pickle.loads(pickle.dumps(e))}[k](est)
            if type(new) is not type(est):
                raise Violation("copy-of-other-type", repr(type(new)))
            objs.append(new)
            fresh = zoo.learned(zoo.build(dict(spec0, params=dict(m))))
            E.check_same(zoo.learned(new), fresh if k == "clone" else snaps[j],
                         "copy-differs", 0.0)
            snaps.append(zoo.learned(new))
            ctx.fault("copy:" + k)
        elif k == "write":
            # its holder overwrites what one of the objects learned
            for n in zoo.LEARNED:
                a = vars(est).get(n)
                if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                    a *= 1.5
                    ctx.fault("holder_writes")
            snaps[j] = zoo.learned(est)
        elif k == "fit":
            spec, fit, ref = want[i]
            est.fit(zoo.make_data(fit["data"]), **E.fit_kw(spec, fit))
            E.check_same(zoo.learned(est), ref, "other-parameters-in-effect")
            snaps[j] = zoo.learned(est)
            E.promised(spec, fit, snaps[j])
        past.append((k, j))
        # every object still is what its own history made it
        for n, (e, mm, s) in enumerate(zip(objs, models, snaps)):
            report(e, mm, spec0["cls"])
            if n != j or k not in ("fit", "badfit", "write"):
                E.check_same(zoo.learned(e), s, "copies-interfere" if n != j
                             else "parameters-change-estimate", 0.0)
        ctx.event(i, k, j, len(objs))
    if any(k in ("set", "attr", "one", "method", "swapab", "clone", "deepcopy", "pickle", "write")
           for k, _ in past):
        ctx.nontrivial = True
        ctx.sig(spec0["cls"], past)


# ---------------------------------------------------------------------------
CONV = {"first": O.first, "total": O.total}


def online(plan, ctx):
    from sklearn.base import clone

    def go(o, P):
        e = new_online(plan, P["lrate"])
        e.estimatetocov = CONV[P["conv"]]
        X, init = stream(plan, o)
        e.fit(X, init=init, lr_update=o["upd"])
        return online_state(e)
    models = [{"lrate": .1, "conv": "first"}]
    want = []
    for o in plan["ops"]:
        m = models[o["i"] % len(models)]
        if o["op"] in ("set", "attr"):
            m.update(lrate=o["lr"], conv=o["conv"])
        elif o["op"] in ("clone", "deepcopy"):
            models.append(dict(m))
        want.append(E.pristine(lambda: go(o, m)) if o["op"] == "fit" else None)
    models = [{"lrate": .1, "conv": "first"}]
    objs, snaps, past, counts = [new_online(plan, .1)], [None], [], [0]
    for i, o in enumerate(plan["ops"]):
        j, k = o["i"] % len(objs), o["op"]
        est, m = objs[j], models[j]
        X, init = stream(plan, o)
        if k == "set":
            m.update(lrate=o["lr"], conv=o["conv"])
            est.set_params(lrate=o["lr"], estimatetocov=CONV[o["conv"]])
        elif k == "attr":
            m.update(lrate=o["lr"], conv=o["conv"])
            est.lrate, est.estimatetocov = o["lr"], CONV[o["conv"]]
        elif k in ("clone", "deepcopy"):
            models.append(dict(m))
            new = clone(est) if k == "clone" else copy.deepcopy(est)
            counts.append(0 if k == "clone" else counts[j])
            objs.append(new)
            if k == "clone" and new.estimate_ is not None:
                raise Violation("copy-differs", "a clone is already fitted")
            snaps.append(None if k == "clone" or snaps[j] is None else online_state(new))
            ctx.fault("copy:" + k)
        elif k == "fit":
            est.fit(X, init=init, lr_update=o["upd"])
            E.check_same(online_state(est), want[i], "other-parameters-in-effect")
            snaps[j], counts[j] = online_state(est), len(X)
        elif k == "write" and est.estimate_ is not None:
            # its holder overwrites what one of the objects answers with
            for a in (est.covariance_, est.precision_):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a *= 1.5
                    ctx.fault("holder_writes")
            snaps[j] = online_state(est)
        elif k == "update" and est.estimate_ is not None:
            before, at = online_state(est)["e"], est.estimate_
            t = m["lrate"] / (counts[j] + 1) if o["upd"][0] == "i" else m["lrate"]
            est.update(X[:1], o["upd"])
            counts[j] += 1
            snaps[j] = online_state(est)
            step = est.rgrad(X[:1], before if isinstance(at, list) else before[0])
            if not isinstance(at, list):
                step = [step]
            for a, b, u in zip(snaps[j]["e"], before, step):
                if not zoo.close(a, est.manifold.retr(b, t * u), 1e-9):
                    raise Violation("other-parameters-in-effect", "update %d, rate %r, %s" % (
                        counts[j], m["lrate"], o["upd"]))
        for e, mm, s in zip(objs, models, snaps):
            g = e.get_params()
            if g.get("lrate") != mm["lrate"] or g.get("estimatetocov") is not CONV[mm["conv"]]:
                raise Violation("wrong-params", "%r, set to %r" % (g, mm))
            if s is not None:
                E.check_same(online_state(e), s, "copies-interfere", 0.0)
        past.append((k, j))
        ctx.event(i, k, j)
    ctx.nontrivial = any(k not in ("fit", "update") for k, _ in past)
    ctx.sig("online", past)
