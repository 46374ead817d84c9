"""C08 a fit that fails leaves what was learned before, entirely."""
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E
from .c06 import usable

RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("one per (estimator, fitted before or not, kind of failure, call at which it "
        "struck, exception) of runs in which a fit failed")
REAL = E.REAL
STUB = ("allocation failures, numerical failures and interrupts (injected exceptions "
        "at calls from the package into its libraries)", "clock (virtual)")
ASSUMES = ("An interrupt is delivered on return of a call into numpy, scipy or "
           "another library.",)
SHRINK_LISTS = ("attempts",)
SHRINK_INTS = {"n": 12}

EXC = {"MemoryError": MemoryError, "LinAlgError": np.linalg.LinAlgError,
       "FloatingPointError": FloatingPointError, "OSError": OSError}


def gen(rng, tier):
    cls = rng.choice(zoo.FP * 3 + ("KroneckerEllipticalMM",) * 5
                     + ("KroneckerStudent",) * 2 + ("ComplexEmpiricalCovariance",))
    spec = E.draw_spec(rng, (cls,))
    if "iter_max" in spec["params"] and rng.random() < .7:
        spec["params"]["iter_max"] = rng.choice([1, 2, 4])
    p = rng.choice([2, 3])
    att = []
    for _ in range(rng.choice([1, 2, 3])):
        o = {"fit": E.draw_fit(rng, spec, p=rng.choice([p, p, 2, 4])),
             "kind": rng.choice(["memory", "memory", "memory", "interrupt", "interrupt",
                                 "bad", "bad", "params", "singular"]),
             "where": rng.choice([rng.random(), 1 - rng.random() * .1]),
             "tail": rng.randrange(16) if rng.random() < .35 else None,
             "s": rng.randrange(10 ** 6), "exc": rng.choice(sorted(EXC)),
             "bad": rng.choice(E.BAD)}
        att.append(o)
    return {"spec": spec, "first": E.draw_fit(rng, spec, p=p) if rng.random() < .8 else None,
            "attempts": att}


BAD_PARAMS = {"Tyler": {"method": "bcd"}, "Student": {"df": -1.0}, "Huber": {"q": None},
              "KroneckerEllipticalMM": {"a": 7}}


def bad_params(cls):
    if cls == "KroneckerStudent":
        return {"a": 7}
    for k, v in BAD_PARAMS.items():
        if k in cls:
            return v
    return None


def consistent(est, spec):
    """covariance and precision always belong to each other."""
    d = vars(est)
    if d.get("covariance_") is None:
        return
    c = np.asarray(d["covariance_"])
    P = est.get_precision()
    if np.linalg.cond(c) < 1e8 and not np.allclose(P @ c, np.eye(len(c)), atol=1e-5):
        raise Violation("torn-state", "%s: the precision is not that of the covariance"
                        % spec["cls"])
    if "A_" in d and not zoo.close(np.kron(d["A_"], d["B_"]), c, 1e-9):
        raise Violation("torn-state", "the factors are not those of the covariance")


def execute(plan, ctx):
    with Clock(tick=1e-6):
        run(plan, ctx)


def run(plan, ctx):
    spec = plan["spec"]
    cls = spec["cls"]
    est = zoo.build(spec)
    if plan["first"]:
        f = usable(spec, plan["first"])
        E.run_fit(est, spec, f)
    probe = zoo.make_data(dict((plan["first"] or plan["attempts"][0]["fit"])["data"], n=5)) \
        if plan["attempts"] else None
    for i, o in enumerate(plan["attempts"]):
        fit = usable(spec, o["fit"])
        X, kw = zoo.make_data(fit["data"]), E.fit_kw(spec, fit)
        before = zoo.learned(est)
        p0 = zoo.params(est)
        seen = answers(est, spec, probe) if plan["first"] else None
        flt, exc, saved, whole = None, None, None, None
        if o["kind"] in ("memory", "interrupt"):
            mk = (lambda at: CallFault(at, EXC[o["exc"]])) if o["kind"] == "memory" \
                else (lambda at: InterruptAt(at, libraries=True))
            dry = mk(None)
            tmp = zoo.build(spec)
            ctx.mon.set_fault(dry)
            try:
                tmp.fit(X, **kw)
            finally:
                ctx.mon.set_fault(None)
            whole = zoo.learned(tmp)
            at = int(o["where"] * max(1, dry.n))
            if o["tail"] is not None:       # while the results are stored
                at = dry.n - 1 - o["tail"]
            flt = mk(max(0, min(dry.n - 1, at)))
        elif o["kind"] == "bad":
            X, kw = E.bad_call(o["s"], spec, fit, o["bad"])
        elif o["kind"] == "singular":
            # as many equal samples as one likes do not determine a matrix
            X = np.repeat(X[:1], len(X), axis=0)
        elif o["kind"] == "params" and bad_params(cls):
            saved = {k: p0[k] for k in bad_params(cls)}
            est.set_params(**bad_params(cls))
        ctx.mon.set_fault(flt)
        try:
            est.fit(X, **kw)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        finally:
            ctx.mon.set_fault(None)
        if saved:
            est.set_params(**saved)
        if exc is not None and o["kind"] in ("memory", "interrupt") and flt.fired is None:
            raise exc
        if exc is None and flt is not None and flt.fired and o["kind"] == "interrupt":
            raise Violation("fault-hidden", "%s swallowed an interrupt" % cls)
        if exc is None and whole is not None:
            E.check_same(zoo.learned(est), whole, "fault-hidden", 1e-6)
        name = "%s %s at %s" % (cls, o["kind"] if o["kind"] != "bad" else o["bad"],
                                flt.fired if flt else "input")
        ctx.event(i, name, type(exc).__name__)
        if exc is not None:
            ctx.fault(o["kind"])
            ctx.sig(cls, spec["params"].get("method"), bool(plan["first"]), o["kind"],
                    o["bad"] if o["kind"] == "bad" else None,
                    flt.fired if flt else None, type(exc).__name__)
            k = zoo.exact(zoo.learned(est), before)
            if k is not None:
                raise Violation("failed-fit-changes", "%s: %s" % (name, k))
            if seen is not None:
                for a, b in zip(answers(est, spec, probe), seen):
                    if not zoo.close(a, b):
                        raise Violation("failed-fit-changes", "%s: an answer" % name)
            k = zoo.same(zoo.params(est), p0)
            if k is not None:
                raise Violation("failed-fit-changes-params", "%s: %s" % (name, k))
        elif o["kind"] == "bad":
            raise Violation("fault-hidden", "%s did not raise" % name)
        elif o["kind"] == "singular":
            k = zoo.exact(zoo.learned(est), before)
            if k is None:
                raise Violation("fault-hidden", "%s: a fit that learned nothing did not "
                                "raise" % name)
            ctx.probe("singular_fit_succeeded")
            return
        consistent(est, spec)
    # the object is not damaged: a good fit learns what a fresh object learns
    if plan["attempts"]:
        f = usable(spec, plan["attempts"][-1]["fit"])
        E.run_fit(est, spec, f)
        E.check_same(zoo.learned(est), E.reference(spec, f), "damaged-by-failure")


def answers(est, spec, X):
    return [E.query(est, spec, q, X) for q in ("precision", "transform", "mahalanobis")
            if X.shape[1] == len(est.covariance_) or q != "mahalanobis"]
