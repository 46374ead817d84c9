"""C19 faulty sample channels are tolerated as robust estimation promises."""
import numpy as np
from scipy.stats import chi2

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E

RUNS = {"quick": 4500, "thorough": 60000}
RULE = ("one per (estimator, starting point given or not, few steps or converged, kinds of "
        "channel fault met in order, object reused or not) of runs with a channel fault")
REAL = E.REAL
STUB = ("sensors, the channel between them and the estimator",
        "clock (virtual)")
ASSUMES = ("Gains stay between 1e-30 and 1e30 (1e-3 and 1e3 when the estimator starts from "
           "the samples themselves): beyond, products of samples overflow.",
           "A linear change of the sensors has condition number below 100.",
           "At convergence: within 1e-6 of each other at a requested precision of 1e-11.")
SHRINK_LISTS = ("faults",)
SHRINK_INTS = {"n": 12, "steps": 1}



def scale_free(cls):
    return "Tyler" in cls or cls == "KroneckerEllipticalMM"


def kinds(cls, P, mode, init):
    k = ["order", "phase", "dup", "bad", "dead"]
    if zoo.is_complex(cls):
        k.append("conj")
    if scale_free(cls) and not ("Tyler" in cls and mode == "steps" and init is None):
        k += ["gain", "gain"]   # otherwise the start itself depends on the gains
    if cls != "KroneckerEllipticalMM" or mode == "converged":
        k += ["mix", "mix"]
    if cls in zoo.FP:
        k += ["outlier", "outlier", "outlier"]
    if cls in zoo.EMP and not P["assume_centered"]:
        k = [x for x in k if x not in ("phase",)] + ["offset", "offset"]
    return k


def gen(rng, tier):
    cls = rng.choice(zoo.FP * 6 + zoo.EMP * 2 + ("KroneckerEllipticalMM",) * 2
                     + ("KroneckerStudent",))
    ab = rng.choice([(2, 2), (1, 2), (2, 1), (3, 2), (2, 3)])
    spec = {"cls": cls, "params": zoo.draw_params(rng, cls, ab=ab)}
    mode = rng.choice(["steps", "steps", "converged"])
    p = ab[0] * ab[1] if cls in zoo.KRON else rng.choice([1, 2, 2, 3, 4, 5])
    if p == 1 and cls in zoo.FP and mode == "converged":
        p = 2
    d = zoo.draw_data(rng, cls, p=p)
    if cls in zoo.KRON:
        d["n"] = rng.randint(3 * p, 4 * p + 4)
        d["scale"] = 1.0
    plan = {"spec": spec, "data": d, "mode": mode, "ab": list(ab),
            "steps": rng.choice([1, 1, 2, 3, 6]), "reuse": rng.random() < .5,
            "init": rng.randrange(10 ** 6) if cls in zoo.FP and rng.random() < .6 else None}
    if "Tyler" in cls and rng.random() < .04:
        spec["params"]["method"] = "natural gradient"
        plan.update(mode="converged", init=rng.randrange(10 ** 6))
        d.update(n=14, p=2, scale=1.0, dist="gauss")
    ks = kinds(cls, spec["params"], plan["mode"], plan["init"])
    if E.slow(spec):
        ks = ["order", "dup", "bad"] + (["gain", "phase"] if "Tyler" in cls else [])
    plan["faults"] = [{"kind": rng.choice(ks), "s": rng.randrange(10 ** 6),
                       "big": rng.random() < .5, "at": rng.random(),
                       "what": rng.choice(["nan", "inf", "-inf"])}
                      for _ in range(rng.choice([1, 2, 3, 4]) if not E.slow(spec) else 1)]
    return plan


class Channel:
    """What the estimator receives and how the truth it describes was changed."""

    def __init__(self, plan):
        self.plan = plan
        self.cls = plan["spec"]["cls"]
        self.X = zoo.make_data(plan["data"])
        self.cplx = zoo.is_complex(self.cls)
        self.T = np.eye(self.X.shape[1])
        self.conj = False
        self.shift = np.zeros(self.X.shape[1])

    def apply(self, f):
        rs = np.random.RandomState(f["s"])
        X, k = self.X, f["kind"]
        n, p = X.shape
        if k == "order":
            self.X = X[rs.permutation(n)]
        elif k == "dup" and n < 150:
            self.X = np.concatenate([X] * rs.randint(2, 4))
            self.X = self.X[rs.permutation(len(self.X))]
        elif k == "phase":
            ph = np.exp(2j * np.pi * rs.rand(n, 1)) if self.cplx \
                else rs.choice([-1., 1.], (n, 1))
            self.X = X * ph
        elif k == "gain":
            top = 30 if self.plan["init"] is not None \
                or self.cls == "KroneckerEllipticalMM" else 2
            if self.cls == "KroneckerEllipticalMM":
                top = 6
            self.X = X * 10. ** rs.uniform(-top if f["big"] else -1,
                                           top if f["big"] else 1, (n, 1))
        elif k == "conj":
            self.X, self.T, self.conj = X.conj(), self.T.conj(), not self.conj
            self.shift = np.conj(self.shift)
        elif k == "mix":
            if self.cls in zoo.KRON:
                a, b = self.plan["ab"]
                M = np.kron(self.matrix(rs, a), self.matrix(rs, b))
            else:
                M = self.matrix(rs, p)
            self.X, self.T = X @ M.T, M @ self.T
            self.shift = M @ self.shift
        elif k == "offset":
            v = rs.randn(p) * 3 + (1j * rs.randn(p) if self.cplx else 0)
            self.X, self.shift = X + v, self.shift + v

    def matrix(self, rs, p):
        while True:
            m = rs.randn(p, p) + (1j * rs.randn(p, p) if self.cplx else 0)
            if np.linalg.cond(m) < 10:
                return m * 10 ** rs.uniform(-1, 1)

    def moved(self, S):
        """A matrix of the original sensors, seen through the changes."""
        S = np.conj(S) if self.conj else S
        return self.T @ S @ self.T.conj().T


def estimator(plan):
    P = dict(plan["spec"]["params"])
    cls = plan["spec"]["cls"]
    if cls in zoo.FP:
        if plan["mode"] == "steps":
            P.update(tol=0., iter_max=plan["steps"])
        else:
            P.update(tol=1e-11, iter_max=3000)
    elif cls == "KroneckerEllipticalMM":
        if plan["mode"] == "steps":
            P.update(tol=0., iter_max=min(plan["steps"], 3))
        else:
            P.update(tol=1e-10, iter_max=600)
    return zoo.build({"cls": cls, "params": P})


def start(plan, ch):
    if plan["init"] is None:
        return {}
    rs = np.random.RandomState(plan["init"])
    return {"init": ch.moved(zoo.spd(rs, plan["data"]["p"], ch.cplx))}


def kron_residual(est, X, a, b):
    """Distance from a stationary point of the structured scale-free likelihood."""
    def isqrt(m):
        w, v = np.linalg.eigh((m + m.conj().T) / 2)
        return (v / np.sqrt(w)) @ v.conj().T
    Y = X @ np.kron(isqrt(est.A_), isqrt(est.B_)).T
    Y = Y / np.sqrt(np.mean(np.abs(Y) ** 2, axis=1))[:, None]
    V = (Y.T @ Y.conj() / len(Y)).reshape(a, b, a, b)
    return max(np.max(np.abs(np.einsum("ijkj->ik", V) / b - np.eye(a))),
               np.max(np.abs(np.einsum("ijil->jl", V) / a - np.eye(b))))


def settled(plan, est, X):
    """The estimate is that of the criterion, not of the path."""
    if plan["mode"] == "steps" or plan["spec"]["cls"] in zoo.EMP:
        return True
    if E.slow(plan["spec"]):
        return True
    if plan["spec"]["cls"] == "KroneckerEllipticalMM":
        return kron_residual(est, X, *plan["ab"]) < 1e-8
    return est.err_ <= 1e-11


def shape(c):
    return c / np.real(np.trace(c)) * len(c)


def execute(plan, ctx):
    with Clock(tick=1e-6):
        run(plan, ctx)


def run(plan, ctx):
    cls = plan["spec"]["cls"]
    ch = Channel(plan)
    if plan["data"]["n"] < 3 * plan["data"]["p"]:
        raise InvalidPlan("too few samples")
    est = estimator(plan)
    est.fit(ch.X, **start(plan, ch))
    S0 = zoo.cov_of(est, plan["data"]["p"], ch.cplx).copy()
    L0 = np.array(est.location_) if cls in zoo.EMP else None
    ok0 = settled(plan, est, ch.X)
    met = []
    for f in plan["faults"]:
        name = "%s after %s" % (f["kind"], " ".join(met))
        ctx.fault(f["kind"])
        met.append(f["kind"])
        ctx.event(f["kind"], f["s"], len(ch.X))
        if f["kind"] == "bad":
            refused(plan, ctx, est, ch, f, name)
            continue
        if f["kind"] == "dead":
            dead(plan, ctx, est, ch, f, name)
            continue
        if f["kind"] == "outlier":
            outlier(plan, ctx, ch, f, name)
            continue
        ch.apply(f)
        e = est if plan["reuse"] else estimator(plan)
        e.fit(ch.X, **start(plan, ch))
        got = zoo.cov_of(e, plan["data"]["p"], ch.cplx)
        if not (ok0 and settled(plan, e, ch.X)):
            ctx.probe("not_converged")
            continue
        compare(plan, ch, got, S0, name)
        if L0 is not None:
            want = ch.T @ (np.conj(L0) if ch.conj else L0) + ch.shift
            if plan["spec"]["params"]["assume_centered"]:
                want = np.zeros(len(L0))
            if not zoo.close(np.ravel(e.location_), want, 1e-9,
                             1e-9 * np.max(np.abs(ch.X))):
                raise Violation("location-not-equivariant", name)
        ctx.probe("invariance_checked")
    ctx.sig(cls, plan["init"] is not None, plan["mode"], met, plan["reuse"],
            plan["spec"]["params"].get("method"))


def compare(plan, ch, got, S0, name):
    cls = plan["spec"]["cls"]
    want = ch.moved(S0)
    tol = 1e-8 if plan["mode"] == "steps" or cls in zoo.EMP else 1e-6
    if E.slow(plan["spec"]):
        tol = 5e-2
    # numbers lost by cancellation when a bias is taken away
    big = np.max(np.abs(ch.shift)) ** 2 * 1e-10
    if scale_free(cls):
        how = plan["spec"]["params"].get("normalisation", "None")
        if how != "None" and abs(zoo.norm_value(got, how) - 1) > 1e-8:
            raise Violation("not-normalised", "%s: %s" % (name, how))
        if not (how == "None" and plan["mode"] == "steps" and plan["init"] is not None):
            got, want = shape(got), shape(want)
    # entries are compared where they stand: relative to their own channel
    s = np.sqrt(np.real(np.diag(want)))
    err = np.max(np.abs((got - want) / np.outer(s, s)))
    err -= big / np.min(s) ** 2
    c = np.linalg.cond(want / np.outer(s, s))
    if err > tol * max(1., 1e-3 * c):
        raise Violation("not-invariant:" + name.split()[0],
                        "%s %s: relative difference %.2e" % (cls, name, err))


def refused(plan, ctx, est, ch, f, name):
    """Non-finite samples are an error, and nothing is learned from them."""
    X = np.array(ch.X)
    rs = np.random.RandomState(f["s"])
    v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[f["what"]]
    i, j = int(f["at"] * len(X)), rs.randint(X.shape[1])
    if ch.cplx and rs.rand() < .5:
        X[i, j] = complex(X[i, j].real, v)
    elif ch.cplx:
        X[i, j] = complex(v, X[i, j].imag)
    else:
        X[i, j] = v
    if f["big"]:
        X[i, :] = v
    before = zoo.learned(est)
    try:
        est.fit(X, **start(plan, ch))
    except Exception:
        ctx.probe("refused")
    else:
        raise Violation("nonfinite-accepted", "%s learned from a sample with %s"
                        % (plan["spec"]["cls"], f["what"]))
    k = zoo.exact(zoo.learned(est), before)
    # sklearn's own class stores the mean before it validates the covariance
    if k is not None and not (plan["spec"]["cls"] == "RealEmpiricalCovariance"
                              and k == "location_"):
        raise Violation("refused-but-learned", "%s %s: %s" % (
            plan["spec"]["cls"], name, k))


def dead(plan, ctx, est, ch, f, name):
    """A sensor array that delivered nothing at one time: refused or harmless."""
    X = np.array(ch.X)
    X[int(f["at"] * len(X))] = 0
    e = estimator(plan)
    before = None
    if plan["reuse"]:
        e = est
        before = zoo.learned(est)
    try:
        e.fit(X, **start(plan, ch))
    except Exception as x:
        if not scale_free(plan["spec"]["cls"]):
            raise
        ctx.probe("dead_refused")
        if before is not None:
            k = zoo.exact(zoo.learned(e), before)
            if k is not None:
                raise Violation("refused-but-learned", "%s: %s" % (name, k))
        elif hasattr(e, "covariance_"):
            raise Violation("refused-but-learned", "%s by a new estimator" % name)
        return
    c = zoo.cov_of(e, plan["data"]["p"], ch.cplx)
    if not np.all(np.isfinite(c)):
        raise Violation("nonfinite-learned", "%s from an empty sample"
                        % plan["spec"]["cls"])
    if not scale_free(plan["spec"]["cls"]):
        w = e.get_precision()
        if np.linalg.cond(c) < 1e8 and not np.allclose(w @ c, np.eye(len(c)), atol=1e-6):
            raise Violation("torn-state", name)


def share(spec, p):
    """Samples per corrupted one that the estimator needs to resist."""
    P = spec["params"]
    if "Student" in spec["cls"]:
        return P["df"] + 2 * p
    if "Huber" in spec["cls"]:
        return 1.5 * chi2.ppf(P["q"], 2 * p) + p
    return 2 * p


def outlier(plan, ctx, ch, f, name):
    """However large one sample gets, the estimate stops following it."""
    if plan["init"] is None:
        # the sample covariance, the start, is dominated by the outlier
        rs = [10 ** 2., 10 ** 3.] if plan["mode"] == "converged" else None
    else:
        rs = [10 ** 6., 10 ** 9., 10 ** 12.]
    if rs is None:
        ctx.probe("outlier_skipped")
        return
    i = int(f["at"] * len(ch.X))
    out = []
    X0 = ch.X
    if plan["mode"] == "converged":
        # one sample among too few is more than the share any of these can stand
        need = 3 * share(plan["spec"], plan["data"]["p"])
        X0 = np.concatenate([X0] * int(1 + need / len(X0)))
    e = estimator(plan)
    for r in rs:
        X = np.array(X0)
        X[i] *= r / np.max(np.abs(X[i])) * np.max(np.abs(np.delete(X, i, 0)))
        e.fit(X, **start(plan, ch))
        c = zoo.cov_of(e, plan["data"]["p"], ch.cplx).copy()
        # without a start, Tyler's scale is that of the samples
        out.append(shape(c) if "Tyler" in plan["spec"]["cls"] and not plan["init"] else c)
        if not settled(plan, e, X):
            ctx.probe("not_converged")
            return
    s = np.sqrt(np.real(np.diag(out[0])))
    big = np.outer(s, s)
    tol = 1e-7 * max(1., 1e-3 * np.linalg.cond(out[0] / big))
    if plan["init"] is None:
        tol = 1e-2
    for c, r in zip(out[1:], rs[1:]):
        err = np.max(np.abs((c - out[0]) / big))
        if not err <= tol:
            raise Violation("unbounded-influence", "%s: the estimate changes by %.2e when "
                            "one sample grows from %g to %g" % (
                                plan["spec"]["cls"], err, rs[0], r))
    ctx.probe("bounded_influence")
