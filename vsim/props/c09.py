"""C09 a fixed-point estimation can be stopped at any iteration and resumed."""
import pickle

import numpy as np
from scipy.stats import chi2, multivariate_t

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E

RUNS = {"quick": 3600, "thorough": 60000}
RULE = ("one per (estimator, iteration budgets of the slices, faults and migrations "
        "between slices, how the run ended) of runs stopped at least once")
REAL = E.REAL
STUB = ("the job scheduler that stops, migrates and resumes the estimation",
        "failing calls and interrupts (injected exceptions)", "clock (virtual)")
ASSUMES = ("Data are in general position (random, more samples than features).",)
SHRINK_LISTS = ("slices",)
SHRINK_INTS = {"n": 12, "k": 0, "p": 2}


def gen(rng, tier):
    cls = rng.choice(zoo.FP * 5 + ("KroneckerEllipticalMM",) * 4)
    ab = rng.choice([(2, 2), (2, 3), (3, 2), (1, 3), (3, 1)])
    kron = cls in zoo.KRON
    P = zoo.draw_params(rng, cls, ab=ab)
    P.pop("iter_max", None)
    P["tol"] = rng.choice([1e-3, 1e-5, 1e-7, 1e-9])
    if kron:
        P["tol"] = rng.choice([1e-2, 1e-4])
    spec = {"cls": cls, "params": P}
    if kron:
        spec["p"] = ab[0] * ab[1]
    p = rng.choice([2, 3, 4, 5, 8] * 6 + [12, 20])
    fit = E.draw_fit(rng, spec, p=p, init=not kron and rng.random() < .6)
    if fit["data"].get("odd") == "weak":    # rounding is not what this is about
        del fit["data"]["odd"]
    if not kron and rng.random() < .15:
        # few samples: the recursion takes long
        fit["data"].pop("odd", None)
        fit["data"]["n"] = fit["data"]["p"] + rng.choice([2, 3])
    fit["data"]["scale"] = rng.choice([1.0, 1.0, 1e-3, 1e3])
    slices = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        slices.append({"k": rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 20 if kron else 75]),
                       "where": rng.choice(["same", "same", "new", "pickled", "function"]),
                       "fault": rng.choice([None] * 4 + ["memory", "interrupt"]),
                       "at": rng.random()})
    return {"spec": spec, "fit": fit, "slices": slices,
            "finish": rng.choice(["tol", "tight", "none"]),
            "init_scale": rng.choice([1.0, 1.0, .01, 50.0]),
            "other": rng.randrange(10 ** 6)}


# ---------------------------------------------------------------------------
# the published recursions, with plain inverses
# ---------------------------------------------------------------------------
def weights(spec, q, p, cplx):
    P = spec["params"]
    if "Tyler" in spec["cls"]:
        return p / q
    if "Student" in spec["cls"]:
        d = P["df"] / 2 if cplx else P["df"]
        return (d + p) / (d + q)
    k = 2 if cplx else 1
    lam = chi2.ppf(P["q"], k * p) / k
    beta = chi2.cdf(k * lam, k * p + 2) + lam * (1 - P["q"]) / p
    return np.minimum(1, lam / q) / beta


def image(spec, X, c):
    """One application of the defining equation's right-hand side."""
    q = np.real(np.einsum("ni,ij,nj->n", X.conj(), np.linalg.inv(c), X))
    w = weights(spec, q, X.shape[1], np.iscomplexobj(X))
    return (X.T * w) @ X.conj() / len(X)


def trajectory(spec, X, init, n, tol):
    """All iterates of an uninterrupted run: [(point, error), ...]."""
    c = X.T @ X.conj() / len(X) if init is None else init
    out = [(c, np.inf)]
    for _ in range(n):
        if out[-1][1] <= tol:
            break
        d = image(spec, X, c)
        out.append((d, np.linalg.norm(d - c) / np.linalg.norm(c)))
        c = d
    return out


def normalised(spec, c):
    how = spec["params"].get("normalisation", "None")
    return c / zoo.norm_value(c, how)


def fixed_function(spec):
    from robuststats.estimation import covariance as m
    c = "complex_" if zoo.is_complex(spec["cls"]) else ""
    return getattr(m, c + {"H": "huber_m_estimator_fixed_point",
                           "C": "student_t_mle_fixed_point",
                           "T": "tyler_shape_matrix_fixedpoint"}[
        spec["cls"].replace("Complex", "")[0]])


def call_function(spec, X, init, k):
    P = spec["params"]
    f = fixed_function(spec)
    kw = dict(init=init, tol=P["tol"], iter_max=k)
    if "Tyler" in spec["cls"]:
        return f(X, normalisation=P["normalisation"], **kw)
    return f(X, P["q" if "Huber" in spec["cls"] else "df"], **kw)


def execute(plan, ctx):
    if not plan["slices"]:
        raise InvalidPlan("nothing")
    if plan["fit"]["data"]["n"] < plan["fit"]["data"]["p"] + 2 or \
            plan["spec"]["cls"] in zoo.KRON and \
            plan["fit"]["data"]["n"] < 3 * plan["fit"]["data"]["p"]:
        raise InvalidPlan("too few samples")
    with Clock(tick=1e-6):
        (kron if plan["spec"]["cls"] in zoo.KRON else fixed)(plan, ctx)


def fixed(plan, ctx):
    spec, fit = plan["spec"], plan["fit"]
    X = zoo.make_data(fit["data"])
    init = E.init_of(spec, fit)
    if init is not None:
        init = init * plan["init_scale"]
    tol = spec["params"]["tol"]
    cls = spec["cls"]
    total = sum(s["k"] for s in plan["slices"])
    path = trajectory(spec, X, init, total, -1)
    est = zoo.build(spec)
    point, done, ended = init, 0, False
    log = []
    for i, s in enumerate(plan["slices"]):
        if s["where"] == "new":
            est = zoo.build(spec)
        elif s["where"] == "pickled":
            est = pickle.loads(pickle.dumps(est))
        if s["fault"]:
            if strike(est, spec, X, point, s, ctx):
                log.append(s["fault"])
        if s["where"] == "function":
            got, err, it = call_function(spec, X, point, s["k"])
        else:
            est.set_params(iter_max=s["k"])
            est.fit(X) if point is None else est.fit(X, init=point)
            got, err, it = est.covariance_, est.err_, est.iteration_
        # where the uninterrupted run is after as many iterations
        if not 0 <= it <= s["k"]:
            raise Violation("budget-exceeded", "%s: %s iterations of %d" % (cls, it, s["k"]))
        want_it = 0
        while want_it < s["k"]:
            want_it += 1
            if near(path[done + want_it][1], tol, slack(path[done + want_it][0])):
                ctx.probe("error_equals_tolerance")
                return
            if path[done + want_it][1] <= tol:
                break
        if it != want_it:
            raise Violation("wrong-iteration-count", "%s: slice %d reports %s of %d, "
                            "the run takes %d" % (cls, i, it, s["k"], want_it))
        done += want_it
        c, e = path[done]
        if not want_it:
            e = np.inf
        room = slack(c)
        if not zoo.close(got, normalised(spec, c), 1e-7 + room):
            raise Violation("resumed-elsewhere", "%s after %d iterations: %s instead of %s"
                            % (cls, done, E.short(np.asarray(got)), E.short(normalised(spec, c))))
        if not (e == err or abs(err - e) <= 1e-6 * e + room):
            raise Violation("wrong-error", "%s after %d iterations: %r instead of %r" % (
                cls, done, err, e))
        ended = e <= tol
        point = np.array(got)
        log.append((s["where"], s["k"], it))
        ctx.event(i, s["where"], s["k"], it)
    ctx.nontrivial = True
    ctx.sig(cls, log, plan["finish"], ended)
    ctx.fault("stopped", len(plan["slices"]))
    if plan["finish"] == "none":
        return
    # no more interruptions: the estimation ends, at the solution
    end = tol if plan["finish"] == "tol" else 1e-11
    est = zoo.build(spec)
    est.set_params(tol=end, iter_max=20000)
    est.fit(X, init=point)
    if not (est.err_ <= end and est.iteration_ < 20000):
        raise Violation("does-not-converge", "%s: error %r after %r iterations" % (
            cls, est.err_, est.iteration_))
    ctx.probe("converged")
    c = est.covariance_
    r = zoo.relerr(normalised(spec, image(spec, X, c)), normalised(spec, c))
    if r > max(20 * end, 1e-8):
        raise Violation("not-a-solution", "%s: residual %g at tolerance %g" % (cls, r, end))
    if plan["finish"] != "tight":
        return
    # the solution is unique: another starting point ends there as well
    rs = np.random.RandomState(plan["other"])
    e2 = zoo.build(dict(spec, params=dict(spec["params"], tol=1e-11, iter_max=20000)))
    e2.fit(X, init=zoo.spd(rs, X.shape[1], np.iscomplexobj(X)) * 3)
    a, b = c, e2.covariance_
    if "Tyler" in cls and spec["params"]["normalisation"] == "None":
        a, b = a / np.trace(a), b / np.trace(b)
    if zoo.relerr(b, a) > 1e-4:
        raise Violation("depends-on-start", "%s: relative difference %g" % (
            cls, zoo.relerr(b, a)))
    if cls == "CenteredStudentMLE":
        best = likelihood(c, spec, X)
        for s in (1.01, .99):
            if likelihood(c * s, spec, X) > best:
                raise Violation("not-the-likelihood", "scale %g is better" % s)
        for _ in range(3):
            g = rs.randn(*c.shape) * .02 + np.eye(len(c))
            if likelihood(g @ c @ g.T, spec, X) > best:
                raise Violation("not-the-likelihood", "another matrix is better")


def near(a, tol, room=1e-13):
    return np.isfinite(a) and abs(a - tol) <= 1e-6 * tol + room


def slack(c):
    """How far rounding alone may take one iteration: the weights go through
    the inverse of the matrix."""
    return 1e-13 + 1000 * np.finfo(float).eps * min(np.linalg.cond(c), 1e9)


def likelihood(c, spec, X):
    return float(np.sum(multivariate_t(shape=(c + c.T) / 2,
                                       df=spec["params"]["df"]).logpdf(X)))


def strike(est, spec, X, point, s, ctx):
    """The slice is attempted once before and fails part-way: nothing of it may
    remain."""
    est.set_params(iter_max=max(1, s["k"]))
    kw = {} if point is None else {"init": point}
    flt = CallFault(int(s["at"] * 12 * max(1, s["k"])), MemoryError) \
        if s["fault"] == "memory" else InterruptAt(int(s["at"] * 14 * max(1, s["k"])),
                                                   libraries=True)
    ctx.mon.set_fault(flt)
    try:
        est.fit(X, **kw)
    except (Exception, KeyboardInterrupt):
        if flt.fired is None:
            raise
    finally:
        ctx.mon.set_fault(None)
    if flt.fired:
        ctx.fault(s["fault"])
    return flt.fired


# ---------------------------------------------------------------------------
def mm_maps(X, a, b, A, B):
    """Right-hand sides of the stationarity equations of Tyler's cost."""
    n = len(X)
    iA, iB = np.linalg.inv(A), np.linalg.inv(B)
    MA, MB = np.zeros((a, a), complex), np.zeros((b, b), complex)
    for x in X:
        M = x.reshape((b, a), order="F")
        S = (M.conj().T @ iB @ M).T
        q = np.real(np.trace(iA @ S))
        MA += a / n * S / q
        MB += b / n * (M @ iA.T @ M.conj().T) / q
    return MA, MB


def tyler_cost(X, c):
    p = X.shape[1]
    q = np.real(np.einsum("ni,ij,nj->n", X.conj(), np.linalg.inv(c), X))
    return p * np.mean(np.log(q)) + np.linalg.slogdet(c)[1]


def kron(plan, ctx):
    """No initial point can be given: every budget starts over, and the budgets
    together trace one run."""
    from robuststats.estimation.structured import estimation_cov_kronecker_MM as mm
    spec, fit = plan["spec"], plan["fit"]
    P = spec["params"]
    a, b, tol = P["a"], P["b"], P["tol"]
    X = zoo.make_data(fit["data"])
    ks = sorted({s["k"] for s in plan["slices"]} | {0, 1})
    ks = sorted(set(ks) | {k + 1 for k in ks if k < 8})
    seen = {}
    for k in ks:
        A, B, d, it = mm(X, a, b, tol=tol, iter_max=k)
        if not 0 <= it <= k:
            raise Violation("budget-exceeded", "%s of %d" % (it, k))
        seen[k] = (A, B, d, it)
        ctx.event(k, it)
    for k in ks:
        A, B, d, it = seen[k]
        if k - 1 in seen and seen[k - 1][3] == k - 1:
            A0, B0, d0, _ = seen[k - 1]
            if near(d0, tol):
                return
            if d0 <= tol:                       # already ended
                if it != k - 1 or not zoo.close(A, A0, 1e-9) or not zoo.close(B, B0, 1e-9):
                    raise Violation("wrong-iteration-count", "goes on after convergence")
                continue
            if it != k:
                raise Violation("wrong-iteration-count", "%d of %d with error %g" % (
                    it, k, d0))
            e = max(np.linalg.norm(A - A0) / np.linalg.norm(A0),
                    np.linalg.norm(B - B0) / np.linalg.norm(B0))
            if abs(e - d) > 1e-6 * e + 1e-10:
                raise Violation("wrong-error", "reports %r, moved by %r" % (d, e))
            c0, c1 = (tyler_cost(X, np.kron(*s[:2])) for s in (seen[k - 1], seen[k]))
            if c1 > c0 + 1e-8 * max(1, abs(c0)):
                raise Violation("cost-increases", "from %r to %r in iteration %d" % (
                    c0, c1, k))
    ctx.nontrivial = True
    ctx.fault("stopped", len(ks))
    ctx.sig(spec["cls"], ks, [seen[k][3] for k in ks], plan["finish"])
    # the class does what the function does, and a failed attempt leaves no trace
    k = max(ks)
    est = zoo.build(spec)
    est.set_params(iter_max=k)
    for s in plan["slices"]:
        if s["fault"]:
            flt = CallFault(int(s["at"] * 30 * max(1, k)), MemoryError)
            ctx.mon.set_fault(flt)
            try:
                est.fit(X)
            except Exception:
                if flt.fired is None:
                    raise
                ctx.fault("memory")
            finally:
                ctx.mon.set_fault(None)
    est.fit(X)
    if not zoo.close(est.covariance_, np.kron(seen[k][0], seen[k][1]), 1e-8) or \
            not zoo.close(est.A_, seen[k][0], 1e-8) or not zoo.close(est.B_, seen[k][1], 1e-8):
        raise Violation("resumed-elsewhere", "fit with %d iterations" % k)
    if plan["finish"] == "none":
        return
    end = 1e-6
    A, B, d, it = mm(X, a, b, tol=end, iter_max=3000)
    if d > end or it >= 3000:
        raise Violation("does-not-converge", "error %r after %r iterations" % (d, it))
    MA, MB = mm_maps(X, a, b, A, B)
    r = max(zoo.relerr(MA, A), zoo.relerr(MB, B))
    if r > 1e-3:
        raise Violation("not-a-solution", "residual %g" % r)
    ctx.probe("converged")
