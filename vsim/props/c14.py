"""C14 gradient-based estimation survives clock faults and keeps its promises."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E
from .c09 import image

RUNS = {"quick": 900, "thorough": 20000}
RULE = ("one per (estimator, kind of start, number of solver starts, which clock "
        "faults fired in which quarter of the run, outcome) of runs with a clock fault")
REAL = E.REAL
STUB = ("clock (virtual, with jumps at chosen reads)",
        "the job scheduler that resumes an estimation cut by its time limit")
ASSUMES = ("Data are in general position.",
           "The time limit of pymanopt's solvers is 1000 s of wall clock.")
SHRINK_LISTS = ("slices", "jumps")
SHRINK_INTS = {"n": 12}
BUDGET = 12_000_000
LIMIT = 1000.0
NEAR = 1e-2


def gen(rng, tier):
    cls = rng.choice(("TylerShapeMatrix",) * 5 + ("ComplexTylerShapeMatrix",) * 4
                     + ("KroneckerStudent",) * 3)
    if cls == "KroneckerStudent":
        ab = rng.choice([(2, 2), (1, 2), (2, 1), (3, 2), (2, 3)])
        spec = {"cls": cls, "p": ab[0] * ab[1],
                "params": {"a": ab[0], "b": ab[1],
                           "df": rng.choice([1.5, 2.0, 3.0, 6.0, 20.0]),
                           "assume_centered": rng.random() < .7}}
        p = spec["p"]
        start = rng.choice(["none", "none", "spd", "given"])
    else:
        spec = {"cls": cls, "params": {"method": "natural gradient",
                                       "normalisation": rng.choice(zoo.NORMS)}}
        p = rng.choice([2, 2, 3, 4])
        start = rng.choice(["none", "eye", "spd", "spd", "given"])
    d = zoo.draw_data(rng, cls, p=p, n=rng.randint(4 * p + 4, 6 * p + 12)
                      * rng.choice([1] * 6 + [2, 5]))
    if rng.random() < .3:
        d["odd"] = "faint"
    slices = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        jumps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            big = rng.random() < .45
            jumps.append([rng.choice([rng.randrange(3), rng.randrange(12),
                                      rng.randrange(60), rng.randrange(200)]),
                          rng.choice([1001.0, 3600.0, 1e7, 1e9]) if big else
                          rng.choice([.5, 60.0, 110.0, 500.0, 900.0, -1.0, -3600.0, -1e8])])
        slices.append({"jumps": jumps, "tick": rng.choice([0.0, 1e-6, 1e-3, .05, 2.0]),
                       "where": rng.choice(["same", "new", "pickled"])})
    return {"spec": spec, "data": d, "start": start, "s": rng.randrange(10 ** 6),
            "init_scale": rng.choice([1.0, 1.0, .02, 40.0]), "slices": slices}


class Log(Clock):
    """Remembers how far the wall clock has gone up between any two reads."""

    def __init__(self, **k):
        super().__init__(**k)
        self.low = None
        self.rise = 0.0
        self.when = []

    def time(self):
        before = self.fired
        t = super().time()
        if self.fired > before:
            self.when.append(self.reads)
        self.low = t if self.low is None else min(self.low, t)
        self.rise = max(self.rise, t - self.low)
        return t


# ---------------------------------------------------------------------------
# costs and defining equations
# ---------------------------------------------------------------------------
def forms(X, c):
    return np.real(np.einsum("ni,ij,nj->n", X.conj(), np.linalg.inv(c), X))


def cost(spec, X, c):
    """Negative log-likelihood per sample, up to constants and the data's scale."""
    n, p = X.shape
    logdet = np.linalg.slogdet(c)[1]
    q = forms(X, c)
    if "Tyler" in spec["cls"]:
        return float(p * np.mean(np.log(q)) + logdet)
    df = spec["params"]["df"]
    return float(logdet + (df + 2 * p) / 2 * np.mean(np.log(1 + 2 * q / df)))


def residual(spec, X, A, B):
    a, b, df = (spec["params"][k] for k in ("a", "b", "df"))
    M = X.reshape(len(X), a, b)
    w = (df + 2 * a * b) / (df + 2 * forms(X, np.kron(A, B)))
    iA, iB = np.linalg.inv(A), np.linalg.inv(B)
    CA = np.einsum("n,nij,kj,nlk->il", w, M, iB, M.conj()) / len(X) / b
    CB = np.einsum("n,nij,ki,nkl->jl", w, M, iA, M.conj()) / len(X) / a
    return max(np.linalg.norm(CA - A) / np.linalg.norm(A),
               np.linalg.norm(CB - B) / np.linalg.norm(B))


def tyler_residual(spec, X, c):
    d = image(spec, X, c)
    u, v = c / np.trace(c), d / np.trace(d)
    return np.linalg.norm(u - v) / np.linalg.norm(u)


def start_of(plan):
    spec, d = plan["spec"], plan["data"]
    rs = np.random.RandomState(plan["s"])
    how, sc = plan["start"], plan["init_scale"]
    if how == "none":
        return None
    if spec["cls"] == "KroneckerStudent":
        a, b = spec["params"]["a"], spec["params"]["b"]
        A = zoo.spd(rs, a, True)
        A = A / np.real(np.linalg.det(A)) ** (1 / a)
        return A, zoo.spd(rs, b, True) * sc
    if how == "eye":
        return np.eye(d["p"], dtype=complex if d["cplx"] else float) * sc
    if how == "given":
        m = zoo.spd(rs, d["p"], d["cplx"])
        w, v = np.linalg.eigh(m)
        return (v * (w * np.logspace(0, 2, d["p"]))) @ v.conj().T * sc
    return zoo.spd(rs, d["p"], d["cplx"]) * sc


def matrix(spec, start):
    return np.kron(*start) if isinstance(start, tuple) else start


def slice_of(plan, est, start, sl, X):
    np.random.seed(plan["s"] % 2 ** 32)
    clock = Log(tick=sl["tick"], jumps=sl["jumps"])
    with clock:
        if start is None:
            est.fit(X)
        else:
            est.fit(X, init=copy.deepcopy(start))
    return clock


def execute(plan, ctx):
    spec, d = plan["spec"], plan["data"]
    if not plan["slices"] or d["n"] < 3 * d["p"]:
        raise InvalidPlan("nothing")
    if spec.get("p", d["p"]) != d["p"]:
        raise InvalidPlan("size")
    cls, tyler = spec["cls"], "Tyler" in spec["cls"]
    X = zoo.make_data(d)
    est = zoo.build(spec)
    start = start_of(plan)
    sigs = []
    centred = X if tyler or spec["params"]["assume_centered"] else X - X.mean(0)
    for i, sl in enumerate(plan["slices"]):
        if sl["where"] == "new":
            est = zoo.build(spec)
        elif sl["where"] == "pickled":
            est = pickle.loads(pickle.dumps(est))
        at = start
        clock = slice_of(plan, est, at, sl, X)
        ctx.sim_time += abs(clock.wall - clock.start)
        c = zoo.cov_of(est, d["p"], d["cplx"])
        name = "%s from %s, slice %d, clock jumps %s" % (
            cls, plan["start"], i, [[k, j] for k, j in sl["jumps"]])
        for _ in clock.when:
            ctx.fault("clock_jump")
        if sl["tick"] == 0:
            ctx.fault("clock_stall")
        elif sl["tick"] >= 2:
            ctx.fault("slow_iterations")
        struck = clock.rise >= LIMIT - 1
        sigs.append((struck, tuple(sorted({4 * w // max(1, clock.reads + 1)
                                           for w in clock.when})), sl["where"]))
        ctx.event(i, struck, clock.reads)
        # promises that hold whatever the clock did
        if not zoo.is_hpd(c):
            raise Violation("not-positive-definite", name)
        if tyler:
            v = zoo.norm_value(c, plan["spec"]["params"]["normalisation"])
            if abs(v - 1) > 1e-8:
                raise Violation("not-normalised", "%s: %r" % (name, v))
        else:
            if not zoo.close(np.kron(est.A_, est.B_), c, 1e-12):
                raise Violation("factors", name)
            if not (zoo.is_hpd(est.A_) and zoo.is_hpd(est.B_)):
                raise Violation("not-positive-definite", name + ": a factor")
            if abs(np.linalg.det(est.A_) - 1) > 1e-8:
                raise Violation("not-normalised", "%s: det(A) %r"
                                % (name, np.linalg.det(est.A_)))
        begin = at
        if begin is None and not tyler:
            begin = np.eye(d["p"])
        if begin is not None:
            f0, f1 = (cost(spec, centred, matrix(spec, m)) for m in (begin, c))
            if f1 > f0 + 1e-9 * (1 + abs(f0)):
                raise Violation("cost-increased", "%s: %r after %r" % (name, f1, f0))
        check_learned(est, spec, X, c, name)
        if not struck:
            # as if the clock had behaved
            calm = E.pristine(lambda: undisturbed(plan, at, X))
            E.check_same(zoo.learned(est), calm, "clock-changed-result")
            optimal(spec, centred, est, name, 5e-5 if i == 0 else NEAR)
            ctx.probe("ran_to_the_end")
        else:
            ctx.probe("time_limit_struck")
        start = (np.array(est.A_), np.array(est.B_)) if not tyler else np.array(c)
    # the estimate reached under the time limit is a good start
    calm = E.pristine(lambda: undisturbed(plan, start, X, full=True))
    optimal(spec, centred, calm, "%s resumed after %d cut runs" % (
        cls, len(plan["slices"])), NEAR)
    if any(s[1] for s in sigs):
        ctx.nontrivial = True
    ctx.sig(cls, plan["start"], tuple(sigs))


def undisturbed(plan, start, X, full=False):
    est = zoo.build(plan["spec"])
    slice_of(plan, est, start, {"tick": 1e-6, "jumps": []}, X)
    return est if full else zoo.learned(est)


def check_learned(est, spec, X, c, name):
    P = est.get_precision()
    if not zoo.close(P @ c, np.eye(len(c)), 1e-6 * np.linalg.cond(c) ** .5):
        raise Violation("precision", name)


def optimal(spec, X, est, name, tol):
    c = est.covariance_
    if "Tyler" in spec["cls"]:
        r = tyler_residual(spec, X, c)
        if r > 1e-4:
            raise Violation("not-the-estimate", "%s: residual %.2g of Tyler's equation"
                            % (name, r))
        ref = est.__class__(tol=1e-12, iter_max=3000,
                            normalisation=spec["params"]["normalisation"]).fit(X)
        if not zoo.close(c / np.trace(c), ref.covariance_ / np.trace(ref.covariance_), 2e-5):
            raise Violation("not-the-estimate", "%s: %s, fixed point %s" % (
                name, E.short(c), E.short(ref.covariance_)))
    else:
        r = residual(spec, X, est.A_, est.B_)
        if r > tol:
            raise Violation("not-stationary", "%s: residual %.2g" % (name, r))
