"""Shared pieces of the estimator-level properties: fits, histories, queries."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan

ALL = zoo.FP + zoo.EMP + zoo.KRON

REAL = ("robuststats (all of it, unmodified)",
        "scikit-learn base classes and validation", "pymanopt solvers",
        "numpy, scipy, autograd")


def draw_spec(rng, classes=None, natgrad=True, ab=None, slow=True):
    """One estimator with its parameters; natural gradient is a Tyler method."""
    pool = classes or (zoo.FP * 4 + zoo.EMP * 2
                       + (("KroneckerEllipticalMM",) * 2 + ("KroneckerStudent",) if slow
                          else ()))
    cls = rng.choice(pool)
    ab = ab or rng.choice([(2, 2), (1, 2), (2, 1), (3, 2), (2, 3)])
    P = zoo.draw_params(rng, cls, ab=ab)
    if natgrad and "Tyler" in cls and rng.random() < .12:
        P["method"] = "natural gradient"
    spec = {"cls": cls, "params": P}
    if cls in zoo.KRON:
        spec["p"] = ab[0] * ab[1]
    return spec


def slow(spec):
    return zoo.gradient_spec(spec) or spec["cls"] == "KroneckerStudent"


def draw_fit(rng, spec, p=None, init=None, dtypes=False, n=None, odd=.2):
    cls = spec["cls"]
    p = spec.get("p") or p or rng.choice([2, 3, 4])
    if slow(spec):
        n = rng.randint(12, 16) if spec.get("p") is None else rng.randint(14, 20)
        if spec.get("p") is None:
            p = min(p, 3)
    d = zoo.draw_data(rng, cls, p=p, n=n, dtypes=dtypes and not slow(spec))
    if slow(spec):
        d["scale"] = 1.0
        if cls == "KroneckerStudent":
            d["scale"] = rng.choice([1.0, 2.0])
    elif rng.random() < odd and not d.get("dtype"):
        d["odd"] = rng.choice(zoo.FULL)
        if not spec.get("p") and rng.random() < .25:
            d["p"] = 1
            if d["odd"] == "repeated":
                d["odd"] = "tiny"
        elif not spec.get("p") and rng.random() < .25:
            d["p"] = rng.choice([6, 8, 11])
            d["n"] = max(d["n"], 3 * d["p"] + 2)
    f = {"data": d, "init": None}
    takes = cls in zoo.FP or cls == "KroneckerStudent"
    want = rng.random() < .45 if init is None else init
    if zoo.gradient_spec(spec):
        want = True                 # without one the start is drawn at random
    if takes and want:
        f["init"] = rng.randrange(10 ** 6)
    return f


def init_of(spec, fit):
    if fit.get("init") is None:
        return None
    rs = np.random.RandomState(fit["init"])
    d = fit["data"]
    if spec["cls"] == "KroneckerStudent":
        return (zoo.spd(rs, spec["params"]["a"], True),
                zoo.spd(rs, spec["params"]["b"], True))
    return zoo.spd(rs, d["p"], d["cplx"])


def fit_kw(spec, fit):
    i = init_of(spec, fit)
    return {} if i is None else {"init": i}


def run_fit(est, spec, fit, X=None, kw=None):
    X = zoo.make_data(fit["data"]) if X is None else X
    kw = fit_kw(spec, fit) if kw is None else kw
    return est.fit(X, **kw)


class Numeric(Exception):
    """The reference itself cannot be computed for these numbers."""


def reference(spec, fit):
    """What a fresh estimator with these parameters learns."""
    e = zoo.build(spec)
    try:
        run_fit(e, spec, fit)
    except np.linalg.LinAlgError as x:
        raise Numeric(str(x))
    return zoo.learned(e)


QUERIES = ("precision", "mahalanobis", "transform", "error_norm", "score", "score")


def query(est, spec, q, X):
    """A read-only use of a fitted estimator; returns something comparable."""
    if q == "precision":
        return np.array(est.get_precision())
    if q == "mahalanobis":
        if zoo.is_complex(spec["cls"]) or not hasattr(est, "location_"):
            return np.array(est.get_precision())
        return np.array(est.mahalanobis(X))
    if q == "transform":
        return np.array(est.transform(X))
    if q == "error_norm":
        I = np.eye(X.shape[1])
        return np.array([est.error_norm(I),
                         est.error_norm(I, norm="spectral", scaling=False),
                         est.error_norm(I, squared=False)])
    if q == "score":
        cls = spec["cls"]
        if "Huber" in cls or cls in ("KroneckerEllipticalMM", "ComplexEmpiricalCovariance",
                                     "ComplexTylerShapeMatrix"):
            return None
        if cls == "TylerShapeMatrix" and not hasattr(est, "location_"):
            return None
        return float(np.real(est.score(X)))
    raise InvalidPlan(q)


def check_same(got, want, what, rtol=1e-9):
    k = zoo.same(got, want, rtol)
    if k is not None:
        raise Violation(what, "%s: %s instead of %s" % (
            k, short(got.get(k, "absent")), short(want.get(k, "absent"))))


def short(x):
    if isinstance(x, np.ndarray):
        return "%s%s" % (x.shape, np.array2string(x.ravel()[:4], precision=6))
    return repr(x)[:120]


# ---------------------------------------------------------------------------
# what the parameters promise of a fit, computed without the package
# ---------------------------------------------------------------------------
def promised(spec, fit, got):
    """The learned state is that of the reported parameters: the published
    recursion with these, its stopping rule, the stored precision."""
    from . import c09
    P, cls, what = spec["params"], spec["cls"], "reported-parameters-not-in-effect"
    X = zoo.make_data(fit["data"])
    if X.dtype.kind in "iu":
        X = X.astype(float)
    c = got.get("covariance_")
    plain = not fit["data"].get("odd") and X.dtype.itemsize >= 8
    rtol = 1e-6
    if P.get("store_precision", True):
        if got.get("precision_") is None:
            raise Violation(what, "%s: no precision is stored" % cls)
        if plain and zoo.relerr(np.linalg.inv(c), got["precision_"]) > 1e-5:
            raise Violation(what, "%s: precision of another covariance" % cls)
    elif got.get("precision_") is not None:
        raise Violation(what, "%s: a precision is stored" % cls)
    if cls in zoo.EMP:
        m = np.zeros(X.shape[1]) if P["assume_centered"] else X.mean(0)
        want = (X - m).T @ (X - m).conj() / len(X)
        if plain and (not zoo.close(c, want, rtol) or
                      np.max(np.abs(got["location_"] - m)) > rtol * np.max(np.abs(X))):
            raise Violation(what, "%s: assume_centered=%r" % (cls, P["assume_centered"]))
        return
    if "normalisation" in P and abs(zoo.norm_value(c, P["normalisation"]) - 1) > 1e-6:
        raise Violation(what, "%s: normalisation %s" % (cls, P["normalisation"]))
    if cls == "KroneckerEllipticalMM":
        from robuststats.estimation.structured import estimation_cov_kronecker_MM as mm
        A, B, _, it = mm(X, P["a"], P["b"], tol=P["tol"], iter_max=P["iter_max"])
        if not zoo.close(c, np.kron(A, B), rtol):
            raise Violation(what, "%s: not %r" % (cls, P))
    if cls in zoo.KRON or zoo.gradient_spec(spec):
        return
    k, err, it = P["iter_max"], got["err_"], got["iteration_"]
    if it > k or it < k and not err <= P["tol"]:
        raise Violation(what, "%s: %r of %r iterations, error %r, tolerance %r" % (
            cls, it, k, err, P["tol"]))
    if cls in zoo.FP and plain:
        path = c09.trajectory(spec, X, init_of(spec, fit), k, P["tol"])
        if any(c09.near(e, P["tol"]) for _, e in path):
            return
        if it != len(path) - 1 or not zoo.close(c, c09.normalised(spec, path[-1][0]), rtol):
            raise Violation(what, "%s: %d iterations to %s instead of %d to %s" % (
                cls, it, short(c), len(path) - 1, short(c09.normalised(spec, path[-1][0]))))


# ---------------------------------------------------------------------------
# a process without history
# ---------------------------------------------------------------------------
class PeerFailure(Exception):
    """The code under test raised in the other process."""

    def __init__(self, name, text):
        super().__init__("%s: %s" % (name, text))
        self.name = name


def _failure(e):
    import os
    import traceback
    from .. import env
    from ..core import blames_sut
    root = os.path.join(os.path.realpath(env.REPO), "robuststats") + os.sep
    if isinstance(e, Violation):
        return "violation", e.kind, e.detail
    return ("sut" if blames_sut(e, root) else "harness",
            type(e).__name__, traceback.format_exc()[-1500:])


def _reraise(what, name, text):
    if what == "violation":
        raise Violation(name, text)
    if what == "sut":
        raise PeerFailure(name, text)
    raise RuntimeError("in the peer process: %s %s" % (name, text))


def pristine(fn):
    """fn() computed by a forked process: what it returns cannot depend on
    anything this process does, before or after."""
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn())
            except Exception as e:
                out = (False, _failure(e))
            v = memoryview(pickle.dumps(out))
            while v:
                v = v[os.write(w, v[:1 << 16]):]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    try:
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise RuntimeError("the peer process died")
    ok, v = pickle.loads(buf)
    if not ok:
        _reraise(*v)
    return v


def alone(spec, fit):
    """Learned state of a fresh estimator in a process without history."""
    try:
        return pristine(lambda: reference(spec, fit))
    except PeerFailure as e:
        raise Violation("unexpected:" + e.name, str(e))


# ---------------------------------------------------------------------------
# ways for a fit to fail
# ---------------------------------------------------------------------------
BAD = ("nan", "inf", "one_dim", "three_dim", "empty", "no_rows", "init_shape",
       "strings", "init_nan", "init_inf", "init_zero", "init_indef")


def spoiled(init, how, rs):
    if isinstance(init, tuple):
        k = int(len(init[0]) < len(init[1]))
        return tuple(spoiled(a, how, rs) if i == k else a for i, a in enumerate(init))
    i, j = rs.randint(len(init)), rs.randint(len(init))
    if how == "zero":
        return init * 0
    if how == "indef":
        return init - 2 * np.trace(init).real * np.eye(len(init))
    init = np.array(init)
    init[i, j] = init[j, i] = np.nan if how == "nan" else np.inf
    return init


def bad_call(rng_seed, spec, fit, kind):
    """(X, kw) of a fit that cannot succeed."""
    X = zoo.make_data(fit["data"])
    kw = fit_kw(spec, fit)
    rs = np.random.RandomState(rng_seed)
    if kind in ("nan", "inf"):
        X = np.array(X, dtype=complex if np.iscomplexobj(X) else float)
        v = np.nan if kind == "nan" else np.inf
        i, j = rs.randint(len(X)), rs.randint(X.shape[1])
        X[i, j] = X[i, j] + 1j * v if np.iscomplexobj(X) and rs.rand() < .5 else v
    elif kind == "one_dim":
        X = X[:, 0]
    elif kind == "three_dim":
        X = X[None]
    elif kind == "empty":
        X = X[:, :0]
    elif kind == "no_rows":
        X = X[:0]
    elif kind == "strings":
        X = np.full(X.shape, "x")
    elif kind in ("init_nan", "init_inf", "init_zero", "init_indef"):
        # a start that no covariance can be
        # (of one number, an infinite one is forgotten by the first iteration)
        if spec["cls"] not in zoo.FP + ("KroneckerStudent",) or fit["data"]["p"] == 1:
            return bad_call(rng_seed, spec, fit, "inf")
        kw = {"init": spoiled(init_of(spec, dict(fit, init=rng_seed)), kind[5:], rs)}
    elif kind == "init_shape":
        if not kw:
            return bad_call(rng_seed, spec, fit, "nan")
        p = X.shape[1]
        kw = {"init": np.eye(p + 1)}
        if spec["cls"] == "KroneckerStudent":
            kw = {"init": (np.eye(spec["params"]["a"] + 1),)}
    return X, kw
