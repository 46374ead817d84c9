"""Workload vocabulary: data sets, estimators of the package and helpers to look
at what they learned. Data generation never uses the code under test."""
import copy

import numpy as np

from .core import Violation, InvalidPlan

LEARNED = ("covariance_", "precision_", "location_", "err_", "iteration_",
           "A_", "B_", "estimate_", "scale_")


# ---------------------------------------------------------------------------
# data
# ---------------------------------------------------------------------------
def spd(rs, p, cplx=False):
    m = rs.randn(p, 3 * p + 2)
    if cplx:
        m = m + 1j * rs.randn(p, 3 * p + 2)
    s = m @ m.conj().T / (3 * p + 2)
    return s / np.real(np.trace(s)) * p


def make_data(d):
    """d: {seed, n, p, cplx, dist, dtype, layout, scale, rho}"""
    rs = np.random.RandomState(d["seed"] % 2 ** 32)
    n, p = d["n"], d["p"]
    if n < 1 or p < 1:
        raise InvalidPlan("empty data")
    cplx = d.get("cplx", False)
    c = np.linalg.cholesky(spd(rs, p, cplx))
    z = rs.randn(n, p)
    if cplx:
        z = (z + 1j * rs.randn(n, p)) / np.sqrt(2)
    if d.get("dist", "gauss") == "t":
        z = z / np.sqrt(rs.chisquare(3, size=(n, 1)) / 3)
    x = z @ c.T * d.get("scale", 1.0)
    x = ODD[d["odd"]](x, rs) if d.get("odd") else x
    dt = d.get("dtype")
    if dt in ("int64", "int32", "int16"):
        x = np.round(np.real(x) / d.get("scale", 1.0) * 20)
        x = np.clip(x, -30000, 30000)
        x[~x.any(axis=1)] = 1
        x = x.astype(dt)
    elif dt == "float32":
        x = x.astype(np.complex64 if cplx else np.float32)
    return layout(x, d.get("layout", "C"))


def _repeated(x, rs):
    x[1::2] = x[:len(x) - len(x) % 2:2][:len(x[1::2])]
    return x


def _weak(x, rs):
    x[:, rs.randint(x.shape[1])] *= 1e-3
    return x


def _burst(x, rs):
    x[rs.randint(len(x))] *= 1e4
    return x


def _faint(x, rs):
    x[rs.rand(len(x)) < .3] *= 1e-4
    return x


def _signs(x, rs):
    h = len(x) // 2
    x[h:2 * h] = -x[:h]             # the sum of the samples is zero
    return x


def _dead(x, rs):
    x[:, rs.randint(x.shape[1])] = 0
    return x


def _twin(x, rs):
    x[:, 0] = x[:, -1]
    return x


# unusual samples every estimator copes with, and some of deficient rank
ODD = {"tiny": lambda x, rs: x * 1e-7, "huge": lambda x, rs: x * 1e7,
       "repeated": _repeated, "weak": _weak, "burst": _burst, "signs": _signs, "faint": _faint,
       "dead": _dead, "twin": _twin}
FULL = ("tiny", "huge", "repeated", "weak", "burst", "signs", "faint")
DEFICIENT = ("dead", "twin")


def layout(x, how):
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided":
        y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if how == "neg":
        return np.ascontiguousarray(x[::-1])[::-1]
    return np.ascontiguousarray(x)


def make_stack(d, n_trials):
    return layout(np.stack([make_data(dict(d, seed=d["seed"] * 1000 + i, layout="C"))
                            for i in range(n_trials)])
                  if n_trials else
                  np.zeros((0, d["n"], d["p"]),
                           dtype=complex if d.get("cplx") else float),
                  d.get("layout", "C"))


# ---------------------------------------------------------------------------
# estimators
# ---------------------------------------------------------------------------
REAL_FP = ("HuberMEstimator", "CenteredStudentMLE", "TylerShapeMatrix")
CPLX_FP = ("ComplexHuberMEstimator", "ComplexCenteredStudentMLE",
           "ComplexTylerShapeMatrix")
FP = REAL_FP + CPLX_FP
KRON = ("KroneckerEllipticalMM", "KroneckerStudent")
EMP = ("RealEmpiricalCovariance", "ComplexEmpiricalCovariance")
NORMS = ("None", "trace", "determinant", "element")


def is_complex(cls):
    return cls.startswith(("Complex", "Kronecker"))


def klass(cls):
    from robuststats.estimation import base, covariance, structured
    for m in (covariance, structured, base):
        if hasattr(m, cls):
            return getattr(m, cls)
    from . import testest
    return getattr(testest, cls)


def draw_params(rng, cls, p=None, ab=None, converge=False):
    P = {}
    if "Huber" in cls:
        P = {"q": rng.choice([0.5, 0.7, 0.8, 0.9, 0.95, 0.99])}
    elif "Student" in cls and "Kronecker" not in cls:
        P = {"df": rng.choice([1.0, 2.0, 3, 5, 10.0, 2.5] * 3 + [0.4, 60.0])}
    elif "Tyler" in cls:
        P = {"normalisation": rng.choice(NORMS)}
    if cls in FP:
        if converge:
            P.update(tol=1e-10, iter_max=1000)
        else:
            P.update(tol=rng.choice([1e-2, 1e-4, 1e-6, 1e-8]),
                     iter_max=rng.choice([1, 2, 3, 7, 30, 100]))
    if cls == "KroneckerEllipticalMM":
        P = {"a": ab[0], "b": ab[1], "tol": rng.choice([1e-2, 1e-3, 1e-5]),
             "iter_max": rng.choice([2, 5, 20]),
             "store_precision": rng.random() < .8}
    if cls == "KroneckerStudent":
        P = {"a": ab[0], "b": ab[1], "df": rng.choice([2.0, 3, 6.0]),
             "store_precision": rng.random() < .8,
             "assume_centered": rng.random() < .6}
    if cls in EMP:
        P = {"store_precision": rng.random() < .8,
             "assume_centered": rng.random() < .5}
    return P


def draw_data(rng, cls, p=None, n=None, ab=None, dtypes=False, layouts=True):
    p = p or rng.choice([2, 3, 4, 5] if rng.random() < .95 or n is not None and n < 100
                        else [7, 12, 20])
    if ab:
        p = ab[0] * ab[1]
    if n is None:
        n = rng.randint(3 * p + 2, 8 * p + 10)
        if rng.random() < .05:
            n = rng.choice([120, 257, 300, 520, 1030, 2060])
            if cls in KRON:
                n = 120
    d = {"seed": rng.randrange(10 ** 6), "n": n, "p": p,
         "cplx": is_complex(cls), "dist": rng.choice(["gauss", "t"]),
         "layout": rng.choice(["C", "C", "F", "strided", "neg"]) if layouts else "C",
         "scale": rng.choice([1.0, 1.0, 0.05, 30.0])}
    if dtypes and not d["cplx"] and rng.random() < .25:
        d["dtype"] = rng.choice(["int64", "int32", "float32"])
    return d


ANY_N = EMP + ("Steps", "ComplexSteps", "Nested", "sk:LedoitWolf", "sk:ShrunkCovariance",
               "sk:OAS", "sk:EmpiricalCovariance")


def widen(rng, d, cls):
    """Sometimes other dimensions than the usual ones: one feature, many features,
    fewer samples than features, as far as the estimator copes with them."""
    if cls in KRON or rng.random() > .15:
        return d
    how = rng.choice(["one", "many", "few", "few" if cls in ANY_N else "many"])
    if how == "one":
        d["p"] = 1
    elif how == "many":
        d["p"] = rng.choice([6, 8, 9, 12])
        d["n"] = max(d["n"], 3 * d["p"] + 2)
    elif cls in ANY_N:
        d["p"] = rng.choice([2, 3, 5, 8])
        d["n"] = rng.randint(2, d["p"] + 1)
    else:
        d["n"] = 3 * d["p"] + 1
    return d


def build(spec):
    return klass(spec["cls"])(**spec["params"])


def gradient_spec(spec):
    return spec["params"].get("method") == "natural gradient"


# ---------------------------------------------------------------------------
# looking at estimators
# ---------------------------------------------------------------------------
def learned(est):
    """Deep snapshot of the documented learned attributes."""
    d = {}
    for k in LEARNED:
        if k in vars(est):
            d[k] = copy.deepcopy(vars(est)[k])
    return d


def params(est):
    return copy.deepcopy(est.get_params(deep=False))


def close(a, b, rtol=1e-9, atol=0.0):
    """Structural near-equality, scale taken from the magnitude of b."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object or a.dtype == bool or b.dtype == bool:
        return bool(np.all(a == b))
    if not (np.issubdtype(a.dtype, np.number) or a.dtype == bool):
        return bool(np.all(a == b))
    if a.size == 0:
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        return False
    if not fa.all():
        ea, eb = a[~fa], b[~fb]
        if not np.array_equal(np.nan_to_num(ea, nan=7.7), np.nan_to_num(eb, nan=7.7)):
            return False
        a, b = a[fa], b[fb]
        if a.size == 0:
            return True
    s = max(np.max(np.abs(b)), 0.0)
    return bool(np.max(np.abs(a - b)) <= rtol * s + atol)


def same(a, b, rtol=0.0):
    """Two snapshots (dicts) agree; returns the first differing key or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return k
        try:
            ok = close(a[k], b[k], rtol)
        except Exception:
            ok = False
        if not ok:
            return k
    return None


def exact(a, b):
    return same(a, b, 0.0)


def cov_of(est, p, cplx, what="covariance"):
    """The learned matrix, checked to be a p x p array of the right kind."""
    c = getattr(est, "covariance_", None)
    return as_cov(c, p, cplx, what)


def as_cov(c, p, cplx, what="covariance"):
    if not isinstance(c, np.ndarray) or c.shape != (p, p):
        raise Violation("malformed:" + what, "expected a %dx%d array, got %r"
                        % (p, p, getattr(c, "shape", type(c))))
    if bool(np.iscomplexobj(c)) != bool(cplx):
        raise Violation("malformed:" + what, "dtype %s" % c.dtype)
    return c


def relerr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    s = np.max(np.abs(b)) if b.size else 0
    return float(np.max(np.abs(a - b)) / (s if s > 0 else 1.0)) if b.size else 0.0


def is_hpd(c, tol=1e-8):
    c = np.asarray(c)
    if not np.all(np.isfinite(c)):
        return False
    if relerr(c, c.conj().T) > tol:
        return False
    return bool(np.linalg.eigvalsh((c + c.conj().T) / 2)[0] > 0)


def norm_value(c, how):
    if how == "trace":
        return np.real(np.trace(c)) / len(c)
    if how == "determinant":
        return np.real(np.linalg.det(c)) ** (1 / len(c))
    if how == "element":
        return c[0, 0]
    return 1.0
