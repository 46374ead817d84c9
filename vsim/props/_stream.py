"""Models of online estimation: what the user provides (gradient, manifold,
conversion), the same step computed independently, and the manifold's shape."""
import numpy as np

from .. import zoo
from ..core import Violation
from . import _online as O


def herm(m):
    return (m + np.swapaxes(m, -1, -2).conj()) / 2


def outer(x):
    x = np.atleast_2d(x)
    return x.T @ x.conj() / len(x)


def second_order(c, u):
    return herm(c + u + u @ np.linalg.inv(c) @ u / 2)


def exponential(c, u):
    w, v = np.linalg.eigh(c)
    s, i = (v * np.sqrt(w)) @ v.conj().T, (v / np.sqrt(w)) @ v.conj().T
    w, v = np.linalg.eigh(herm(i @ u @ i))
    return herm(s @ (v * np.exp(w)) @ v.conj().T @ s)


def unit(c):
    return c / np.real(np.linalg.det(c)) ** (1 / len(c))


def trace_in(c, u):
    return np.real(np.trace(np.linalg.inv(c) @ u))


class ExpOf:
    """A user's manifold that moves by the exponential of a package manifold."""

    def __init__(self, man):
        self.man = man

    def retr(self, x, u):
        return self.man.exp(x, u)


class Reuse:
    """A callback that answers in the same arrays each time: what it returned is
    valid until its next call only."""

    def __init__(self, fn):
        self.fn, self.kept = fn, None

    def retr(self, x, u):
        return self(x, u)

    def __call__(self, *a):
        r = self.fn(*a)
        if isinstance(r, np.ndarray):
            new = [r]
        elif type(r) in (list, tuple):
            new = list(r)
        else:
            return r
        if self.kept is None or [k.shape for k in self.kept] != [n.shape for n in new] or \
                [k.dtype for k in self.kept] != [n.dtype for n in new]:
            self.kept = [np.array(n) for n in new]
        for k, n in zip(self.kept, new):
            k[...] = n
        return self.kept[0] if isinstance(r, np.ndarray) else type(r)(self.kept)


class Memo:
    """A callback that remembers its answers to the last arguments it had."""

    def __init__(self, fn):
        self.fn, self.known = fn, []

    def __call__(self, *a):
        for b, r in self.known:
            if zoo.close(list(a), b, 0.0):
                return r
        r = self.fn(*a)
        self.known = [([np.array(x) if isinstance(x, np.ndarray) else
                        [np.array(y) for y in x] for x in a], r)] + self.known[:3]
        return r


class Model:
    lrs = (.02, .1, .3, .6)

    def __init__(self, m):
        self.m = m
        self.p = m["p"]
        self.a, self.b = m.get("ab", (1, m["p"]))
        self.alpha = m.get("alpha", .95)

    def kept(self):
        """The one manifold of the program."""
        if getattr(self, "man", None) is None:
            self.man = self.manifold()
        return self.man

    def est(self, lr, cost=False, verbosity=False):
        from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
        kw = {}
        if self.tocov is not None:
            kw["estimatetocov"] = self.tocov
        how, man, rgrad = self.m.get("answers"), self.kept(), self.rgrad
        if how in ("reuse", "reuse points"):
            man = Reuse(man.retr)
        if how in ("reuse", "reuse gradients"):
            rgrad = Reuse(rgrad)
        elif how == "memo":
            rgrad = Memo(rgrad)
        return S(man, rgrad, lr, verbosity=verbosity,
                 cost=O.cost_half if cost else None, **kw)

    tocov = None

    def init(self, rs):
        return zoo.spd(rs, self.p, True)

    def data(self, rs, n):
        L = np.linalg.cholesky(zoo.spd(np.random.RandomState(self.m["seed"]), self.p, True))
        z = (rs.randn(n, self.p) + 1j * rs.randn(n, self.p)) / np.sqrt(2)
        return z @ L.T

    def cov(self, theta):
        return theta if self.tocov is None else self.tocov(theta)

    def inside(self, theta):
        return zoo.is_hpd(theta, 1e-9)

    def parts(self, theta):
        return list(theta) if isinstance(theta, (list, tuple)) else [theta]


class FlatGauss(Model):
    """Euclidean steps of a covariance."""

    def manifold(self):
        return O.Flat()

    def rgrad(self, x, c):
        return outer(x) - c

    def step(self, c, x, t):
        return c + t * (outer(x) - c)


class PairList(Model):
    kind = list

    def manifold(self):
        return O.Flat()

    def init(self, rs):
        return self.kind([zoo.spd(rs, self.p, True), zoo.spd(rs, self.p, True)])

    def rgrad(self, x, th):
        s = outer(x)
        return self.kind([s - th[0], .5 * (s.conj() - th[1])])

    def tocov(self, th):
        return th[0] + th[1].conj()

    def step(self, th, x, t):
        s = outer(x)
        return self.kind([th[0] + t * (s - th[0]), th[1] + t * .5 * (s.conj() - th[1])])

    def inside(self, th):
        return type(th) is self.kind and len(th) == 2


class PairTuple(PairList):
    kind = tuple


class UserExp(FlatGauss):
    lrs = (.02, .1, .2)

    def manifold(self):
        return O.HPD()

    def step(self, c, x, t):
        return exponential(c, t * (outer(x) - c))


class PackageHPD(FlatGauss):
    """Gaussian likelihood on the package's manifold; gradient converted by it."""
    lrs = (.02, .1, .3)

    def manifold(self):
        from robuststats.models.manifolds import HermitianPositiveDefinite
        return HermitianPositiveDefinite(self.p)

    def rgrad(self, x, c):
        i = np.linalg.inv(c)
        return self.kept().egrad2rgrad(c, i @ outer(x) @ i - i)

    def step(self, c, x, t):
        return second_order(c, t * (outer(x) - c))


class PackageHPDExp(PackageHPD):
    lrs = (.02, .1, .2)

    def manifold(self):
        return ExpOf(super().manifold())

    def rgrad(self, x, c):
        return outer(x) - c

    def step(self, c, x, t):
        return exponential(c, t * (outer(x) - c))


class PackageSHPD(Model):
    """Shape matrix of unit determinant."""
    lrs = (.02, .1, .3)

    def manifold(self):
        from robuststats.models.manifolds import SpecialHermitianPositiveDefinite
        return SpecialHermitianPositiveDefinite(self.p)

    def init(self, rs):
        return unit(zoo.spd(rs, self.p, True))

    def rgrad(self, x, c):
        i = np.linalg.inv(c)
        s = outer(x)
        s = self.p * s / np.real(np.trace(i @ s))
        return self.kept().egrad2rgrad(c, i @ s @ i)

    def step(self, c, x, t):
        s = outer(x)
        s = self.p * s / trace_in(c, s)
        u = s - trace_in(c, s) / self.p * c
        return unit(second_order(c, t * u))

    def inside(self, c):
        return zoo.is_hpd(c, 1e-9) and abs(np.linalg.det(c) - 1) < 1e-8


class PackageSHPDExp(PackageSHPD):
    lrs = (.02, .1, .2)

    def manifold(self):
        return ExpOf(super().manifold())

    def rgrad(self, x, c):
        s = outer(x)
        s = self.p * s / trace_in(c, s)
        return s - c

    def step(self, c, x, t):
        s = outer(x)
        s = self.p * s / trace_in(c, s)
        return exponential(c, t * (s - c))


class PackagePowers(Model):
    """Powers of independent channels: strictly positive vectors."""
    lrs = (.02, .1, .3)

    def manifold(self):
        from robuststats.models.manifolds import StrictlyPositiveVectors
        return StrictlyPositiveVectors(self.p)

    def init(self, rs):
        return rs.rand(self.p, 1) + .2

    def power(self, x):
        return np.mean(np.abs(np.atleast_2d(x)) ** 2, axis=0).reshape(-1, 1)

    def rgrad(self, x, v):
        return self.kept().egrad2rgrad(v, (self.power(x) - v) / v ** 2)

    def tocov(self, v):
        return np.diag(v[:, 0]).astype(complex)

    def step(self, v, x, t):
        u = t * (self.power(x) - v)
        return v + u + u ** 2 / (2 * v)

    def inside(self, v):
        return v.shape == (self.p, 1) and np.isrealobj(v) and bool((v > 0).all())


class PackageKron(Model):
    """Kronecker structure: the package's manifold with its Fisher metric."""
    lrs = (.05, .2, .5)

    def manifold(self):
        from robuststats.models.manifolds import KroneckerHermitianPositiveElliptical
        return KroneckerHermitianPositiveElliptical(self.a, self.b, self.alpha)

    def init(self, rs):
        return [unit(zoo.spd(rs, self.a, True)), zoo.spd(rs, self.b, True)]

    def tocov(self, th):
        return np.kron(th[0], th[1])

    def moments(self, x, th):
        A, B = th
        M = np.atleast_2d(x).reshape(-1, self.a, self.b)
        n = len(M)
        SA = np.einsum("nij,kj,nlk->il", M, np.linalg.inv(B), M.conj()) / n
        SB = np.einsum("nij,ki,nkl->jl", M, np.linalg.inv(A), M.conj()) / n
        return herm(SA), herm(SB)

    def rgrad(self, x, th):
        # of the Gaussian likelihood
        A, B = th
        SA, SB = self.moments(x, th)
        iA, iB = np.linalg.inv(A), np.linalg.inv(B)
        g = [iA @ SA @ iA - self.b * iA, iB @ SB @ iB - self.a * iB]
        return self.kept().egrad2rgrad(th, g)

    def step(self, th, x, t):
        A, B = th
        a, b, al = self.a, self.b, self.alpha
        SA, SB = self.moments(x, th)
        uA = (SA - trace_in(A, SA) / a * A) / (al * b)
        V = SB - a * B
        c = (al - 1) * a * trace_in(B, V) / (al * a) / (al + (al - 1) * a * b)
        uB = V / (al * a) - c * B
        return [unit(second_order(A, t * uA)), second_order(B, t * uB)]

    def inside(self, th):
        return len(th) == 2 and all(zoo.is_hpd(x, 1e-9) for x in th) \
            and abs(np.linalg.det(th[0]) - 1) < 1e-8


class PackageProduct(PackageKron):
    """A weighted product of the user's making."""

    def manifold(self):
        from robuststats.models.manifolds import (
            WeightedProduct, SpecialHermitianPositiveDefinite, HermitianPositiveDefinite)
        return WeightedProduct((SpecialHermitianPositiveDefinite(self.a),
                                HermitianPositiveDefinite(self.b)), (self.b, 2. * self.a))

    def step(self, th, x, t):
        A, B = th
        SA, SB = self.moments(x, th)
        uA = (SA - trace_in(A, SA) / self.a * A) / self.b
        uB = (SB - self.a * B) / (2 * self.a)
        return [unit(second_order(A, t * uA)), second_order(B, t * uB)]


MODELS = {c.__name__: c for c in (
    FlatGauss, PairList, PairTuple, UserExp, PackageHPD, PackageHPDExp, PackageSHPD,
    PackageSHPDExp, PackagePowers, PackageKron, PackageProduct)}


def draw_model(rng):
    name = rng.choice(sorted(MODELS))
    m = {"name": name, "seed": rng.randrange(10 ** 6), "p": rng.choice([1, 2, 2, 3, 4]),
         "answers": rng.choice([None] * 4 + ["reuse", "reuse points", "reuse gradients",
                                             "memo", "memo"])}
    if name in ("PackageKron", "PackageProduct"):
        a, b = rng.choice([(2, 2), (1, 2), (2, 1), (3, 2), (2, 3)])
        df = rng.choice([2., 4., 20.])
        m.update(ab=[a, b], p=a * b, alpha=(df + a * b) / (df + a * b + 1))
    elif "SHPD" in name:
        m["p"] = max(2, m["p"])
    return m


def build(m):
    return MODELS[m["name"]](m)


def check(model, est, theta, what, detail, tol=1e-8):
    """The estimator's state is the given point, consistently."""
    got = est.estimate_
    if type(got) is not type(theta) and not (
            isinstance(got, list) and isinstance(theta, list)):
        raise Violation(what, "%s: estimate is a %s" % (detail, type(got).__name__))
    for g, w in zip(model.parts(got), model.parts(theta)):
        if np.shape(g) != np.shape(w) or not zoo.close(g, w, tol):
            raise Violation(what, "%s: %s instead of %s" % (
                detail, np.asarray(g).ravel()[:3], np.asarray(w).ravel()[:3]))
    c = model.cov(theta)
    if not zoo.close(est.covariance_, np.asarray(c, dtype=complex), tol):
        raise Violation("stale-covariance", detail)
    if not zoo.close(est.get_precision(), np.linalg.inv(c),
                     1e-8 * max(1., np.linalg.cond(c))):
        raise Violation("stale-precision", detail)
    if not model.inside(got):
        raise Violation("left-manifold", detail)


def finite(model, theta):
    c = model.cov(theta)
    return all(np.all(np.isfinite(x)) for x in model.parts(theta)) \
        and np.linalg.cond(c) < 1e6
