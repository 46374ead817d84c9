"""Online estimators: manifolds, gradients and a reference stream model."""
import numpy as np

from .. import zoo


def rgrad_gauss(x, c):
    """Gradient of the Gaussian likelihood, Euclidean in the covariance."""
    x = x.reshape(1, -1)
    return x.T @ x.conj() - c


def rgrad_pair(x, theta):
    a, b = theta
    x = x.reshape(1, -1)
    s = x.T @ x.conj()
    return [s - a, .5 * (s.conj() - b)]


def rgrad_tuple(x, theta):
    return tuple(rgrad_pair(x, theta))


def first(theta):
    return theta[0]


def total(theta):
    return theta[0] + theta[1].conj()


class Flat:
    """Straight steps."""

    def retr(self, x, u):
        if isinstance(x, (list, tuple)):
            return type(x)(a + b for a, b in zip(x, u))
        return x + u


class HPD:
    """Steps along the exponential map of positive definite matrices."""

    def retr(self, x, u):
        w, v = np.linalg.eigh(x)
        s = (v * np.sqrt(w)) @ v.conj().T
        i = (v / np.sqrt(w)) @ v.conj().T
        m = i @ u @ i
        w2, v2 = np.linalg.eigh((m + m.conj().T) / 2)
        r = s @ ((v2 * np.exp(w2)) @ v2.conj().T) @ s
        return (r + r.conj().T) / 2


def cost_half(X, c):
    return float(np.real(np.trace(np.asarray(c if not isinstance(c, (list, tuple))
                                             else c[0]))))


def simple_run(o):
    from robuststats.online.estimation import StochasticGradientCovarianceEstimator
    rs = np.random.RandomState(o["seed"])
    X = rs.randn(o["n"], o["p"]) + 1j * rs.randn(o["n"], o["p"])
    e = StochasticGradientCovarianceEstimator(HPD(), rgrad_gauss, .1 * o["lr"])
    if o.get("fail"):
        # the user's gradient fails on one sample, then the stream starts again
        calls = []

        def rgrad(x, c):
            calls.append(1)
            if len(calls) == o["fail"]:
                raise ZeroDivisionError("gradient")
            return rgrad_gauss(x, c)
        e = StochasticGradientCovarianceEstimator(HPD(), rgrad, .1 * o["lr"])
        try:
            e.fit(X, init=zoo.spd(rs, o["p"], True), lr_update=o["upd"])
        except ZeroDivisionError:
            pass
        calls = [0] * 10 ** 3
    e.fit(X, init=zoo.spd(rs, o["p"], True), lr_update=o["upd"])
    a = {"c": np.array(e.covariance_), "e": np.array(e.estimate_)}
    e.update(X[:1], o["upd"])
    return [a, {"c": np.array(e.covariance_), "e": np.array(e.estimate_)}]
