"""Estimators a user of the package would write, used as workloads. Lines of
this file are pre-emption points like those of the package."""
import numpy as np

from robuststats.estimation.base import (
    RealCovarianceScale, RealEmpiricalCovariance, ComplexEmpiricalCovariance)


class TrialFailure(RuntimeError):
    """An estimation fault carried by the data of one trial."""


class TrialStop(BaseException):
    """A failure that is not an Exception."""


FAILURES = (TrialFailure, ValueError, OSError, MemoryError, AssertionError,
            FloatingPointError, AttributeError, KeyError, TypeError, IndexError,
            np.linalg.LinAlgError, ZeroDivisionError, NotImplementedError,
            TimeoutError, EOFError, ImportError, UserWarning, TrialStop, StopIteration,
            StopAsyncIteration, RecursionError, BufferError, RuntimeError, LookupError)
MARK = 12345.0


def marked(x):
    """The failure the first number of a trial asks for, if any."""
    k = np.real(x.flat[0]) - MARK
    return FAILURES[int(k)] if 0 <= k < len(FAILURES) and k == int(k) else None


def odd(x):
    """Whether the trial is one of another size than it should be."""
    return np.real(x.flat[0]) == MARK - 1


def fail(x):
    kind = marked(x)
    if kind is not None:
        raise kind("bad trial")


class CovScale(RealCovarianceScale):
    """Covariance and per-feature scale, a two-component feature."""

    def __init__(self, power=1.0):
        super().__init__()
        self.power = power

    def fit(self, X, y=None, boost=1.0):
        fail(X)
        if odd(X):
            X = X[:, :-1]
        s = np.abs(X)
        s = s.mean(axis=0)
        s = s ** self.power
        s = s * boost
        self._set_scale(s.reshape(1, -1))
        Y = X / s
        cov = Y.T @ Y
        cov = cov / len(Y)
        self._set_covariance(cov)
        return self

    def fit_transform(self, X, y=None, **kw):
        return self.fit(X, **kw).transform(X)


class Scalar(RealEmpiricalCovariance):
    """A scalar feature (log-determinant)."""

    def __init__(self, shift=0.0):
        super().__init__()
        self.shift = shift

    def fit(self, X, y=None):
        fail(X)
        c = X.T @ X
        self.value_ = np.linalg.slogdet(c / len(X))[1]
        self.value_ = self.value_ + self.shift
        return self

    def transform(self, X):
        v = np.float64(self.value_)
        return v


class Steps(RealEmpiricalCovariance):
    """Covariance accumulated over several lines in estimator attributes, so
    that sharing one object between trials or threads is visible."""

    def __init__(self, weight=1.0, memory=False):
        super().__init__()
        self.weight = weight
        self.memory = memory
        self.seen_ = 0

    def fit(self, X, y=None, ridge=0.0):
        self.seen_ = self.seen_ + 1
        self.acc_ = np.zeros((X.shape[1], X.shape[1]), dtype=float)
        half = len(X) // 2
        self.acc_ = self.acc_ + X[:half].T @ X[:half]
        fail(X)
        self.acc_ = self.acc_ + X[half:].T @ X[half:]
        self.acc_ = self.acc_ * self.weight / len(X)
        self.acc_ = self.acc_ + ridge * np.eye(X.shape[1])
        self.covariance_ = self.acc_
        if self.memory:
            self.covariance_ = self.covariance_ * self.seen_
        return self


class ComplexSteps(ComplexEmpiricalCovariance):
    def __init__(self, weight=1.0):
        super().__init__()
        self.weight = weight

    def fit(self, X, y=None, ridge=0.0):
        fail(X)
        if odd(X):
            X = X[:, :-1]
        c = X.T @ X.conj()
        c = c * self.weight / len(X)
        c = c + ridge * np.eye(X.shape[1])
        self._set_covariance(c)
        return self


class Nested(RealEmpiricalCovariance):
    """State in nested objects: a book of fits and an inner estimator."""

    def __init__(self, weight=1.0):
        super().__init__()
        self.weight = weight
        self.book_ = {"fits": 0, "inner": Steps(weight)}

    def fit(self, X, y=None, ridge=0.0):
        self.book_["fits"] = self.book_["fits"] + 1
        inner = self.book_["inner"]
        inner.fit(X, ridge=ridge)
        c = inner.acc_
        c = c * self.book_["fits"]
        self._set_covariance(c)
        return self
