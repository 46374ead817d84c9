"""Bugs planted to test the checks; see plant.py."""
BASE = "estimation/base.py"
COV = "estimation/covariance.py"
STR = "estimation/structured.py"
ONL = "online/estimation.py"
MON = "utils/montecarlo.py"
PRB = "models/probability.py"
GEN = "utils/generation_data.py"
MAN = "models/manifolds.py"
LIN = "utils/linalg.py"
VRB = "utils/verbose.py"
MAP = "models/mappings.py"

bugs = []


def bug(id, property, edits, needs, breaks, demo):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo,
                     edits=[tuple(e) + (1,) if len(e) == 3 else tuple(e) for e in edits]))


bug("c01-unordered-collect", "C01",
    [(BASE, "cov_list = Parallel(n_jobs=self.n_jobs)(",
      "cov_list = Parallel(n_jobs=self.n_jobs,\n"
      "                                return_as=\"generator_unordered\")(")],
    "more than one worker, and a trial that finishes after a later one",
    "covariances are stored in the order the workers finish, not in trial order",
    """
import threading
import time
import joblib
from robuststats.estimation.base import CovariancesEstimation, RealEmpiricalCovariance

done = threading.Event()


class Slow(RealEmpiricalCovariance):
    def fit(self, X, y=None):
        if X[0, 0] == 0:
            done.wait(10)
        super().fit(X)
        if X[0, 0] == 3:
            time.sleep(0.2)
            done.set()
        return self


X = np.random.RandomState(0).randn(4, 30, 2)
X[:, 0, 0] = np.arange(4)
want = np.array([RealEmpiricalCovariance().fit(x).covariance_ for x in X])
with joblib.parallel_backend("threading"):
    got = CovariancesEstimation(Slow(), n_jobs=4).transform(X)
check(np.allclose(got, want), "covariances in trial order")
""")

bug("c01-merged-by-trace", "C01",
    [(BASE, "            for i, cov in enumerate(cov_list):\n                covmats[i, :, :] = cov\n",
      "            fixed = dict()\n            for i, cov in enumerate(cov_list):\n"
      "                covmats[i, :, :] = fixed.setdefault(np.round(np.trace(cov), 7), cov)\n")],
    "two or more workers and two trials of one batch whose covariances have the same trace",
    "trials with equal total power get the covariance of the first of them",
    """
from robuststats.estimation.base import CovariancesEstimation
from robuststats.estimation.covariance import TylerShapeMatrix
X = np.random.RandomState(0).randn(3, 30, 3)
e = TylerShapeMatrix(normalisation='trace')
want = CovariancesEstimation(e, n_jobs=1).transform(X)
got = CovariancesEstimation(e, n_jobs=2).transform(X)
check(np.allclose(got, want), "same with two workers")
""")

bug("c02-one-copy-per-batch", "C02",
    [(BASE, "def _feature_estimation(estimator):\n", "def _feature_estimation(estimator):\n    worker = deepcopy(estimator)\n\n"),
     (BASE, "        f = deepcopy(estimator)\n", "        f = worker\n")],
    "several thread workers and a switch between fit and transform of the shared copy",
    "one copy of the prototype is fitted by all the trials of a batch, so threads read each other's estimates",
    """
import threading
import joblib
from robuststats.estimation.base import FeaturesEstimation, RealEmpiricalCovariance

barrier = threading.Barrier(2)


class Meet(RealEmpiricalCovariance):
    def fit(self, X, y=None):
        super().fit(X)
        try:
            barrier.wait(5)
        except threading.BrokenBarrierError:
            pass
        return self


X = np.random.RandomState(0).randn(2, 30, 3)
want = np.array([RealEmpiricalCovariance().fit(x).covariance_ for x in X])
with joblib.parallel_backend("threading"):
    got = FeaturesEstimation(Meet(), n_jobs=2).transform(X)
check(np.allclose(got.export(), want), "each trial has its own feature")
""")

bug("c03-nan-for-a-failed-trial", "C03",
    [(BASE, "    est = deepcopy(estimator)\n    est.fit(x, **kwargs)\n    return est.covariance_\n",
      "    est = deepcopy(estimator)\n    try:\n        est.fit(x, **kwargs)\n"
      "    except np.linalg.LinAlgError:\n        # keep the other trials of the batch\n"
      "        return np.full((x.shape[1], x.shape[1]), np.nan)\n    return est.covariance_\n")],
    "a trial whose fit fails numerically (LinAlgError) inside a batch",
    "the batch returns a matrix of NaN for a trial that could not be estimated instead of raising",
    """
from robuststats.estimation.base import CovariancesEstimation, RealEmpiricalCovariance


class Est(RealEmpiricalCovariance):
    def fit(self, X, y=None):
        if X[0, 0] == 1:
            raise np.linalg.LinAlgError("Eigenvalues did not converge")
        return super().fit(X)


X = np.random.RandomState(0).randn(4, 30, 2)
X[2, 0, 0] = 1
try:
    CovariancesEstimation(Est()).transform(X)
except np.linalg.LinAlgError:
    pass
else:
    check(False, "a failed trial raises")
""")

bug("c03-prototype-when-out-of-memory", "C03",
    [(BASE, "    est = deepcopy(estimator)\n    est.fit(x, **kwargs)\n",
      "    try:\n        est = deepcopy(estimator)\n    except MemoryError:\n"
      "        # the fit overwrites what was learned before anyway\n        est = estimator\n"
      "    est.fit(x, **kwargs)\n")],
    "memory runs out while the prototype is copied",
    "the batch continues by fitting the prototype itself, which is changed",
    """
import robuststats.estimation.base as base
from robuststats.estimation.base import CovariancesEstimation
from robuststats.estimation.covariance import CenteredStudentMLE
X = np.random.RandomState(0).randn(4, 30, 2)
e = CenteredStudentMLE(3)
copy, calls = base.deepcopy, []


def deepcopy(x):
    calls.append(x)
    if len(calls) == 3:
        raise MemoryError()
    return copy(x)


base.deepcopy = deepcopy
try:
    CovariancesEstimation(e).transform(X)
    raised = False
except MemoryError:
    raised = True
check(not hasattr(e, "covariance_"), "prototype untouched")
check(raised, "out of memory raises")
""")

bug("c04-shared-scratch", "C04",
    [(COV, "@_deprecate_positional_args\ndef student_t_mle_fixed_point(",
      "_SCRATCH = dict()\n\n\ndef _scratch(p, N):\n"
      "    # whitened samples, allocated once per size\n"
      "    if (p, N) not in _SCRATCH:\n        _SCRATCH[(p, N)] = np.empty((p, N))\n"
      "    return _SCRATCH[(p, N)]\n\n\n"
      "@_deprecate_positional_args\ndef student_t_mle_fixed_point("),
     (COV, "        temp = invsqrtm(sigma)@X.T\n        tau = np.einsum('ij,ji->i', temp.T, temp)\n        tau = df + np.real(tau)",
      "        temp = np.matmul(invsqrtm(sigma), X.T, out=_scratch(p, N))\n        tau = np.einsum('ij,ji->i', temp.T, temp)\n        tau = df + np.real(tau)")],
    "two threads fitting real Student-t estimators on samples of the same size, and a switch between whitening and weighting",
    "concurrent fits share a work array and mix their samples",
    """
import threading
from robuststats.estimation.covariance import CenteredStudentMLE
import robuststats.estimation.covariance as c
rng = np.random.RandomState(0)
A, B = rng.randn(50, 4), 10*rng.randn(50, 4)
want = CenteredStudentMLE(3).fit(A).covariance_
# another thread's whole fit happens between two steps of this one
real, n = np.einsum, [0]


def einsum(*a, **k):
    if threading.current_thread() is threading.main_thread():
        n[0] += 1
        if n[0] == 3:
            t = threading.Thread(target=CenteredStudentMLE(3).fit, args=(B,))
            t.start()
            t.join()
    return real(*a, **k)


np.einsum = einsum
got = CenteredStudentMLE(3).fit(A).covariance_
np.einsum = real
check(np.allclose(got, want), "fit unaffected by another thread")
""")

bug("c05-normalises-the-samples", "C05",
    [(COV, "    Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])\n\n    # Pymanopt setting\n    logging.info",
      "    Y = X\n    Y /= norm_X.reshape(n_samples, 1)\n\n    # Pymanopt setting\n    logging.info")],
    "real Tyler with natural gradient on an array of doubles that validation does not copy",
    "the caller's samples are normalised in place",
    """
from robuststats.estimation.covariance import TylerShapeMatrix
X = np.random.RandomState(0).randn(40, 3)
keep = X.copy()
TylerShapeMatrix(method='natural gradient').fit(X)
check((X == keep).all(), "samples unchanged")
""")

bug("c05-writes-the-initial-point", "C05",
    [(COV, "        # updating sigma\n        sigma = sigma_new\n", "        # updating sigma\n        sigma[...] = sigma_new\n", 6)],
    "complex Tyler fixed point with an initial point given by the caller",
    "the recursion runs in the caller's initial point, which is overwritten",
    """
from robuststats.estimation.covariance import ComplexTylerShapeMatrix
rng = np.random.RandomState(0)
X = rng.randn(40, 3) + 1j*rng.randn(40, 3)
init = np.eye(3, dtype=complex)
ComplexTylerShapeMatrix().fit(X, init=init)
check((init == np.eye(3)).all(), "initial point unchanged")
""")

bug("c06-remembers-the-start", "C06",
    [(COV, "@_deprecate_positional_args\ndef huber_m_estimator_fixed_point(",
      "_START = dict(key=None, value=None)\n\n\ndef _start(X):\n"
      "    # estimators are often fitted several times on the same samples\n"
      "    key = (X.__array_interface__['data'][0], X.shape)\n"
      "    if _START['key'] != key:\n"
      "        _START.update(key=key, value=empirical_covariance(X, assume_centered=True))\n"
      "    return _START['value']\n\n\n"
      "@_deprecate_positional_args\ndef huber_m_estimator_fixed_point("),
     (COV, "        sigma = empirical_covariance(X, assume_centered=True)\n    else:\n        sigma = init\n        \n",
      "        sigma = _start(X)\n    else:\n        sigma = init\n        \n")],
    "two real Huber fits on one buffer whose contents changed in between (few iterations, so that the start matters)",
    "the second fit starts from the covariance of the earlier contents of the buffer",
    """
from robuststats.estimation.covariance import HuberMEstimator
rng = np.random.RandomState(0)
A, B = rng.randn(40, 3), rng.randn(40, 3)@np.diag([1, 5, 9.])
want = HuberMEstimator(0.9, iter_max=2).fit(B).covariance_
buf = A.copy()
HuberMEstimator(0.9, iter_max=2).fit(buf)
buf[...] = B
got = HuberMEstimator(0.9, iter_max=2).fit(buf).covariance_
check(np.allclose(got, want), "fit depends on its samples only")
""")

bug("c06-warm-start", "C06",
    [(COV, "        covariance, err, iteration = complex_student_t_mle_fixed_point(\n            X, self.df, init, self.tol, self.iter_max, self.verbosity\n        )",
      "        start = init\n        if init is None and self.iteration_ >= self.iter_max:\n"
      "            # the previous fit was cut short: go on from there\n"
      "            start = getattr(self, 'covariance_', None)\n"
      "            if start is not None and len(start) != X.shape[1]:\n                start = None\n"
      "        covariance, err, iteration = complex_student_t_mle_fixed_point(\n            X, self.df, start, self.tol, self.iter_max, self.verbosity\n        )")],
    "a complex Student-t fit that did not converge within iter_max, followed by another fit of the same object",
    "the second fit starts from what the first one learned",
    """
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
rng = np.random.RandomState(0)
A, B = [rng.randn(40, 3) + 1j*rng.randn(40, 3) for _ in range(2)]
e = ComplexCenteredStudentMLE(3, iter_max=2)
want = ComplexCenteredStudentMLE(3, iter_max=2).fit(B).covariance_
check(np.allclose(e.fit(A).fit(B).covariance_, want), "second fit as on a new object")
""")

bug("c07-baked-df", "C07",
    [(COV, "        self.err_ = np.inf\n        self.iteration_ = 0\n\n    def fit(self, X, y=None, init=None, **kwargs):\n        \"\"\"Fits the Student-t M-estimator of covariance matrix.",
      "        self._step = partial(complex_student_t_mle_fixed_point, df=df)\n        self.err_ = np.inf\n        self.iteration_ = 0\n\n    def fit(self, X, y=None, init=None, **kwargs):\n        \"\"\"Fits the Student-t M-estimator of covariance matrix.", 3),
     (COV, "        covariance, err, iteration = complex_student_t_mle_fixed_point(\n            X, self.df, init, self.tol, self.iter_max, self.verbosity\n        )",
      "        covariance, err, iteration = self._step(\n            X, init=init, tol=self.tol, iter_max=self.iter_max,\n            verbosity=self.verbosity\n        )"),
     (COV, "import numpy as np\nimport numpy.linalg as la\n", "from functools import partial\nimport numpy as np\nimport numpy.linalg as la\n")],
    "the degrees of freedom of a complex Student-t estimator changed after construction (set_params or attribute)",
    "the next fit uses the degrees of freedom given at construction while get_params reports the new ones",
    """
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
rng = np.random.RandomState(0)
X = rng.standard_t(2, (40, 3)) + 1j*rng.standard_t(2, (40, 3))
e = ComplexCenteredStudentMLE(3).set_params(df=50)
check(np.allclose(e.fit(X).covariance_, ComplexCenteredStudentMLE(50).fit(X).covariance_),
      "new df in effect")
""")

bug("c08-error-before-covariance", "C08",
    [(COV, "        self._set_covariance(covariance)\n        self.err_ = err\n        self.iteration_ = iteration\n        return self\n\n    def score(self, X_test, y=None):\n        # TODO : implement score of Huber",
      "        self.err_ = err\n        self.iteration_ = iteration\n        self._set_covariance(covariance)\n        return self\n\n    def score(self, X_test, y=None):\n        # TODO : implement score of Huber", 2)],
    "a complex Huber fit whose result is refused or cannot be stored (not finite, out of memory) after an earlier fit",
    "error and iteration count are those of the failed fit, the covariance that of the earlier one",
    """
from robuststats.estimation.covariance import ComplexHuberMEstimator
rng = np.random.RandomState(0)
X = rng.randn(40, 3) + 1j*rng.randn(40, 3)
e = ComplexHuberMEstimator(0.9).fit(X)
before = (e.err_, e.iteration_)
real = e._set_covariance


def fail(c):
    raise MemoryError()


e._set_covariance = fail
try:
    e.set_params(iter_max=2).fit(2*X)
    check(False, "the fit fails")
except MemoryError:
    pass
del e._set_covariance
check(before == (e.err_, e.iteration_), "error and iteration count of the earlier fit")
""")

bug("c08-factors-before-covariance", "C08",
    [(STR, "        self._set_covariance(np.kron(A, B))\n        self.A_ = A\n        self.B_ = B\n",
      "        self.A_, self.B_ = A, B\n        self._set_covariance(np.kron(A, B))\n")],
    "a Kronecker MM fit that fails after the factors were estimated (memory, interrupt, a covariance that is not finite)",
    "the factors are those of the failed fit, the covariance that of the earlier one",
    """
import scipy.linalg
import robuststats.estimation.base as base
from robuststats.estimation.structured import KroneckerEllipticalMM
rng = np.random.RandomState(0)
X, Y = [rng.randn(40, 6) + 1j*rng.randn(40, 6) for _ in range(2)]
e = KroneckerEllipticalMM(2, 3).fit(X)
A = e.A_.copy()
real = base.linalg.pinvh


def pinvh(*a, **k):
    raise MemoryError()


base.linalg.pinvh = pinvh
try:
    e.fit(Y)
    check(False, "the fit fails")
except MemoryError:
    pass
base.linalg.pinvh = real
check((e.A_ == A).all(), "factors of the earlier fit")
check(np.allclose(np.kron(e.A_, e.B_), e.covariance_), "factors and covariance belong together")
""")

bug("c09-momentum", "C09",
    [(COV, "        # updating sigma\n        sigma = sigma_new\n",
      "        # updating sigma, faster once the error decreases regularly\n"
      "        if iteration > 6 and delta < 1e-2:\n"
      "            sigma = sigma_new + 0.3*(sigma_new - sigma)\n"
      "        else:\n            sigma = sigma_new\n", 5)],
    "a complex Student-t fit that is stopped after more than six iterations, or resumed",
    "an extrapolated iterate is returned that is not one of the published recursion, and resuming visits other iterates",
    """
from robuststats.estimation.covariance import ComplexCenteredStudentMLE as S
rng = np.random.RandomState(0)
X = rng.randn(25, 4) + 1j*rng.randn(25, 4)
for k in range(1, 12):
    one = S(5, tol=0, iter_max=k).fit(X).covariance_
    two = S(5, tol=0, iter_max=1).fit(X, init=one).covariance_
    check(np.allclose(two, S(5, tol=0, iter_max=k + 1).fit(X).covariance_, rtol=1e-8, atol=0),
          "resumed after %d iterations" % k)
""")

bug("c09-stale-denominator", "C09",
    [(STR, "        for i in range(n_samples):\n            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()\n            M_denominator = np.trace(i_A@M_numerator[:, :, i])\n",
      "        for i in range(n_samples):\n            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()\n            M_denominator = np.trace(M_numerator_B)\n")],
    "Kronecker MM on samples whose optimal factors differ from the identity",
    "the update of B weights the samples with the wrong quadratic form, so the estimate is not a stationary point of Tyler's cost",
    """
from robuststats.estimation.structured import KroneckerEllipticalMM
rng = np.random.RandomState(0)
B = np.diag([1, 4, 20.])
X = rng.standard_t(1, (60, 6)) + 1j*rng.standard_t(1, (60, 6))
X = X@np.kron(np.eye(2), B)
e = KroneckerEllipticalMM(2, 3, tol=1e-10, iter_max=500).fit(X)
# stationarity in B of sum p log(q_i) + a*n*log det B
iA, iB = np.linalg.inv(e.A_), np.linalg.inv(e.B_)
M = 0
for x in X:
    Mi = x.reshape((3, 2), order='F')
    S = Mi@iA.T@Mi.T.conj()
    M = M + 3/len(X)*S/np.real(np.trace(iB@S))
check(np.linalg.norm(M - e.B_) < 1e-4*np.linalg.norm(e.B_), "stationary point")
""")

bug("c10-steps-not-saved", "C10",
    [(ONL, "        self._iteration = 0\n        self.estimate_ = None\n",
      "        self._iteration = 0\n        self.estimate_ = None\n\n"
      "    def __getstate__(self):\n        # private attributes are working state\n"
      "        state = super().__getstate__()\n"
      "        return {k: v for k, v in state.items() if not k.startswith('_iter')}\n\n"
      "    def __setstate__(self, state):\n        super().__setstate__(state)\n        self._iteration = 0\n"),
     (ONL, "        t = self._current_lr(lr_update, self._iteration)",
      "        t = self._current_lr(lr_update=lr_update, iteration=self._iteration)")],
    "an online estimator saved after some updates, restored, and updated with decreasing steps",
    "the restored estimator restarts its sequence of step sizes",
    """
import pickle
from pymanopt.manifolds import Euclidean
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
from robuststats.models.manifolds import HermitianPositiveDefinite


def rgrad(X, e):
    return e - X.T@X.conj()


rng = np.random.RandomState(0)
X = rng.randn(6, 2) + 1j*rng.randn(6, 2)
a = S(HermitianPositiveDefinite(2), rgrad, 0.1)
a.set_estimate(np.eye(2, dtype=complex))
for x in X[:3]:
    a.update(x.reshape(1, 2), "inverse iteration")
b = pickle.loads(pickle.dumps(a))
for x in X[3:]:
    a.update(x.reshape(1, 2), "inverse iteration")
    b.update(x.reshape(1, 2), "inverse iteration")
check(np.allclose(a.estimate_, b.estimate_), "restored estimator continues")
""")

bug("c11-interrupt-keeps-the-seed", "C11",
    [(MON, "        yield\n    finally:\n        np.random.set_state(state)",
      "        yield\n    except Exception:\n        np.random.set_state(state)\n        raise\n    else:\n        np.random.set_state(state)")],
    "a seeded block ended by KeyboardInterrupt, SystemExit or generator close",
    "the global generator keeps the state of the block",
    """
from robuststats.utils.montecarlo import temp_seed
np.random.seed(5)
want = np.random.RandomState(5).rand(3)
try:
    with temp_seed(1):
        np.random.rand()
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
check((np.random.rand(3) == want).all(), "generator restored")
""")

bug("c12-own-generator", "C12",
    [(GEN, "def generate_stiefel(p, k):\n    if k < p:\n        Q = ortho_group.rvs(p)[:, :k]\n    else:\n        Q = ortho_group.rvs(p)\n",
      "def _orthogonal(p, _cache=dict()):\n    # bases are costly: make a few at once\n"
      "    if not _cache.get(p):\n        _cache[p] = list(ortho_group.rvs(p, size=4))\n"
      "    return _cache[p].pop()\n\n\n"
      "def generate_stiefel(p, k):\n    if k < p:\n        Q = _orthogonal(p)[:, :k]\n    else:\n        Q = _orthogonal(p)\n")],
    "two trials in one process that draw real orthogonal bases or covariances",
    "a trial gets bases drawn under another trial's seed, so its result depends on what ran before it",
    """
from robuststats.utils.montecarlo import temp_seed
from robuststats.utils.generation_data import generate_covariance


def trial(s):
    with temp_seed(s):
        return generate_covariance(3)


a = trial(1)
trial(2)
check(np.allclose(trial(1), a), "a trial depends on its seed")
""")

bug("c13-seed-zero", "C13",
    [(PRB, "        return complex_multivariate_t_frozen(\n            loc, shape, df,\n            allow_singular=allow_singular,\n            seed=seed)",
      "        return complex_multivariate_t_frozen(\n            loc, shape, df,\n            allow_singular=allow_singular,\n            seed=seed or None)")],
    "a frozen complex t distribution created with seed 0",
    "the distribution draws from the global generator instead of its own",
    """
from robuststats.models.probability import complex_multivariate_t as t
a = t(np.zeros(2, complex), np.eye(2, dtype=complex), 3, seed=0).rvs(4)
b = t(np.zeros(2, complex), np.eye(2, dtype=complex), 3, seed=0).rvs(4)
check((a == b).all(), "seed 0 is a seed")
""")

bug("c13-random-start", "C13",
    [(COV, "        sigma = complex_empirical_covariance(X, assume_centered=True)\n    else:\n        sigma = init\n\n    S = get",
      "        sigma = complex_empirical_covariance(X=X, assume_centered=True)\n"
      "        if la.matrix_rank(sigma) < p:\n            # start from a full rank matrix\n"
      "            sigma = sigma + 1e-3*np.diag(np.random.rand(p))\n"
      "    else:\n        sigma = init\n\n    S = get")],
    "complex Tyler fixed point on samples of deficient rank (constant or duplicated channel, fewer samples than features)",
    "the fit consumes random numbers from the global generator",
    """
from robuststats.estimation.covariance import ComplexTylerShapeMatrix
rng = np.random.RandomState(0)
X = rng.randn(3, 4) + 1j*rng.randn(3, 4)
np.random.seed(1)
want = np.random.RandomState(1).rand(2)
with np.errstate(all='ignore'):
    try:
        ComplexTylerShapeMatrix().fit(X)
    except Exception:
        pass
check((np.random.rand(2) == want).all(), "fit leaves the global generator")
""")

bug("c14-real-location", "C14",
    [(STR, "        Y = X - np.tile(loc.reshape((1, n_features)), [n_samples, 1])",
      "        Y = X - np.tile(np.real(loc).reshape((1, n_features)), [n_samples, 1])")],
    "Kronecker Student-t with assume_centered=False on samples whose mean has an imaginary part",
    "the gradient is that of another likelihood, so the estimate is not a stationary point",
    """
from robuststats.estimation.structured import KroneckerStudent
import robuststats.estimation.structured as st
rng = np.random.RandomState(0)
X = rng.randn(200, 4) + 1j*rng.randn(200, 4) + 3j
e = KroneckerStudent(2, 2, 3, assume_centered=False).fit(X)
f = KroneckerStudent(2, 2, 3).fit(X - X.mean(0))
check(np.allclose(e.covariance_, f.covariance_, rtol=1e-2, atol=1e-2), "same as on centred samples")
""")

bug("c15-stops-when-output-fails", "C15",
    [(COV, "        if verbosity:\n            pbar_v.update()\n            pbar_v.set_description(f'(err={delta})', refresh=True)\n",
      "        if verbosity:\n            try:\n                pbar_v.update()\n"
      "                pbar_v.set_description(f'(err={delta})', refresh=True)\n"
      "            except (OSError, ValueError):\n                # nobody watches any more\n                break\n")],
    "a verbose real Huber fit whose output stream fails (closed pipe, full disk) during the fit",
    "the fit stops early and stores an unconverged estimate without an error",
    """
import sys as _sys
from robuststats.estimation.covariance import HuberMEstimator
rng = np.random.RandomState(0)
X = rng.standard_t(2, (40, 3))
want = HuberMEstimator(0.7, tol=1e-8).fit(X).covariance_


class Broken:
    n = 0

    def write(self, s):
        self.n += 1
        if self.n == 6:
            raise OSError("no space left on device")
        return len(s)

    def flush(self):
        pass


err, _sys.stderr = _sys.stderr, Broken()
e = HuberMEstimator(0.7, tol=1e-8, verbosity=True)
try:
    e.fit(X)
    ok = np.allclose(e.covariance_, want)
except OSError:
    ok = not hasattr(e, 'covariance_')
finally:
    _sys.stderr = err
check(ok, "same result or the failure")
""")

bug("c16-skips-repeated-samples", "C16",
    [(ONL, "            self.update(X[iteration, :].reshape((1, n_features)), lr_update)",
      "            # the link delivers some samples twice\n"
      "            if iteration == 0 or (X[iteration] != X[iteration-1]).any():\n"
      "                self.update(X[iteration, :].reshape((1, n_features)), lr_update)")],
    "a stream with two equal samples in a row, given to fit",
    "the second of them is not applied, so one fit and single updates give different estimates",
    """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
from robuststats.models.manifolds import HermitianPositiveDefinite


def rgrad(X, e):
    return e - X.T@X.conj()


rng = np.random.RandomState(0)
X = rng.randn(6, 2) + 1j*rng.randn(6, 2)
X[3] = X[2]
a = S(HermitianPositiveDefinite(2), rgrad, 0.1).fit(X, init=np.eye(2, dtype=complex))
b = S(HermitianPositiveDefinite(2), rgrad, 0.1)
b.set_estimate(np.eye(2, dtype=complex))
for x in X:
    b.update(x.reshape(1, 2), "inverse iteration")
check(np.allclose(a.estimate_, b.estimate_), "one fit and single updates agree")
""")

bug("c17-estimate-before-conversion", "C17",
    [(ONL, "        self.set_estimate(estimate)\n        self._iteration += 1\n        return self",
      "        self._iteration += 1\n        self.set_estimate(estimate)\n        return self")],
    "an update whose conversion to a covariance fails, and its retry with decreasing steps",
    "the failed update counts as a step, so the retried sample is applied with a smaller one",
    """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
from robuststats.models.manifolds import HermitianPositiveDefinite
fail = [False]


def rgrad(X, e):
    return e - X.T@X.conj()


def tocov(e):
    if fail[0]:
        raise RuntimeError("conversion")
    return e


rng = np.random.RandomState(0)
X = rng.randn(3, 1, 2) + 1j*rng.randn(3, 1, 2)
a, b = [S(HermitianPositiveDefinite(2), rgrad, 0.1, estimatetocov=tocov) for _ in range(2)]
for e in (a, b):
    e.set_estimate(np.eye(2, dtype=complex))
for x in X:
    a.update(x, "inverse iteration")
for k, x in enumerate(X):
    if k == 1:
        fail[0] = True
        try:
            b.update(x, "inverse iteration")
        except RuntimeError:
            pass
        fail[0] = False
    b.update(x, "inverse iteration")
check(np.allclose(a.estimate_, b.estimate_), "retried stream")
""")

bug("c18-symmetric-by-sampling", "C18",
    [(BASE, "                    a_H = np.transpose(a, axes=(0, 2, 1)).conj()\n",
      "                    # a sample of the items is enough to tell\n"
      "                    few = a[:64]\n"
      "                    a_H = np.transpose(few, axes=(0, 2, 1)).conj()\n"),
     (BASE, "(np.abs(a - a_H) < self._tol)", "(np.abs(few - a_H) < self._tol)"),
     (BASE, "(np.abs(a + a_H) < self._tol)", "(np.abs(few + a_H) < self._tol)")],
    "more than 64 square items of which the first 64 are symmetric and a later one is not",
    "vectorize drops the lower half of matrices that are not symmetric",
    """
from robuststats.estimation.base import _FeatureArray
a = _FeatureArray((2, 2))
d = np.tile(np.eye(2), (70, 1, 1))
d[66, 1, 0] = 5
a.append(d)
v = a.vectorize()
check(v.shape == (70, 4) and (v == d.reshape(70, 4)).all(), "vectorised items keep their entries")
""")

bug("c18-slice-shares-memory", "C18",
    [(BASE, "        f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])\n        f_a.append(temp)\n        return f_a\n",
      "        f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])\n        f_a._array = temp\n        f_a._len = len(temp[0])\n        return f_a\n")],
    "a slice that is written to, or a source that grows over the items after a slice was appended to",
    "a slice is a view: what is written to it changes the source",
    """
from robuststats.estimation.base import _FeatureArray
a = _FeatureArray((2,))
a.append(np.arange(12.).reshape(6, 2))
s = a[1:4]
s.export()[0, 0] = 99
check(a.export()[1, 0] == 2, "source unchanged by a write to its slice")
""")

bug("c19-tyler-floor", "C19",
    [(COV, "        tau = np.einsum('ij,ji->i', temp.T, temp)\n        tau = (1/p) * tau\n",
      "        tau = np.einsum('ij,ji->i', temp.T, temp)\n        tau = (1/p) * np.maximum(tau, 1e-4*np.median(tau))\n")],
    "real Tyler with a sample of much smaller gain than the others",
    "samples of small gain weigh less, so the estimate depends on the gains",
    """
from robuststats.estimation.covariance import TylerShapeMatrix
rng = np.random.RandomState(0)
X = rng.randn(30, 3)
g = np.ones((30, 1))
g[:8] = 1e-3
T = TylerShapeMatrix(normalisation='trace', tol=1e-9, iter_max=500)
a = T.fit(X).covariance_
check(np.allclose(T.fit(g*X).covariance_, a, rtol=1e-5, atol=1e-6), "gain per sample is irrelevant")
""")

bug("c20-transport-of-stacks", "C20",
    [(MAN, "        else:\n            for i in range(len(E)):\n                E[i, :, :] = sqrtm(E[i, :, :])\n",
      "        else:\n            for i in range(len(E)):\n                E[i, :, :] = sqrtm(E[0 if i else i, :, :])\n")],
    "transport on a stack of two or more Hermitian positive definite matrices",
    "the matrices after the first are transported with the wrong map, so lengths change",
    """
from robuststats.models.manifolds import HermitianPositiveDefinite
np.random.seed(0)
m, one = HermitianPositiveDefinite(3, 2), HermitianPositiveDefinite(3)
x, y = m.rand(), m.rand()
d = m.randvec(x)
t = m.transp(x, y, d)
for i in range(2):
    check(np.allclose(t[i], one.transp(x[i], y[i], d[i])), "stacks act componentwise")
""")

bug("c20-first-order-retraction", "C20",
    [(MAN, "        return x + u + (1/2)*(x**-1)*(u**2)", "        return np.maximum(x + u, 1e-8)")],
    "a step on the positive vectors that is larger than the point",
    "a large step ends at the boundary rather than well inside (second order term missing)",
    """
from robuststats.models.manifolds import StrictlyPositiveVectors
m = StrictlyPositiveVectors(3)
x = np.array([[1e-9], [2.], [3.]])
y = m.retr(x, np.zeros((3, 1)))
check(np.allclose(y, x, rtol=1e-6, atol=0), "a zero step stays")
""")

WATCH = """
def watch(call, between):
    # between() after every line of the package run by call()
    busy = []

    def line(frame, event, arg):
        if not busy:
            busy.append(1)
            try:
                between()
            finally:
                busy.clear()
        return line

    def trace(frame, event, arg):
        return line if os.sep + "robuststats" + os.sep in frame.f_code.co_filename and \\
            not busy else None
    sys.settrace(trace)
    try:
        return call()
    finally:
        sys.settrace(None)
"""

bug("c21-frozen-centres-itself", "C21",
    [(PRB, "        x, _, _ = _check_parameters_array_complex_normal(\n"
      "            x, self._mean_orig, self._cov_orig)\n"
      "        return np.real(super(complex_multivariate_normal_frozen,\n"
      "                             self).logpdf(x))\n",
      "        x, mean, _ = _check_parameters_array_complex_normal(\n"
      "            x, self._mean_orig, self._cov_orig)\n"
      "        # the data are centred here, once\n"
      "        kept, self.mean = self.mean, np.zeros_like(self.mean)\n"
      "        try:\n"
      "            return np.real(super(complex_multivariate_normal_frozen,\n"
      "                                 self).logpdf(x - kept))\n"
      "        finally:\n"
      "            self.mean = kept\n")],
    "two threads that use one frozen normal distribution with a mean, one of them its density",
    "while a density is computed the distribution has another mean",
    WATCH + """
from robuststats.models.probability import complex_multivariate_normal
rng = np.random.RandomState(0)
m = np.arange(1., 3) + 2j
d = complex_multivariate_normal(m, np.eye(2) + 0j)
X = rng.randn(5, 2) + 1j*rng.randn(5, 2)
want = d.logpdf(X)
mean = np.array(d.mean)
seen = []
got = watch(lambda: d.logpdf(X), lambda: seen.append(np.array_equal(d.mean, mean)))
check(np.allclose(got, want), "the density")
check(all(seen), "the mean read by others during a density")
""")

bug("c21-vectorize-parts-on-self", "C21",
    [(BASE, "        temp = list()\n        for a in self._array:\n            a = a[:len(self)]\n            vec = None\n",
      "        temp = self._parts = list()\n        for a in self._array:\n            a = a[:len(self)]\n            vec = None\n"),
     (BASE, "            temp.append(vec)\n\n        vec = np.concatenate(temp, axis=1)\n",
      "            self._parts.append(vec)\n\n        vec = np.concatenate(self._parts, axis=1)\n")],
    "two threads that vectorise one feature array at the same time",
    "the parts of one call end up in the result of the other",
    WATCH + """
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2, 2), (1, 2))
f.append([np.arange(12.).reshape(3, 2, 2), np.arange(6.).reshape(3, 1, 2)])
want = f.vectorize()
for at in range(60):
    inner, lines = [], []

    def between():
        lines.append(1)
        if len(lines) == at:
            inner.append(f.vectorize())
    got = watch(f.vectorize, between)
    check(got.shape == want.shape and np.array_equal(got, want),
          "a vectorisation during which another ran")
    check(all(np.array_equal(v, want) for v in inner), "the other")
""")

bug("c22-errors-stay-ignored", "C22",
    [(COV, "    lbda = chi2.ppf(q, 2*p)/2    \n",
      "    lbda = chi2.ppf(q, 2*p)/2    \n    old = np.seterr(under='ignore', invalid='ignore')\n"),
     (COV, "    if verbosity:\n        pbar_v.close()\n\n\n    if iteration == iter_max:\n        LOGGER.warning('Estimation algorithm did not converge')\n\n    return sigma, delta, iteration\n",
      "    if verbosity:\n        pbar_v.close()\n\n    np.seterr(**old)\n    if iteration == iter_max:\n        LOGGER.warning('Estimation algorithm did not converge')\n\n    return sigma, delta, iteration\n", 3)],
    "a complex Huber estimation that fails or is interrupted during its iterations",
    "numpy's error handling of the program stays changed afterwards",
    """
from robuststats.estimation.covariance import ComplexHuberMEstimator
rng = np.random.RandomState(0)
X = rng.randn(40, 3) + 1j*rng.randn(40, 3)
np.seterr(all="warn")
ComplexHuberMEstimator(q=0.9).fit(X)
try:
    ComplexHuberMEstimator(q=0.9).fit(X, init=np.eye(4))
    check(False, "an initial point of another size is refused")
except (ValueError, np.linalg.LinAlgError):
    pass
check(np.geterr() == dict(divide="warn", over="warn", under="warn", invalid="warn"),
      "error handling after a failed fit: %s" % np.geterr())
""")

bug("c22-conversion-under-own-settings", "C22",
    [(ONL, "        covariance = self._estimate_to_cov(estimate)\n",
      "        with np.errstate(all='ignore'):\n            covariance = self._estimate_to_cov(estimate)\n"),
     (ONL, "from copy import deepcopy\n", "from copy import deepcopy\nimport numpy as np\n")],
    "an online estimator with a conversion, in a program that turns floating-point errors into exceptions",
    "the user's conversion runs with all floating-point errors ignored",
    """
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.models.manifolds import HermitianPositiveDefinite


def rgrad(x, theta):
    return theta - x.T @ x.conj()


def conversion(theta):
    seen.append(np.geterr())
    return theta


seen = []
X = np.random.RandomState(0).randn(4, 2) + 0j
with np.errstate(all="raise"):
    want = np.geterr()
    StochasticGradientCovarianceEstimator(
        HermitianPositiveDefinite(2), rgrad, .1, estimatetocov=conversion).fit(
            X, init=np.eye(2) + 0j)
check(seen and all(s == want for s in seen), "the conversion sees the program's settings")
""")

bug("c22-warns-by-changing-filters", "C22",
    [(BASE, "    if X.shape[0] == 1:\n        warnings.warn(",
      "    if len(X) == 1:\n        warnings.simplefilter(\"once\", UserWarning)\n        warnings.warn(")],
    "an empirical covariance of one sample in a program with warning filters of its own",
    "the program's warning filters are changed for good",
    """
import warnings
from robuststats.estimation.base import complex_empirical_covariance
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    before = list(warnings.filters)
    complex_empirical_covariance(np.ones((1, 2)) + 1j)
    check(list(warnings.filters) == before, "the warning filters")
""")

bug("c23-score-keeps-its-model", "C23",
    [(COV, "        logpdf = multivariate_t(\n"
      "            shape=self.covariance_, df=self.df).logpdf(X_test)\n",
      "        # freezing the model costs more than evaluating it\n"
      "        fitted = (self.df, self.iteration_, len(self.covariance_))\n"
      "        if getattr(self, '_model_of', None) != fitted:\n"
      "            self._model = multivariate_t(\n"
      "                shape=self.covariance_, df=self.df)\n"
      "            self._model_of = fitted\n"
      "        logpdf = self._model.logpdf(X_test)\n")],
    "a score, another fit of as many iterations, a score",
    "the score of the second fit is that of the first one's model",
    """
from robuststats.estimation.covariance import CenteredStudentMLE
rng = np.random.RandomState(0)
X = rng.standard_t(3, size=(40, 3))*[1., 2., 4.]
Y = rng.standard_t(3, size=(9, 3))
e = CenteredStudentMLE(df=3., iter_max=5, tol=0).fit(X)
e.score(Y)
want = CenteredStudentMLE(df=3., iter_max=5, tol=0).fit(2*X).score(Y)
check(np.isclose(e.fit(2*X).score(Y), want), "the score after a fit")
""")

bug("c23-kronecker-keeps-its-cost", "C23",
    [(STR, "        cost_function = _generate_cost_function_kronecker_student(\n"
      "            X_test, self.df, loc=self.location_\n"
      "        )\n",
      "        if getattr(self, '_test', (None, None))[0] is not X_test:\n"
      "            self._test = X_test, _generate_cost_function_kronecker_student(\n"
      "                X_test, self.df, loc=self.location_)\n"
      "        cost_function = self._test[1]\n")],
    "two scores of the same test array with a change of df or of the mean between them",
    "the second score is under the old degrees of freedom and mean",
    """
from robuststats.estimation.structured import KroneckerStudent
rng = np.random.RandomState(0)
X = rng.randn(40, 4) + 1j*rng.randn(40, 4)
Y = rng.randn(9, 4) + 1j*rng.randn(9, 4)
e = KroneckerStudent(2, 2, 3, assume_centered=False).fit(X)
e.score(Y)
e.fit(X + 1.)
want = KroneckerStudent(2, 2, 3, assume_centered=False).fit(X + 1.).score(Y)
check(np.isclose(e.score(Y), want, rtol=1e-4), "the score after another fit")
e.set_params(df=30)
f = KroneckerStudent(2, 2, 30, assume_centered=False)
f.A_, f.B_, f.location_ = e.A_, e.B_, e.location_
check(np.isclose(e.score(Y), f.score(Y)), "the score under the new df")
""")
