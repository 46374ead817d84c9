From 6df448a18e1aa231b2000465b5646856c7773a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/30] fix: FeaturesEstimation fits the copy of the estimator,
 not the shared prototype

The deep copy was made and then ignored, so every trial refitted the caller's
estimator, and workers sharing memory overwrote each other's estimates.
---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..3421e21 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -158,7 +158,7 @@ def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
         f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = f.fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From 8d383c4ec4bc33a6f1b12f589a387da53bfe320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/30] fix: CovariancesEstimation neither refits the caller's
 estimator nor truncates estimates

With n_jobs=1 the configured estimator itself was fitted to every trial, unlike
with n_jobs!=1, and integer-valued data gave integer (truncated) covariances.
---
 robuststats/estimation/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 3421e21..d878a29 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -258,11 +258,13 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
+        # an integer dtype would truncate the estimates
+        dtype = X.dtype if np.issubdtype(X.dtype, np.inexact) else float
+        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)
         if self.n_jobs == 1:
             for i in range(n_trials):
-                self.estimator.fit(X[i, :, :], **kwargs)
-                covmats[i, :, :] = self.estimator.covariance_
+                covmats[i, :, :] = _fit_transform_covariance_copy(
+                    self.estimator, X[i, :, :], **kwargs)
         else:
             cov_list = Parallel(n_jobs=self.n_jobs)(
                     delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
-- 
2.43.0


From 72bfa416821934c9b9eabd61ca4025886837493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/30] fix: temp_seed restores the generator when interrupted
 while seeding

An exception raised between seeding and entering the try block (such as a
KeyboardInterrupt) left the global generator seeded.
---
 robuststats/utils/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/utils/montecarlo.py b/robuststats/utils/montecarlo.py
index eb446ac..2103285 100644
--- a/robuststats/utils/montecarlo.py
+++ b/robuststats/utils/montecarlo.py
@@ -16,8 +16,8 @@ import numpy as np
 @contextlib.contextmanager
 def temp_seed(seed):
     state = np.random.get_state()
-    np.random.seed(seed)
     try:
+        np.random.seed(seed)
         yield
     finally:
         np.random.set_state(state)
-- 
2.43.0


From a93bfdffabe4f369f025d34e77b5702c40d492e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 04/30] fix: storing an estimate either replaces covariance_
 and precision_ or neither

A failure while computing the precision left the new covariance with the old
precision (and, for ComplexEmpiricalCovariance, the new location), and a real
estimate could share memory with the initial point given by the caller.
---
 robuststats/estimation/base.py | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index d878a29..685a221 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -342,6 +342,25 @@ class RealEmpiricalCovariance(EmpiricalCovariance, TransformerMixin):
     def transform(self, X):
         return self.covariance_
 
+    def _set_covariance(self, covariance):
+        """Saves the covariance and precision estimates
+
+        Parameters
+        ----------
+        covariance : array-like of shape (n_features, n_features)
+            Estimated covariance matrix to be stored, and from which precision
+            is computed.
+        """
+        covariance = check_array(covariance, copy=True)
+        # compute precision
+        if self.store_precision:
+            precision = linalg.pinvh(covariance, check_finite=False)
+        else:
+            precision = None
+        # set both at once, so that a failure leaves the previous ones
+        self.covariance_ = covariance
+        self.precision_ = precision
+
 
 class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
@@ -358,13 +377,14 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """
         covariance = covariancetocomplex(
             check_array(covariancetoreal(covariance)))
-        # set covariance
-        self.covariance_ = covariance
-        # set precision
+        # compute precision
         if self.store_precision:
-            self.precision_ = linalg.pinvh(covariance, check_finite=False)
+            precision = linalg.pinvh(covariance, check_finite=False)
         else:
-            self.precision_ = None
+            precision = None
+        # set both at once, so that a failure leaves the previous ones
+        self.covariance_ = covariance
+        self.precision_ = precision
 
     def _validate_data(self, X):
         X_verified = arraytocomplex(
@@ -389,13 +409,14 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         X = self._validate_data(X)
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1], dtype=complex)
+            location = np.zeros(X.shape[1], dtype=complex)
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
         covariance = complex_empirical_covariance(
             X, assume_centered=self.assume_centered)
 
         self._set_covariance(covariance)
+        self.location_ = location
 
         return self
 
-- 
2.43.0


From e4339f322d9d59f47183b6afc957f20ff0270d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 05/30] fix: _FeatureArray holds exactly the appended features

vectorize() also returned the preallocated rows; the first append shared memory
with the caller's array; components with different numbers of rows, or rows of
another shape, were accepted and corrupted the content; a rejected append
changed the container; an integer index other than int broke indexing.
---
 robuststats/estimation/base.py | 39 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 685a221..8e83811 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -72,7 +72,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if type(key) == int or isinstance(key, np.integer):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
@@ -87,39 +87,50 @@ class _FeatureArray():
         if type(data) == np.ndarray:
             data = [data]
 
-        if self._array is None:
-            self._array = [None]*len(self._shape)
-
         check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
 
-        for i, (a, d) in enumerate(zip(self._array, data)):
+        arrays = self._array
+        if arrays is None:
+            arrays = [None]*len(self._shape)
+
+        # Check all the components before changing any of them.
+        batches = list()
+        for a, d, shape in zip(arrays, data, self._shape):
             check_type(d, 'd', [np.ndarray, np.memmap])
             if a is not None:
                 check_value(d.dtype, 'd.dtype', [a.dtype])
 
             # Add batch dim.
-            if len(d.shape) == len(self._shape[i]):
+            if len(d.shape) == len(shape):
                 d = d[np.newaxis, ...]
 
-            check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.ndim, 'd.ndim', [len(shape)+1])
+            check_value(d.shape[1:], 'd.shape[1:]', [tuple(shape)])
+            if batches:
+                check_value(len(d), 'len(d)', [len(batches[0])])
+            batches.append(d)
 
+        new_arrays = list()
+        for a, d, shape in zip(arrays, batches, self._shape):
             if a is None:
-                self._array[i] = d
+                a = np.array(d)
             else:
-                shape = (self._size_preallocation, *(self._shape[i]))
-                while len(self) + len(d) > len(self._array[i]):
-                    a = self._array[i]
+                shape = (self._size_preallocation, *shape)
+                while len(self) + len(d) > len(a):
                     temp = np.zeros(shape, dtype=a.dtype)
-                    self._array[i] = np.concatenate([a, temp], axis=0)
-                self._array[i][len(self):len(self)+len(d)] = d
+                    a = np.concatenate([a, temp], axis=0)
+                a[len(self):len(self)+len(d)] = d
+            new_arrays.append(a)
 
-        self._len += len(d)
+        self._array = new_arrays
+        self._len += len(batches[0])
 
     def vectorize(self):
         check_positive(len(self), 'len(self)', strictly=True)
 
         temp = list()
         for a in self._array:
+            a = a[:len(self)]
             vec = None
             bs = len(a)
 
-- 
2.43.0


From 6c7e9eb4490711186d2971e7fbfa568ac52c62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 06/30] fix: Tyler estimators use their own current parameters
 and can be pickled

The estimation function was a closure built once over self: a copy kept using
the parameters of the original, set_params(method=...) had no effect and the
estimators could not be pickled.
---
 robuststats/estimation/covariance.py | 49 +++++++++++++---------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..72ff6d2 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -653,23 +653,21 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
 
     def set_method(self):
         # TODO: Add BCD
-        if self.method == 'fixed-point':
-            def estimation_function(X, init, **kwargs):
-                return tyler_shape_matrix_fixedpoint(
-                    X, init=init, tol=self.tol, iter_max=self.iter_max,
-                    normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-        elif self.method == 'natural gradient':
-            def estimation_function(X, init, **kwargs):
-                return tyler_shape_matrix_naturalgradient(
-                    X, init=init, normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-        else:
+        if self.method not in ('fixed-point', 'natural gradient'):
             logging.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+    def _estimation_function(self, X, init, **kwargs):
+        self.set_method()
+        if self.method == 'natural gradient':
+            return tyler_shape_matrix_naturalgradient(
+                X, init=init, normalisation=self.normalisation,
+                verbosity=self.verbosity, **kwargs)
+        return tyler_shape_matrix_fixedpoint(
+            X, init=init, tol=self.tol, iter_max=self.iter_max,
+            normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
@@ -1231,24 +1229,21 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
 
     def set_method(self):
         # TODO: Add BCD
-        if self.method == 'fixed-point':
-            def estimation_function(X, init, **kwargs):
-                return complex_tyler_shape_matrix_fixedpoint(
-                    X, init=init, tol=self.tol, iter_max=self.iter_max,
-                    normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-
-        elif self.method == 'natural gradient':
-            def estimation_function(X, init, **kwargs):
-                return complex_tyler_shape_matrix_naturalgradient(
-                    X, init=init, normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-        else:
+        if self.method not in ('fixed-point', 'natural gradient'):
             logging.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+    def _estimation_function(self, X, init, **kwargs):
+        self.set_method()
+        if self.method == 'natural gradient':
+            return complex_tyler_shape_matrix_naturalgradient(
+                X, init=init, normalisation=self.normalisation,
+                verbosity=self.verbosity, **kwargs)
+        return complex_tyler_shape_matrix_fixedpoint(
+            X, init=init, tol=self.tol, iter_max=self.iter_max,
+            normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
-- 
2.43.0


From 6f7d6ef0ece6af026d1c2d5aaa35e35cd2761722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 07/30] fix: Tyler estimators can be refitted after a natural
 gradient fit

iteration_ is None after a natural gradient fit and was compared with 0.
---
 robuststats/estimation/covariance.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 72ff6d2..f393614 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -511,7 +511,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.verbosity and self.iteration_ != 0:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = huber_m_estimator_fixed_point(
@@ -585,7 +585,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.verbosity and self.iteration_ != 0:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = student_t_mle_fixed_point(
@@ -685,7 +685,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.verbosity and self.iteration_ != 0:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
@@ -1083,7 +1083,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.verbosity and self.iteration_ != 0:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_huber_m_estimator_fixed_point(
@@ -1161,7 +1161,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.verbosity and self.iteration_ != 0:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_student_t_mle_fixed_point(
@@ -1261,7 +1261,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.verbosity and self.iteration_ != 0:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
-- 
2.43.0


From e1ff96337735d903525b184d52572be8bc58ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/30] fix: complex natural gradient Tyler accepts an initial
 point

The complex initial point was handed to the real solver unconverted.
---
 robuststats/estimation/covariance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index f393614..aafb248 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex,\
+                covariancetoreal
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -912,7 +913,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     """
     X_real = arraytoreal(X)
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
-        X_real, init=init, normalisation='None',
+        X_real, init=None if init is None else covariancetoreal(init),
+        normalisation='None',
         verbosity=verbosity, **kwargs
     )
     S = get_normalisation_function(normalisation)
-- 
2.43.0


From 2d3641d9e457e4cde8482230cf6b4a351a78ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 09/30] fix: Huber's M-estimators multiply the samples by their
 weights

They divided by them, which gave outliers more weight instead of less. The
thresholds of the real estimator were those of neither the real nor the complex
model (Gaussian consistency wants lambda=chi2.ppf(q, p), beta=E[psi]/p).
---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index aafb248..c444c25 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -159,8 +159,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
@@ -173,7 +173,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -763,7 +763,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From 10f3573ae99f404721c200a27ba7d15d521e0106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 10/30] fix: Student-t estimators solve their own likelihood
 equation

The constants of the real and complex fixed points were swapped, so that
neither maximised the likelihood its score method computes.
---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index c444c25..dab8507 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -247,9 +247,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -849,9 +849,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From c7a6e69ee97abfc7d5730e80fa8a5300f659ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 11/30] fix: Kronecker MM returns the final error, as
 documented, not the tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..4d68d66 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 3d25e36ea248a72cea01b0221ed13d61fef2eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 12/30] fix: Kronecker MM estimates A, not its transpose

With samples of covariance A kron B, x = vec(M) gives the quadratic form
trace(A^-T M^H B^-1 M); the transpose was missing, so that for complex data
kron(A_, B_) was not an estimate of the covariance.
---
 robuststats/estimation/structured.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 4d68d66..bf38932 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,8 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = (
+                M_i[:, :, i].T.conj() @ i_B @ M_i[:, :, i]).T
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +109,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 9422457210d589d0f270e39b95e4965fef363b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 13/30] fix: gradient of the Kronecker Student-t likelihood is
 that of its cost

It ignored the location, missed a conjugate transpose in the quadratic form and
used weights of another parametrisation than complex_multivariate_t, so that
the estimate was not a stationary point of the likelihood.
---
 robuststats/estimation/structured.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index bf38932..421362e 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -276,11 +276,13 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
+            M_i = Y[i, :].reshape((b, a), order='F')
+            S_i = (M_i.T.conj()@i_B@M_i).T
+            Q_i = np.real(np.trace(i_A@S_i))
+            weight = (df+2*a*b)/(df+2*Q_i)
 
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
+            grad_A -= weight * i_A@S_i@i_A
+            grad_B -= weight * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
         grad_A = grad_A/n_samples + b*i_A
         grad_B = grad_B/n_samples + a*i_B
 
-- 
2.43.0


From 7c12b7861b57c81d3a9aecc522e1fa5726ff0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/30] fix: KroneckerStudent follows parameters changed after
 construction

alpha and the manifold were computed once in the constructor, so set_params
(which clone and grid searches rely on) left them stale.
---
 robuststats/estimation/structured.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 421362e..bece068 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -351,9 +351,16 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self.a = a
         self.b = b
         self.df = df
-        self.alpha = (df+a*b)/(df+a*b+1)
         self.verbosity = verbosity
-        self.manifold = KroneckerHermitianPositiveElliptical(a, b, self.alpha)
+
+    @property
+    def alpha(self):
+        return (self.df+self.a*self.b)/(self.df+self.a*self.b+1)
+
+    @property
+    def manifold(self):
+        return KroneckerHermitianPositiveElliptical(
+            self.a, self.b, self.alpha)
 
     def fit(self, X, y=None, init=None):
         """Fits the Maximum Likelihood Estimator covariance model
-- 
2.43.0


From a9008bcf364888102b92176be4462bffe5c0f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 15/30] fix: a failed fit of a Kronecker estimator leaves the
 previous estimate

location_, A_ and B_ were replaced before the steps that can fail.
---
 robuststats/estimation/structured.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index bece068..002ec1e 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -174,9 +174,9 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
             X, self.a, self.b, tol=self.tol, iter_max=self.iter_max,
             verbosity=self.verbosity
         )
+        self._set_covariance(np.kron(A, B))
         self.A_ = A
         self.B_ = B
-        self._set_covariance(np.kron(A, B))
 
         return self
 
@@ -380,18 +380,19 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         """
         X = self._validate_data(X)
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1])
+            location = np.zeros(X.shape[1])
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
 
         # Using pymanopt solver to obtain estimate
         A, B = _estimate_covariance_kronecker_t_gradient(
-            X, self.df, self.a, self.b, self.manifold, self.location_,
+            X, self.df, self.a, self.b, self.manifold, location,
             self.verbosity, init
         )
+        self._set_covariance(np.kron(A, B))
+        self.location_ = location
         self.A_ = A
         self.B_ = B
-        self._set_covariance(np.kron(A, B))
 
         return self
 
-- 
2.43.0


From 1c7d40d81c27c3b1749bba4ea3217cadb000532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 16/30] fix: the Kronecker Student-t estimate does not share
 memory with init

When the initial point is already optimal the solver returns it unchanged.
---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 002ec1e..e67920c 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -336,7 +336,7 @@ def _estimate_covariance_kronecker_t_gradient(X, df, a, b, manifold,
     if init is None:
         theta_0 = (np.eye(a, dtype=complex), np.eye(b, dtype=complex))
     else:
-        theta_0 = init
+        theta_0 = tuple(np.array(factor, dtype=complex) for factor in init)
     A, B = solver.solve(problem, x=theta_0)
 
     return A, B
-- 
2.43.0


From ad33595dbcb4898630784d6b6ce045ccecefa017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 17/30] fix: KroneckerStudent.score is the log-likelihood of
 the fitted covariance

It ignored the fitted covariance, estimated another one from the test set and
returned the negative log-likelihood of that one.
---
 robuststats/estimation/structured.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index e67920c..83dc9a8 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -414,15 +414,8 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
-
-        return res
+        return -cost_function(self.A_, self.B_)
-- 
2.43.0


From 240c53cd9ab1224d895a97d87d68b8095588f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 18/30] fix: online set_estimate either succeeds or leaves the
 previous estimate

A failing conversion or check left estimate_ and covariance_ of different
states, and the estimate shared memory with the array given by the caller.
---
 robuststats/online/estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..0fe4d5e 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -10,6 +10,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
+from copy import deepcopy
 import logging
 from tqdm import tqdm
 
@@ -36,9 +37,10 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self._estimatetocov(estimate)
 
     def set_estimate(self, estimate):
-        self.estimate_ = estimate
+        estimate = deepcopy(estimate)
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.estimate_ = estimate
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-- 
2.43.0


From c463ce8fd27f9f92994ceb15e2a95241949eb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 19/30] fix: online step size decreases with the updates made
 since the initial point

update() never advanced the count, and fit() continued the one of the previous
fit, so that refitting the same data gave another estimate.
---
 robuststats/online/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 0fe4d5e..e85324a 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -68,6 +68,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         estimate = self._manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
+        self._iteration += 1
         return self
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
@@ -79,6 +80,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             )
             return self
 
+        self._iteration = 0
         n_samples, n_features = X.shape
         if self._verbosity:
             pbar_v = tqdm(total=n_samples)
@@ -92,6 +94,4 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                     cost = self._cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
-            self._iteration += 1
-
         return self
-- 
2.43.0


From b68a1f74f3866c3c1fcda8c9b3c9ea629b0ef69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 20/30] fix: StochasticGradientCovarianceEstimator exposes its
 parameters to get_params

Its constructor stored them under other names than those of its arguments, so
that get_params, set_params and clone raised AttributeError.
---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index e85324a..8242f4e 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -20,21 +20,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         estimate = deepcopy(estimate)
@@ -44,9 +44,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -57,7 +57,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -66,7 +66,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         self._iteration += 1
         return self
@@ -82,16 +82,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         self._iteration = 0
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
         return self
-- 
2.43.0


From a73a7d61833807590b97dea74ee9ffa017d891be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 21/30] fix: natural gradient descent of Tyler's cost works at
 points with equal eigenvalues

---
 robuststats/estimation/covariance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index dab8507..e197bdb 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -314,10 +314,14 @@ def _generate_Tyler_egrad(X, cost):
 
     n, p = X.shape
 
+    # In closed form: differentiating through the eigenvalues of Q fails
+    # when some of them are equal.
     @Callable
     def egrad(Q):
-        res = autograd.grad(cost, argnum=[0])(Q)
-        return res[0]
+        i_Q = la.inv(Q)
+        temp = i_Q@X.T
+        q = np.einsum('ij,ji->i', X, temp)
+        return n*i_Q - p*(temp/q)@temp.T
 
     return egrad
 
-- 
2.43.0


From 11e79da5525c9b0111465ab04831b323aef5313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 22/30] fix: complex natural gradient Tyler estimates the
 complex shape matrix

---
 robuststats/estimation/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index e197bdb..644bbcf 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -915,7 +915,9 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     int
         Always None. For compatibility purposes
     """
-    X_real = arraytoreal(X)
+    # The real equivalent of the samples rotated by i makes the minimum over
+    # all real matrices the equivalent of a complex one.
+    X_real = arraytoreal(np.concatenate([X, 1j*X]))
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=None if init is None else covariancetoreal(init),
         normalisation='None',
-- 
2.43.0


From 5aee4e23fe468572935ac0c8f61f598f4bc27546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 23/30] fix: line search of the natural gradient rejects steps
 that overflow

---
 robuststats/estimation/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 644bbcf..cc22cc6 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -291,7 +291,9 @@ def _generate_realTyler_cost_function(X):
 
     @Callable
     def cost(Q):
-        return Tyler_cost_real(X, Q, autograd=True)
+        value = Tyler_cost_real(X, Q, autograd=True)
+        # the line search must not accept a step so long that it overflows
+        return value if np.isfinite(value) else np.inf
     return cost
 
 @_deprecate_positional_args
-- 
2.43.0


From 9106faf69c7f671ac58d90b9cddac09f9536b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:15 +0000
Subject: [PATCH 24/30] fix: gradient of the Kronecker elliptical manifold
 follows its metric

---
 robuststats/models/manifolds.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..f4c4eb3 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -477,3 +477,16 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
             (self._alpha - 1) * (self._a**2) *\
             np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
         return _part_A + _part_B
+
+    def egrad2rgrad(self, X, U):
+        """Riemannian gradient, with regard to the metric of `inner`, from
+        the Euclidean gradient U at point X."""
+        rgrad = super().egrad2rgrad(X, U)
+        # The term in traces of the metric only changes the part of the
+        # gradient along B
+        trace = np.real(np.trace(la.solve(X[1], rgrad[1]),
+                                 axis1=-2, axis2=-1))
+        coef = (self._alpha - 1) * self._a * trace /\
+            (self._alpha + (self._alpha - 1) * self._a * self._b)
+        return _ProductTangentVector(
+            [rgrad[0], rgrad[1] - np.reshape(coef, coef.shape + (1, 1))*X[1]])
-- 
2.43.0


From 68c9e527aa47744e29937964937a6c775f257a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 25/30] fix: Kronecker elliptical metric of stacks of matrices

---
 robuststats/models/manifolds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index f4c4eb3..7e4f4d9 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,7 +475,8 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.sum(np.real(np.trace(_part_B_xi, axis1=-2, axis2=-1)) *
+                   np.real(np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
 
     def egrad2rgrad(self, X, U):
-- 
2.43.0


From f96b8e6fc8d365f7e1f52d89687ae8a70782fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:23 +0000
Subject: [PATCH 26/30] fix: distance of the Kronecker elliptical manifold
 follows its metric

---
 robuststats/models/manifolds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 7e4f4d9..1e72514 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -491,3 +491,7 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
             (self._alpha + (self._alpha - 1) * self._a * self._b)
         return _ProductTangentVector(
             [rgrad[0], rgrad[1] - np.reshape(coef, coef.shape + (1, 1))*X[1]])
+
+    def dist(self, X, Y):
+        """Geodesic distance with regard to the metric of `inner`."""
+        return self.norm(X, self.log(X, Y))
-- 
2.43.0


From 6a47fa9341a2e50629936b5f48c8a0f84b22212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:10 +0000
Subject: [PATCH 27/30] fix: retraction of Hermitian positive definite matrices
 stays Hermitian

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 1e72514..85721ec 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -204,7 +204,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
 
     def retr(self, x, u):
         r = x + u + (1/2)*u@la.solve(x, u)
-        return r
+        return multiherm(r)
 
     def log(self, x, y):
         k = self._k
-- 
2.43.0


From 3dc59647492b6bd4975cc072aa5d3245c7d56b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:46 +0000
Subject: [PATCH 28/30] fix: frozen distributions keep their own copy of real
 parameters

---
 robuststats/models/probability.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..dc86ab7 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -11,6 +11,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 # TODO: Rewrite doc since autodoc can't find scipy doc..
 
 import logging
+from copy import deepcopy
 from scipy.stats._multivariate import  multivariate_normal_gen,\
     multivariate_normal_frozen, multivariate_t_frozen,\
     multivariate_t_gen
@@ -91,6 +92,8 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
 
     def __init__(self, mean=None, cov=1, allow_singular=False, seed=None,
                  maxpts=None, abseps=1e-5, releps=1e-5):
+        # own copies: scipy would keep a reference to the arrays of the caller
+        mean, cov = deepcopy(mean), deepcopy(cov)
         self._mean_orig = mean
         self._cov_orig = cov
         mean, cov = _check_parameters_complex_normal(mean, cov)
@@ -310,6 +313,8 @@ class complex_multivariate_t_frozen(multivariate_t_frozen):
 
     def __init__(self, loc=None, shape=1, df=1, allow_singular=False,
                  seed=None):
+        # own copies: scipy would keep a reference to the arrays of the caller
+        loc, shape = deepcopy(loc), deepcopy(shape)
         self._loc_orig = loc
         self._shape_orig = shape
         loc, shape = _check_parameters_complex_normal(loc, shape)
-- 
2.43.0


From f0b1d346d355017c171355384584df4622c6b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 29/30] fix: log through module loggers, so that no handler is
 added to the root logger

---
 robuststats/estimation/covariance.py | 38 +++++++++++++++-------------
 robuststats/estimation/structured.py |  8 +++---
 robuststats/models/cost.py           |  6 +++--
 robuststats/models/mappings.py       | 12 +++++----
 robuststats/models/probability.py    |  6 +++--
 robuststats/online/estimation.py     |  6 +++--
 6 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index cc22cc6..8e823d7 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -38,6 +38,8 @@ import autograd
 import autograd.numpy as np_a
 import autograd.numpy.linalg as a_la
 
+LOGGER = logging.getLogger(__name__)
+
 def get_normalisation_function(normalisation=None):
     """Get normalisation function to perform for shape matrix
     as defined in subsection 3.1 of:
@@ -76,7 +78,7 @@ def get_normalisation_function(normalisation=None):
     elif normalisation == 'None':
         return (lambda x: 1)
     else:
-        logging.error(f'Normalisation type {normalisation} unknown. '
+        LOGGER.error(f'Normalisation type {normalisation} unknown. '
                       'Default to None.')
         return (lambda x: 1)
 
@@ -192,7 +194,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
 
 
     if iteration == iter_max:
-        logging.warning('Estimation algorithm did not converge')
+        LOGGER.warning('Estimation algorithm did not converge')
 
     return sigma, delta, iteration
 
@@ -267,7 +269,7 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
 
 
     if iteration == iter_max:
-        logging.warning('Estimation algorithm did not converge')
+        LOGGER.warning('Estimation algorithm did not converge')
 
     return sigma, delta, iteration
 
@@ -365,7 +367,7 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])
 
     # Pymanopt setting
-    logging.info("Seeting up pymanopt for natural gradient descent")
+    LOGGER.info("Seeting up pymanopt for natural gradient descent")
     manifold = SymmetricPositiveDefinite(n_features)
     cost = _generate_realTyler_cost_function(Y)
     egrad = _generate_Tyler_egrad(Y, cost)
@@ -448,7 +450,7 @@ def tyler_shape_matrix_fixedpoint(X, init=None, tol=1e-4,
         pbar_v.close()
 
     if iteration == iter_max:
-        logging.warning('Estimation algorithm did not converge')
+        LOGGER.warning('Estimation algorithm did not converge')
 
     return sigma/S(sigma), delta, iteration
 
@@ -519,7 +521,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
         self : object
         """
         if self.verbosity and self.iteration_ != 0:
-            logging.warning("Overwriting previous fit.")
+            LOGGER.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = huber_m_estimator_fixed_point(
             X, self.q, init=init, tol=self.tol,
@@ -593,7 +595,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         self : object
         """
         if self.verbosity and self.iteration_ != 0:
-            logging.warning("Overwriting previous fit.")
+            LOGGER.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
@@ -605,7 +607,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
 
     def score(self, X_test, y=None):
         if self.iteration_ ==0:
-            logging.error("Estimator hasn't been fitted yet !")
+            LOGGER.error("Estimator hasn't been fitted yet !")
             return None
         logpdf = multivariate_t(
             shape=self.covariance_, df=self.df).logpdf(X_test)
@@ -661,7 +663,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
     def set_method(self):
         # TODO: Add BCD
         if self.method not in ('fixed-point', 'natural gradient'):
-            logging.error("Estimation method not known.")
+            LOGGER.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
@@ -693,7 +695,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         self : object
         """
         if self.verbosity and self.iteration_ != 0:
-            logging.warning("Overwriting previous fit.")
+            LOGGER.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
@@ -801,7 +803,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
 
 
     if iteration == iter_max:
-        logging.warning('Estimation algorithm did not converge')
+        LOGGER.warning('Estimation algorithm did not converge')
 
     return sigma, delta, iteration
 
@@ -875,7 +877,7 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
 
 
     if iteration == iter_max:
-        logging.warning('Estimation algorithm did not converge')
+        LOGGER.warning('Estimation algorithm did not converge')
 
     return sigma, delta, iteration
 
@@ -1022,7 +1024,7 @@ def complex_tyler_shape_matrix_fixedpoint(X, init=None, tol=1e-4,
 
 
     if iteration == iter_max:
-        logging.warning('Estimation algorithm did not converge')
+        LOGGER.warning('Estimation algorithm did not converge')
 
     return sigma/S(sigma), delta, iteration
 
@@ -1094,7 +1096,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
         self : object
         """
         if self.verbosity and self.iteration_ != 0:
-            logging.warning("Overwriting previous fit.")
+            LOGGER.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_huber_m_estimator_fixed_point(
             X, self.q, init=init, tol=self.tol,
@@ -1172,7 +1174,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         self : object
         """
         if self.verbosity and self.iteration_ != 0:
-            logging.warning("Overwriting previous fit.")
+            LOGGER.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = complex_student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
@@ -1184,7 +1186,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
 
     def score(self, X_test, y=None, model='Gaussian'):
         if self.iteration_ ==0:
-            logging.error("Estimator hasn't been fitted yet !")
+            LOGGER.error("Estimator hasn't been fitted yet !")
             return None
         logpdf = complex_multivariate_t(
             shape=self.covariance_, df=self.df).logpdf(X_test)
@@ -1240,7 +1242,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
     def set_method(self):
         # TODO: Add BCD
         if self.method not in ('fixed-point', 'natural gradient'):
-            logging.error("Estimation method not known.")
+            LOGGER.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
@@ -1272,7 +1274,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         self : object
         """
         if self.verbosity and self.iteration_ != 0:
-            logging.warning("Overwriting previous fit.")
+            LOGGER.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 83dc9a8..bbea3a7 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -25,6 +25,8 @@ from .base import ComplexEmpiricalCovariance
 from ..models.probability import complex_multivariate_t
 from ..models.manifolds import KroneckerHermitianPositiveElliptical
 
+LOGGER = logging.getLogger(__name__)
+
 
 def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
                                        verbosity=False):
@@ -67,7 +69,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     Y = X.T
 
     if a*b != n_features:
-        logging.error(
+        LOGGER.error(
          f"Matrice size incompatible ({a}*{b} != {n_features})"
         )
         return None
@@ -128,7 +130,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
             pbar.set_description(f'(err={delta})', refresh=True)
 
     if iteration == iter_max:
-        logging.info('Recursive algorithm did not converge')
+        LOGGER.info('Recursive algorithm did not converge')
 
     return A, B, delta, iteration
 
@@ -198,7 +200,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        logging.error("Sorry, not implemented yet!")
+        LOGGER.error("Sorry, not implemented yet!")
         A, B, _, _ = estimation_cov_kronecker_MM(
             X_test, self.a, self.b, tol=self.tol, iter_max=self.iter_max,
             verbosity=self.verbosity
diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..ebaabc0 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -15,6 +15,8 @@ from ..utils.backend import get_be_autograd, get_be_la_autograd
 from ..utils.linalg import invsqrtm
 import logging
 
+LOGGER = logging.getLogger(__name__)
+
 def Tyler_cost_real(X, Q, autograd=False):
     """Generate cost function for gradient descent for Tyler cost function
     as given in eq. (25) of:
@@ -38,7 +40,7 @@ def Tyler_cost_real(X, Q, autograd=False):
     """
     
     if X.shape[1] != Q.shape[0]:
-        logging.error(
+        LOGGER.error(
             f"Incompatible shapes.Shape of X : {X.shape}. Shape of Q: {Q.shape}")
         raise AttributeError(
             f"Incompatible shapes.Shape of X : {X.shape}. Shape of Q: {Q.shape}")
@@ -77,7 +79,7 @@ def Tyler_cost_complex(X, Q, autograd=False):
     """
     
     if X.shape[1] != Q.shape[0]:
-        logging.error(
+        LOGGER.error(
             f"Incompatible shapes.Shape of X : {X.shape}. Shape of Q: {Q.shape}")
         raise AttributeError(
             f"Incompatible shapes.Shape of X : {X.shape}. Shape of Q: {Q.shape}")
diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..cb2474e 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -14,6 +14,8 @@ import numpy as np
 # import numpy.linalg as la
 import logging
 
+LOGGER = logging.getLogger(__name__)
+
 
 def arraytoreal(a):
     """Returns a real equivalent of input complex array used in various taks.
@@ -41,7 +43,7 @@ def arraytoreal(a):
         else:
             raise AttributeError("Input array format not supported.")
     else:
-        logging.debug("Input array is not complex, returning input")
+        LOGGER.debug("Input array is not complex, returning input")
         return a
 
 
@@ -96,7 +98,7 @@ def covariancestoreal(a):
         when input array format is not of dimension 3.
     """
     if not np.iscomplexobj(a):
-        logging.debug("Input array is not complex, returning input")
+        LOGGER.debug("Input array is not complex, returning input")
         return a
     elif a.ndim == 3:
         n_samples, n_features, _ = a.shape
@@ -128,7 +130,7 @@ def covariancestocomplex(a):
         when input array format is not of dimension 2 or shape is not even.
     """
     if np.iscomplexobj(a):
-        logging.debug("Input array is already complex, returning input.")
+        LOGGER.debug("Input array is already complex, returning input.")
         return a
     elif a.ndim == 3 and a.shape[1] % 2 == 0:
         n_samples, n_features, _ = a.shape
@@ -168,7 +170,7 @@ def covariancetoreal(a):
         else:
             raise AttributeError("Input array is not a covariance.")
     else:
-        logging.debug("Input array is not complex, returning input.")
+        LOGGER.debug("Input array is not complex, returning input.")
         return a
 
 
@@ -202,7 +204,7 @@ def covariancetocomplex(a):
             raise AttributeError("Input array format not supported.")
 
     else:
-        logging.debug("Input is already a complex array, returning input.")
+        LOGGER.debug("Input is already a complex array, returning input.")
         return a
 
 
diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index dc86ab7..edd726a 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -19,6 +19,8 @@ import numpy as np
 from .mappings import covariancetoreal,\
     arraytoreal, arraytocomplex
 
+LOGGER = logging.getLogger(__name__)
+
 
 def _check_parameters_complex_normal(mean, cov):
     """Check real or complex nature of mutivariate normal
@@ -74,12 +76,12 @@ def _check_parameters_array_complex_normal(X, mean, cov):
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
     if np.iscomplexobj(cov):
         if np.isrealobj(X):
-            logging.warning(
+            LOGGER.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
         return arraytoreal(X.astype(complex)), mean_map, cov_map
     elif np.iscomplexobj(X) and np.isrealobj(cov):
-        logging.warning(
+        LOGGER.warning(
             "Input data is complex while parameters of model are not."
             " Discarding imaginary part of data")
         return np.real(X), mean, cov
diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 8242f4e..f7c3664 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -14,6 +14,8 @@ from copy import deepcopy
 import logging
 from tqdm import tqdm
 
+LOGGER = logging.getLogger(__name__)
+
 
 class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
     def __init__(self, manifold, rgrad, lrate,
@@ -51,7 +53,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
     def update(self, X, lr_update):
 
         if self.estimate_ is None:
-            logging.error(
+            LOGGER.error(
              "Estimator not initilaized, use method set_estimate beforehand."
             )
             return self
@@ -75,7 +77,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         self.set_estimate(init)
         if self.estimate_ is None:
-            logging.error(
+            LOGGER.error(
              "Estimator not initilaized. Please provide an initial point."
             )
             return self
-- 
2.43.0


From 429bbbd9c0da3c211a550a9539e23e4a4ea10db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:33 +0000
Subject: [PATCH 30/30] fix: error norms of complex covariances are norms

---
 robuststats/estimation/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 8e83811..a985e60 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -436,8 +436,19 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        # squares of scikit-learn are those of real numbers
+        if norm == "frobenius":
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == "spectral":
+            squared_norm = np.amax(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented"
+            )
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0

