# Another rewriting, see refactor1.py
import re,sys
R=sys.argv[1]+'/robuststats/'
def sub(f, pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a[:80])
        s=s.replace(a,b)
    open(R+f,'w').write(s)
sub('estimation/base.py',[
("from copy import deepcopy\nfrom joblib import Parallel, delayed\n","import copy\nimport functools\nimport joblib\n"),
("deepcopy(estimator)","copy.deepcopy(estimator)"),
("Parallel(n_jobs","joblib.Parallel(n_jobs"),("delayed(","joblib.delayed("),
('''                while len(self) + len(d) > len(a):
                    temp = np.zeros(shape, dtype=a.dtype)
                    a = np.concatenate([a, temp], axis=0)
''','''                needed = len(self) + len(d)
                if needed > len(a):
                    grown = np.zeros((max(2*len(a), needed), *shape[1:]),
                                     dtype=a.dtype)
                    grown[:len(self)] = a[:len(self)]
                    a = grown
'''),
('''        if self.n_jobs == 1:
            for i in range(n_trials):
                covmats[i, :, :] = _fit_transform_covariance_copy(
                    self.estimator, X[i, :, :], **kwargs)
        else:
            cov_list = joblib.Parallel(n_jobs=self.n_jobs)(
                    joblib.delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
                    for x in X
                )
            for i, cov in enumerate(cov_list):
                covmats[i, :, :] = cov
        return covmats
''','''        run = joblib.Parallel(n_jobs=self.n_jobs) if self.n_jobs != 1 else _sequential
        cov_list = run(
            joblib.delayed(_fit_transform_covariance_copy)(
                self.estimator, trial, **kwargs) for trial in X)
        for trial in range(n_trials):
            covmats[trial] = cov_list[trial]
        return covmats
'''),
('''def _fit_transform_covariance_copy(''','''def _sequential(tasks):
    return [function(*args, **kwargs) for function, args, kwargs in tasks]


def _fit_transform_covariance_copy('''),
('''def _feature_estimation(estimator):
    def wrapper(data, **kwargs):
        # estimation
        f = copy.deepcopy(estimator)
        f = f.fit_transform(data, **kwargs)

        # return a _FeatureArray
        if type(f) in [np.float64, np.complex128]:
            f = np.array([f])
        if type(f) == np.ndarray:
            f = [f]
        f_a = _FeatureArray(*[f[i].shape for i in range(len(f))])
        f_a.append(f)

        return f_a
    return wrapper
''','''def _estimate_features(estimator, data, **kwargs):
    # estimation
    f = copy.deepcopy(estimator)
    f = f.fit_transform(data, **kwargs)

    # return a _FeatureArray
    if type(f) in [np.float64, np.complex128]:
        f = np.array([f])
    if type(f) == np.ndarray:
        f = [f]
    f_a = _FeatureArray(*[x.shape for x in f])
    f_a.append(f)

    return f_a


def _feature_estimation(estimator):
    return functools.partial(_estimate_features, estimator)
'''),
('''        array = features_list[0]
        for data in features_list[1:]:
            array.append(data)
        return array
''','''        first = features_list[0]
        array = _FeatureArray(*first._shape)
        for data in features_list:
            array.append(data)
        return array
'''),
('''        # set both at once, so that a failure leaves the previous ones
        self.covariance_ = covariance
        self.precision_ = precision
''','''        # set both at once, so that a failure leaves the previous ones
        self.covariance_, self.precision_ = covariance, precision
'''),
])
c=open(R+'estimation/covariance.py').read()
# a common fit
fit_re=re.compile(r'''    def fit\(self, X, y=None, init=None, \*\*kwargs\):
        """.*?"""
        if self\.verbosity and self\.iteration_ != 0:
            LOGGER\.warning\("Overwriting previous fit\."\)
        X = self\._validate_data\(X\)
        covariance, err, iteration = (.*?)\n        self\._set_covariance\(covariance\)
        self\.err_ = err
        self\.iteration_ = iteration
        return self
''',re.S)
def rep(m):
    call=m.group(1)
    if call.startswith('self._estimation_function'): return ''
    return '    def _estimation_function(self, X, init, **kwargs):\n        return '+call+'\n'
c,n=fit_re.subn(rep,c); assert n==6,n
c=c.replace('''# -----------------------------------------------------------------------------
# Real-valued estimators
''','''class _IterativeFit():
    """Fit of the estimators that return an error and a number of iterations."""

    def fit(self, X, y=None, init=None, **kwargs):
        """Fits the estimator.

        Parameters
        ----------
        X : array-like of shape (n_samples, n_features)
          Training data, where n_samples is the number of samples and
          n_features is the number of features.
        y : Ignored
            Not used, present for API consistency by convention.
        init : array-like of shape (n_features, n_features), optional
            Initial point to start the estimation.
        Returns
        -------
        self : object
        """
        if self.verbosity and self.iteration_ != 0:
            LOGGER.warning("Overwriting previous fit.")
        X = self._validate_data(X)
        result = self._estimation_function(X, init, **kwargs)
        self._set_covariance(result[0])
        self.err_, self.iteration_ = result[1:]
        return self


# -----------------------------------------------------------------------------
# Real-valued estimators
''',1)
for n in ('HuberMEstimator','CenteredStudentMLE','TylerShapeMatrix'):
    c=c.replace(f'class {n}(Real',f'class {n}(_IterativeFit, Real').replace(f'class Complex{n}(Complex',f'class Complex{n}(_IterativeFit, Complex')
# loops rewritten
c=c.replace('    while (delta > tol) and (iteration < iter_max):','    while not (delta <= tol) and iteration < iter_max and delta == delta:' if False else '    while iteration < iter_max and delta > tol:')
c=c.replace('temp = X.T / np.sqrt(tau)\n        sigma_new = (1/N) * temp@temp.T','sigma_new = (X.T/tau)@X/N\n        sigma_new = (sigma_new + sigma_new.T)/2')
c=c.replace('temp = X.T / np.sqrt(tau)\n        sigma_new = (1/N) * temp@temp.conj().T','sigma_new = (X.T/tau)@X.conj()/N\n        sigma_new = (sigma_new + sigma_new.conj().T)/2')
c=c.replace('''    def trace(covariance):
        return np.real(np.trace(covariance)) / covariance.shape[0]
''','''    def trace(covariance):
        return np.mean(np.real(np.diag(covariance)))
''')
c=c.replace('''    if normalisation == 'trace':
        return trace
    elif normalisation == 'determinant':
        return determinant
    elif normalisation == 'element':
        return element
    elif normalisation == 'None':
        return (lambda x: 1)
    else:
''','''    functions = {'trace': trace, 'determinant': determinant,
                 'element': element, 'None': (lambda x: 1)}
    try:
        return functions[normalisation]
    except (KeyError, TypeError):
''')
open(R+'estimation/covariance.py','w').write(c)
sub('estimation/structured.py',[
('''        self._set_covariance(np.kron(A, B))
        self.location_ = location
        self.A_ = A
        self.B_ = B
''','''        self._set_covariance(np.kron(A, B))
        self.location_, self.A_, self.B_ = location, A, B
'''),
('''        sqrtm_A = sp.linalg.sqrtm(A)
        sqrtm_B = sp.linalg.sqrtm(B)
        isqrtm_A = la.inv(sqrtm_A)
        isqrtm_B = la.inv(sqrtm_B)
''','''        (sqrtm_A, isqrtm_A), (sqrtm_B, isqrtm_B) = _roots(A), _roots(B)
'''),
('''class KroneckerEllipticalMM(''','''def _roots(M):
    root = sp.linalg.sqrtm(M)
    return root, la.inv(root)


class KroneckerEllipticalMM('''),
])
sub('online/estimation.py',[
('''        t = self._current_lr(lr_update, self._iteration)
        if isinstance(nabla, list):
            t_nabla = [t*x for x in nabla]
        elif isinstance(nabla, tuple):
            t_nabla = tuple([t*x for x in nabla])
        else:
            t_nabla = t*nabla
''','''        t = self._current_lr(lr_update, self._iteration)
        if isinstance(nabla, (list, tuple)):
            t_nabla = type(nabla)([t*x for x in nabla])
        else:
            t_nabla = t*nabla
'''),
('''        if self.estimatetocov is None:
            return estimate
        else:
            return self.estimatetocov(estimate)
''','''        to_cov = self.estimatetocov
        return estimate if to_cov is None else to_cov(estimate)
'''),
('''        for iteration in range(n_samples):
            self.update(X[iteration, :].reshape((1, n_features)), lr_update)
''','''        for sample in X.reshape((n_samples, 1, n_features)):
            self.update(sample, lr_update)
'''),
])
m=open(R+'models/manifolds.py').read()
m=m.replace('''        c = la.cholesky(x)
        c_inv = la.inv(c)
        logm = multilog(multiprod(multiprod(c_inv, y), multihconj(c_inv)),
                        pos_def=True)
        return np.real(la.norm(logm))''','''        c_inv = la.inv(la.cholesky(x))
        d = la.eigvalsh(c_inv@y@multihconj(c_inv))
        return la.norm(np.log(d))''')
m=m.replace('''        return np.sum([weights[k]*np.squeeze(man.inner(X[k], G[k], H[k]))
                       for k, man in enumerate(self._manifolds)])''','''        return sum(w*np.squeeze(man.inner(x, g, h)) for w, man, x, g, h
                   in zip(weights, self._manifolds, X, G, H))''')
m=m.replace("        return multiprod(multiprod(x, multiherm(u)), x)","        return x@multiherm(u)@x")
m=m.replace("np.complex)","complex)")
m=m.replace('''        transp_d = multiprod(multiprod(E, d), multihconj(E))
        return transp_d''','''        return E@d@multihconj(E)''')
open(R+'models/manifolds.py','w').write(m)
sub('utils/checking.py',[('''    if strictly:
        condition = var > 0
    else:
        condition = var >= 0

    if not condition:''','''    if not (var > 0 if strictly else var >= 0):''')])
sub('utils/linalg.py',[('''    def power(x):
        return x**alpha
    return _matrix_operator(Ci, power, autograd)''','''    return _matrix_operator(Ci, lambda x: x**alpha, autograd)'''),
('''    def isqrt(x):
        return 1. / be.sqrt(x)
    return _matrix_operator(Ci, isqrt, autograd)''','''    return _matrix_operator(Ci, lambda x: 1. / be.sqrt(x), autograd)'''),
("    return 0.5 * (A + multihconj(A, autograd))","    A_H = multihconj(A, autograd)\n    return (A + A_H)/2")])
sub('utils/generation_data.py',[
('''    temp = np.sqrt(tau).reshape((1, -1))
    X = temp*sample_normal_distribution(N, cov)
    return X''','''    X = sample_normal_distribution(N, cov)
    return X*np.sqrt(tau).ravel()'''),
('''    textures = random.gamma(nu, 1/nu, size=(N, 1))
    return textures''','''    return random.gamma(shape=nu, scale=1/nu, size=(N, 1))'''),
('''        sigma = sigma/(np.real(la.det(sigma))**(1/p))''','''        sigma = _to_unit_det(sigma)'''),
('''def generate_covariance(''','''def _to_unit_det(sigma):
    det = np.real(la.det(sigma))
    return sigma/det**(1/len(sigma))


def generate_covariance('''),
])
p=open(R+'models/probability.py').read()
p=p.replace('super(complex_multivariate_normal_frozen,\n              self).__init__','super().__init__').replace('''super(complex_multivariate_normal_gen,
                             self)''','super()').replace('''    mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
    if np.iscomplexobj(cov):''','''    if np.iscomplexobj(cov):
        mean_map, cov_map = _check_parameters_complex_normal(mean, cov)''')
p=p.replace('''    elif np.iscomplexobj(X) and np.isrealobj(cov):
        LOGGER''','''    if np.iscomplexobj(X):
        LOGGER''')
p=p.replace('''        return np.real(X), mean, cov
    else:
        return X, mean, cov''','''        X = np.real(X)
    return X, mean, cov''')
open(R+'models/probability.py','w').write(p)
sub('utils/verbose.py',[('''        if self._logger is not None:
            return self._logger
        return LOGGER''','''        return LOGGER if self._logger is None else self._logger''')])
