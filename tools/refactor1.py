# Rewrites a copy of the repository without changing what it does: refactor1.py DIR
import re,sys
R=sys.argv[1]+'/robuststats/'
def sub(f, pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a[:80])
        s=s.replace(a,b)
    open(R+f,'w').write(s)
sub('estimation/base.py',[
('''        a = self._array
        a = [a[i][:len(self)] for i in range(len(a))]
        temp = [a[i][key] for i in range(len(a))]
        if type(key) == int or isinstance(key, np.integer):
            temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
        f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
        f_a.append(temp)
        return f_a
''','''        size = len(self)
        scalar_key = isinstance(key, np.integer) or type(key) == int
        selected = []
        for component in self._array:
            part = component[:size][key]
            if scalar_key:
                part = np.expand_dims(part, 0)
            selected.append(part)
        result = _FeatureArray(*(part.shape[1:] for part in selected))
        result.append(selected)
        return result
'''),
('''        arrays = self._array
        if arrays is None:
            arrays = [None]*len(self._shape)

        # Check all the components before changing any of them.
        batches = list()
        for a, d, shape in zip(arrays, data, self._shape):
            check_type(d, 'd', [np.ndarray, np.memmap])
            if a is not None:
                check_value(d.dtype, 'd.dtype', [a.dtype])

            # Add batch dim.
            if len(d.shape) == len(shape):
                d = d[np.newaxis, ...]

            check_value(d.ndim, 'd.ndim', [len(shape)+1])
            check_value(d.shape[1:], 'd.shape[1:]', [tuple(shape)])
            if batches:
                check_value(len(d), 'len(d)', [len(batches[0])])
            batches.append(d)

        new_arrays = list()
        for a, d, shape in zip(arrays, batches, self._shape):
            if a is None:
                a = np.array(d)
            else:
                shape = (self._size_preallocation, *shape)
                while len(self) + len(d) > len(a):
                    temp = np.zeros(shape, dtype=a.dtype)
                    a = np.concatenate([a, temp], axis=0)
                a[len(self):len(self)+len(d)] = d
            new_arrays.append(a)

        self._array = new_arrays
        self._len += len(batches[0])
''','''        batches = self._check_batches(data)
        size = len(batches[0])
        if self._array is None:
            stored = [np.array(d) for d in batches]
        else:
            stored = [self._extended(a, d)
                      for a, d in zip(self._array, batches)]
        self._array, self._len = stored, self._len + size

    def _check_batches(self, data):
        """Batches to append, all checked before any of them is stored."""
        batches = list()
        for i, (d, shape) in enumerate(zip(data, self._shape)):
            check_type(d, 'd', [np.ndarray, np.memmap])
            if self._array is not None:
                check_value(d.dtype, 'd.dtype', [self._array[i].dtype])
            # Add batch dim.
            if d.ndim == len(shape):
                d = np.expand_dims(d, 0)
            check_value(d.ndim, 'd.ndim', [len(shape)+1])
            check_value(d.shape[1:], 'd.shape[1:]', [tuple(shape)])
            if i > 0:
                check_value(len(d), 'len(d)', [len(batches[0])])
            batches.append(d)
        return batches

    def _extended(self, a, d):
        """Array a, with d after the batches it already holds."""
        start, stop = len(self), len(self) + len(d)
        missing = stop - len(a)
        if missing > 0:
            blocks = -(-missing // self._size_preallocation)
            temp = np.zeros((blocks*self._size_preallocation, *a.shape[1:]),
                            dtype=a.dtype)
            a = np.concatenate([a, temp], axis=0)
        a[start:stop] = d
        return a
'''),
('''        temp = list()
        for a in self._array:
            a = a[:len(self)]
            vec = None
            bs = len(a)

            # check if matrix
            if a.ndim == 3:
                # check if square
                _, p, q = a.shape
                if p == q:
                    # check if matrices are symmetric or skew-symmetric
                    a_H = np.transpose(a, axes=(0, 2, 1)).conj()
                    condition_sym = (np.abs(a - a_H) < self._tol).all()
                    condition_skew = (np.abs(a + a_H) < self._tol).all()
                    if condition_sym or condition_skew:
                        indices = np.triu_indices(p)
                        a = a[:, indices[0], indices[1]]

            vec = a.reshape((bs, -1))

            temp.append(vec)

        vec = np.concatenate(temp, axis=1)

        return vec
''','''        return np.concatenate(
            [self._vectorize_one(a[:len(self)]) for a in self._array], axis=1)

    def _vectorize_one(self, a):
        if a.ndim == 3 and a.shape[1] == a.shape[2]:
            # check if matrices are symmetric or skew-symmetric
            a_H = a.conj().swapaxes(1, 2)
            if np.max(np.abs(a - a_H), initial=0) < self._tol or\\
                    np.max(np.abs(a + a_H), initial=0) < self._tol:
                rows, cols = np.triu_indices(a.shape[1])
                a = a[:, rows, cols]
        return a.reshape((len(a), -1))
'''),
('''        a = [self._array[i][:len(self)] for i in range(self.nb_manifolds)]
        for i in range(len(a)):
            if len(a[i]) == 1:
                a[i] = np.squeeze(a[i], axis=0)
        if self.nb_manifolds == 1:
            a = a[0]
        return a
''','''        n = len(self)
        exported = [a[0] if n == 1 else a[:n] for a in self._array]
        return exported[0] if self.nb_manifolds == 1 else exported
'''),
('''        f = deepcopy(estimator)
        f = f.fit_transform(data, **kwargs)

        # return a _FeatureArray
        if type(f) in [np.float64, np.complex128]:
            f = np.array([f])
        if type(f) == np.ndarray:
            f = [f]
        f_a = _FeatureArray(*[f[i].shape for i in range(len(f))])
        f_a.append(f)

        return f_a
''','''        features = deepcopy(estimator).fit_transform(data, **kwargs)
        if type(features) in (np.float64, np.complex128):
            features = np.array([features])
        if type(features) == np.ndarray:
            features = [features]
        # return a _FeatureArray
        array = _FeatureArray(*[f.shape for f in features])
        array.append(features)
        return array
'''),
('''        features_list = Parallel(n_jobs=self.n_jobs)(
            delayed(estimation_function)(x) for x in X)
        array = features_list[0]
        for data in features_list[1:]:
            array.append(data)
        return array
''','''        tasks = (delayed(estimation_function)(X[i]) for i in range(len(X)))
        first, *others = Parallel(n_jobs=self.n_jobs)(tasks)
        for other in others:
            first.append(other)
        return first
'''),
('''        if self.n_jobs == 1:
            for i in range(n_trials):
                covmats[i, :, :] = _fit_transform_covariance_copy(
                    self.estimator, X[i, :, :], **kwargs)
        else:
            cov_list = Parallel(n_jobs=self.n_jobs)(
                    delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
                    for x in X
                )
            for i, cov in enumerate(cov_list):
                covmats[i, :, :] = cov
        return covmats
''','''        if self.n_jobs == 1:
            covariances = (_fit_transform_covariance_copy(self.estimator, x, **kwargs)
                           for x in X)
        else:
            covariances = self._parallel(X, kwargs)
        for covmat, covariance in zip(covmats, covariances):
            covmat[...] = covariance
        return covmats

    def _parallel(self, X, kwargs):
        parallel = Parallel(n_jobs=self.n_jobs)
        fit = delayed(_fit_transform_covariance_copy)
        return parallel(fit(self.estimator, x, **kwargs) for x in X)
'''),
('''    est = deepcopy(estimator)
    est.fit(x, **kwargs)
    return est.covariance_
''','''    return deepcopy(estimator).fit(x, **kwargs).covariance_
'''),
('''    if assume_centered:
        covariance = np.dot(X.T, X.conj()) / X.shape[0]
    else:
        covariance = np.cov(X.T, bias=1)

    if covariance.ndim == 0:
        covariance = np.array([[covariance]])
    return covariance
''','''    n_samples = X.shape[0]
    if not assume_centered:
        X = X - X.mean(axis=0, keepdims=True)
    return X.T @ X.conj() / n_samples
'''),
('''        covariance = check_array(covariance, copy=True)
        # compute precision
        if self.store_precision:
            precision = linalg.pinvh(covariance, check_finite=False)
        else:
            precision = None
        # set both at once, so that a failure leaves the previous ones
        self.covariance_ = covariance
        self.precision_ = precision

''','''        self._store_covariance(check_array(covariance, copy=True))

    def _store_covariance(self, covariance):
        # compute precision
        precision = None
        if self.store_precision:
            precision = linalg.pinvh(covariance, check_finite=False)
        # set both at once, so that a failure leaves the previous ones
        self.precision_ = precision
        self.covariance_ = covariance

'''),
('''        covariance = covariancetocomplex(
            check_array(covariancetoreal(covariance)))
        # compute precision
        if self.store_precision:
            precision = linalg.pinvh(covariance, check_finite=False)
        else:
            precision = None
        # set both at once, so that a failure leaves the previous ones
        self.covariance_ = covariance
        self.precision_ = precision
''','''        checked = check_array(covariancetoreal(covariance))
        self._store_covariance(covariancetocomplex(checked))
'''),
('''        X_verified = arraytocomplex(
         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
        )
        return X_verified
''','''        return arraytocomplex(super()._validate_data(arraytoreal(X)))
'''),
('''        if self.assume_centered:
            location = np.zeros(X.shape[1], dtype=complex)
        else:
            location = X.mean(0)
        covariance = complex_empirical_covariance(
            X, assume_centered=self.assume_centered)

        self._set_covariance(covariance)
        self.location_ = location
''','''        covariance = complex_empirical_covariance(
            X, assume_centered=self.assume_centered)
        location = np.zeros(X.shape[1], dtype=complex)\\
            if self.assume_centered else np.mean(X, axis=0)

        self._set_covariance(covariance)
        self.location_ = location
'''),
('''        error = comp_cov - self.covariance_
        # squares of scikit-learn are those of real numbers
        if norm == "frobenius":
            squared_norm = np.sum(np.abs(error)**2)
        elif norm == "spectral":
            squared_norm = np.amax(linalg.svdvals(error))**2
        else:
            raise NotImplementedError(
                "Only spectral and frobenius norms are implemented"
            )
        if scaling:
            squared_norm = squared_norm / error.shape[0]
        return squared_norm if squared else np.sqrt(squared_norm)
''','''        if norm not in ("frobenius", "spectral"):
            raise NotImplementedError(
                "Only spectral and frobenius norms are implemented"
            )
        error = comp_cov - self.covariance_
        # squares of scikit-learn are those of real numbers
        value = linalg.norm(error, ord='fro' if norm == "frobenius" else 2)
        if scaling:
            value = value / np.sqrt(error.shape[0])
        return value**2 if squared else value
'''),
])
sub('online/estimation.py',[
('''        if isinstance(nabla, list):
            t_nabla = [t*x for x in nabla]
        elif isinstance(nabla, tuple):
            t_nabla = tuple([t*x for x in nabla])
        else:
            t_nabla = t*nabla

        estimate = self.manifold.retr(self.estimate_, t_nabla)
        self.set_estimate(estimate)
''','''        self.set_estimate(
            self.manifold.retr(self.estimate_, self._scaled(nabla, t)))
'''),
('''    def _current_lr(self, lr_update, iteration):
        if lr_update == "inverse iteration":
            return self.lrate/(iteration+1)
        else:
            return self.lrate
''','''    @staticmethod
    def _scaled(nabla, t):
        if isinstance(nabla, list):
            return [x*t for x in nabla]
        if isinstance(nabla, tuple):
            return tuple(x*t for x in nabla)
        return nabla*t

    def _current_lr(self, lr_update, iteration):
        divisor = iteration+1 if lr_update == "inverse iteration" else 1
        return self.lrate/divisor
'''),
('''        for iteration in range(n_samples):
            self.update(X[iteration, :].reshape((1, n_features)), lr_update)
''','''        for x in X:
            self.update(x[None, :], lr_update)
'''),
('''        estimate = deepcopy(estimate)
        covariance = self._estimate_to_cov(estimate)
        self._set_covariance(covariance)
        self.estimate_ = estimate
''','''        new_estimate = deepcopy(estimate)
        self._set_covariance(self._estimate_to_cov(new_estimate))
        self.estimate_ = new_estimate
'''),
])
# ---- covariance: common driver
s=open(R+'estimation/covariance.py').read()
loop_re=re.compile(r'''    delta = np.inf  # Distance between two iterations
    iteration = 0

    if verbosity:
        pbar_v = tqdm\(total=iter_max\)

    while \(delta > tol\) and \(iteration < iter_max\):
(.*?)
        # condition for stopping
.*?    if iteration == iter_max:
        LOGGER.warning\('Estimation algorithm did not converge'\)

    return (sigma|sigma/S\(sigma\)), delta, iteration
''',re.S)
def rep(m):
    body=m.group(1)
    body=re.sub(r'(?m)^        #.*\n','',body)
    body=body.replace("tau = np.einsum('ij,ji->i', temp.T, temp)","tau = np.sum(temp**2, axis=0)")
    body=body.replace("tau = np.einsum('ij,ji->i', temp.conj().T, temp)","tau = np.sum(np.abs(temp)**2, axis=0)")
    body=body.replace("tau = (1/p) * np.real(tau)","tau = tau/p").replace("tau = (1/p) * tau","tau = tau/p")
    body=body.replace("sigma_new = (1/N) * temp@temp","sigma_new = temp@temp").replace(".T\n",".T\n")
    body=re.sub(r'sigma_new = temp@temp(.*)',r'return temp@temp\1 / N',body)
    body=re.sub(r'sigma_new = \(\((.*?)\)/N\) \* temp@temp(.*)',r'return (\1) * (temp@temp\2) / N',body)
    return f'''    def step(sigma):
{body}
    sigma, delta, iteration = _fixed_point(
        step, sigma, tol, iter_max, verbosity)
    return {m.group(2)}, delta, iteration
'''
s,n=loop_re.subn(rep,s); assert n==6,n
s=s.replace('''@_deprecate_positional_args
def huber_m_estimator_fixed_point(''','''def _fixed_point(step, sigma, tol, iter_max, verbosity):
    """Iterate step from sigma, until it moves by less than tol."""
    delta = np.inf  # Distance between two iterations
    iteration = 0
    pbar_v = tqdm(total=iter_max) if verbosity else None

    while (delta > tol) and (iteration < iter_max):
        sigma_new = step(sigma)
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
        sigma = sigma_new
        iteration += 1

        if pbar_v is not None:
            pbar_v.update()
            pbar_v.set_description(f'(err={delta})', refresh=True)

    if pbar_v is not None:
        pbar_v.close()

    if iteration == iter_max:
        LOGGER.warning('Estimation algorithm did not converge')
    return sigma, delta, iteration


@_deprecate_positional_args
def huber_m_estimator_fixed_point(''',1)
s=s.replace("Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])","Y = X / norm_X[:, np.newaxis]",1)
s=s.replace("        self._set_covariance(covariance)\n        self.err_ = err\n        self.iteration_ = iteration\n        return self","        return self._store_fit(covariance, err, iteration)")
open(R+'estimation/covariance.py','w').write(s)
# _store_fit helper on base class
b=open(R+'estimation/base.py').read()
b=b.replace('''    def transform(self, X):
        return self.covariance_

''','''    def transform(self, X):
        return self.covariance_

    def _store_fit(self, covariance, err, iteration):
        self._set_covariance(covariance)
        self.iteration_ = iteration
        self.err_ = err
        return self

''',1)
open(R+'estimation/base.py','w').write(b)
sub('estimation/structured.py',[
('''        M = np.zeros((a, a), dtype=Y.dtype)
        M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
        for i in range(n_samples):
            M_numerator[:, :, i] = (
                M_i[:, :, i].T.conj() @ i_B @ M_i[:, :, i]).T
            M_denominator = np.trace(i_A@M_numerator[:, :, i])
            M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
''','''        M_numerator = np.einsum('bci,bd,dai->aci', M_i.conj(), i_B, M_i,
                                optimize=True)
        M_denominator = np.einsum('ac,cai->i', i_A, M_numerator)
        M = a/n_samples * np.sum(M_numerator/M_denominator, axis=2)
'''),
('''        M = np.zeros((b, b), dtype=Y.dtype)
        for i in range(n_samples):
            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()
            M_denominator = np.trace(i_A@M_numerator[:, :, i])
            M += b/n_samples * (M_numerator_B/M_denominator)
''','''        M_denominator = np.einsum('ac,cai->i', i_A, M_numerator)
        M = np.einsum('bai,ca,dci,i->bd', M_i, i_A, M_i.conj(),
                      b/n_samples/M_denominator, optimize=True)
'''),
('''        grad_A = np.zeros_like(A)
        grad_B = np.zeros_like(B)
        for i in range(n_samples):
            M_i = Y[i, :].reshape((b, a), order='F')
            S_i = (M_i.T.conj()@i_B@M_i).T
            Q_i = np.real(np.trace(i_A@S_i))
            weight = (df+2*a*b)/(df+2*Q_i)

            grad_A -= weight * i_A@S_i@i_A
            grad_B -= weight * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
        grad_A = grad_A/n_samples + b*i_A
        grad_B = grad_B/n_samples + a*i_B
''','''        sum_A = np.zeros_like(A)
        sum_B = np.zeros_like(B)
        for y in Y:
            M_i = y.reshape((b, a), order='F')
            S_i = M_i.T@i_B.T@M_i.conj()
            Q_i = np.real(np.trace(i_A@S_i))
            weight = (df+2*a*b)/(df+2*Q_i)
            sum_A += weight * S_i
            sum_B += weight * (M_i@i_A.T@M_i.T.conj())
        grad_A = b*i_A - i_A@(sum_A/n_samples)@i_A
        grad_B = a*i_B - i_B@(sum_B/n_samples)@i_B
'''),
('''    if loc is not None:
        Y = X - np.tile(loc.reshape((1, n_features)), [n_samples, 1])
    else:
        Y = X
''','''    Y = X if loc is None else X - loc
'''),
('''        logpdf_samples = model.logpdf(X)
        return -np.sum(logpdf_samples)
''','''        return -model.logpdf(X).sum()
'''),
('''        if self.assume_centered:
            location = np.zeros(X.shape[1])
        else:
            location = X.mean(0)
''','''        location = self._location(X)
'''),
('''    @property
    def manifold(self):''','''    def _location(self, X):
        return np.zeros(X.shape[1]) if self.assume_centered else X.mean(0)

    @property
    def manifold(self):'''),
('''        return (self.df+self.a*self.b)/(self.df+self.a*self.b+1)''','''        total = self.df + self.a*self.b
        return total/(total + 1)'''),
])
# manifolds
m=open(R+'models/manifolds.py').read()
m=m.replace('''        d, q = la.eigh(x)
        if k == 1:
            x_sqrt = q@np.diag(np.sqrt(d))@q.conj().T
            x_isqrt = q@np.diag(1/np.sqrt(d))@q.conj().T
        else:
            temp = np.zeros(q.shape, dtype=np.complex)
            for i in range(q.shape[0]):
                temp[i, :, :] = np.diag(np.sqrt(d[i, :]))[np.newaxis, :, :]
            x_sqrt = multiprod(multiprod(q, temp), multihconj(q))

            temp = np.zeros(q.shape, dtype=np.complex)
            for i in range(q.shape[0]):
                temp[i, :, :] = np.diag(1/np.sqrt(d[i, :]))[np.newaxis, :, :]
            x_isqrt = multiprod(multiprod(q, temp), multihconj(q))
''','''        d, q = la.eigh(x)
        x_sqrt = _from_eigen(np.sqrt(d), q)
        x_isqrt = _from_eigen(1/np.sqrt(d), q)
''')
for f in ('exp','log'):
    out={'exp':'e','log':'log'}[f]
    a='''        if k == 1:
            %s = q@np.diag(np.%s(d))@q.conj().T
        else:
            temp = np.zeros(q.shape, dtype=np.complex)
            for i in range(q.shape[0]):
                temp[i, :, :] = np.diag(np.%s(d[i, :]))[np.newaxis, :, :]
            d = temp
            %s = multiprod(multiprod(q, d), multihconj(q))
'''%(out,f,f,out)
    assert a in m
    m=m.replace(a,'        %s = _from_eigen(np.%s(d), q)\n'%(out,f))
m=m.replace('''# ---------------------------------------------------------------------
# COMPLEX MANIFOLDS
''','''def _from_eigen(d, q):
    """Hermitian matrices of eigenvalues d and eigenvectors q."""
    return (q*d[..., np.newaxis, :])@np.swapaxes(q.conj(), -1, -2)


# ---------------------------------------------------------------------
# COMPLEX MANIFOLDS
''',1)
m=m.replace('''        return np.real(
            np.tensordot(la.solve(x, u), multitransp(la.solve(x, v)),
                         axes=x.ndim))''','''        i_x = la.inv(x)
        return np.real(np.sum((i_x@u)*np.swapaxes(i_x@v, -1, -2)))''',1)
m=m.replace('''        c = la.cholesky(x)
        c_inv = la.inv(c)
        return np.real(
            la.norm(multiprod(multiprod(c_inv, u), multihconj(c_inv))))''','''        c_inv = la.inv(la.cholesky(x))
        return np.real(la.norm(c_inv@u@multihconj(c_inv)))''',1)
m=m.replace('''        return np.sqrt(np.sum([weights[k]*np.squeeze(man.dist(X[k], Y[k])**2)
                               for k, man in enumerate(self._manifolds)]))''','''        total = 0
        for w, man, x, y in zip(weights, self._manifolds, X, Y):
            total = total + w*np.squeeze(man.dist(x, y))**2
        return np.sqrt(total)''',1)
m=m.replace('''        if self._k == 1:
            e = e / np.real(la.det(e))**(1/self._n)
        else:
            e = e / (np.real(la.det(e))**(1/self._n)).reshape(-1, 1, 1)
        return e''','''        return self._unit_det(e)''',1)
m=m.replace('''        if self._k == 1:
            r = r / np.real(la.det(r))**(1/self._n)
        else:
            r = r / (np.real(la.det(r))**(1/self._n)).reshape(-1, 1, 1)
        return r''','''        return self._unit_det(r)

    def _unit_det(self, x):
        scale = np.real(la.det(x))**(1/self._n)
        return x / scale[..., np.newaxis, np.newaxis]''',1)
m=m.replace("        r = x + u + (1/2)*u@la.solve(x, u)\n","        r = x + u + (u@la.solve(x, u))/2\n",1)
open(R+'models/manifolds.py','w').write(m)
sub('models/mappings.py',[
('''        n_samples, n_features, _ = a.shape
        a_real = np.zeros((n_samples, 2*n_features, 2*n_features))
        for i in range(n_samples):
            a_real[i] = covariancetoreal(a[i])
        return a_real
''','''        n_features = a.shape[1]
        a_real = np.zeros((len(a), 2*n_features, 2*n_features))
        for i, matrix in enumerate(a):
            a_real[i] = covariancetoreal(matrix)
        return a_real
'''),
('''            real_matrix = .5 * np.block([[np.real(a), -np.imag(a)],
                                        [np.imag(a), np.real(a)]])
            return real_matrix
''','''            re, im = np.real(a)/2, np.imag(a)/2
            return np.vstack([np.hstack([re, -im]), np.hstack([im, re])])
'''),
('''            return np.vstack(a[:, :p] + 1j*a[:, p:])
''','''            return a[:, :p] + 1j*a[:, p:]
'''),
('''            complex_matrix = 2 * a[:p, :p] + 2j*a[p:, :p]
            return complex_matrix
''','''            return 2*(a[:p, :p] + 1j*a[p:, :p])
'''),
])
sub('utils/generation_data.py',[
('''    D = np.diag(random.rand(p)**2)

    # Generate an orthogonal matrix.
    Q = generate_stiefel(p, p)

    sigma = Q@D@Q.T
''','''    d = random.rand(p)**2

    # Generate an orthogonal matrix.
    Q = generate_stiefel(p, p)

    sigma = (Q*d)@Q.T
'''),
('''    if k < p:
        Q = ortho_group.rvs(p)[:, :k]
    else:
        Q = ortho_group.rvs(p)
    return Q
''','''    return ortho_group.rvs(p)[:, :k]
'''),
('''    X = random.randn(p, N) + 1j*random.randn(p, N)
    X = (1/np.sqrt(2))*X
    return X
''','''    real = random.randn(p, N)
    imag = random.randn(p, N)
    return (real + 1j*imag)/np.sqrt(2)
'''),
])
sub('utils/linalg.py',[
('''    eigvals = be.diag(operator(eigvals))
    Out = be.dot(be.dot(eigvects, eigvals), be.conjugate(eigvects).T)
    return Out
''','''    return be.dot(eigvects*operator(eigvals), be.conjugate(eigvects).T)
'''),
])
sub('models/cost.py',[
("    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)\n    return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))",
"    q = be.sum(be.abs(temp)**2, axis=0)\n    return n*be.log(be.real(be_la.det(Q))) + p*be.sum(be.log(q))"),
])
p=open(R+'models/probability.py').read()
p=p.replace('''        x, _, _ = _check_parameters_array_complex_normal(
            x, self._mean_orig, self._cov_orig)
        return np.real(super(complex_multivariate_normal_frozen,
                             self).logpdf(x))''','''        return np.real(super().logpdf(self._quantiles(x)))

    def _quantiles(self, x):
        return _check_parameters_array_complex_normal(
            x, self._mean_orig, self._cov_orig)[0]''')
p=p.replace('''        x, _, _ = _check_parameters_array_complex_normal(
            x, self._mean_orig, self._cov_orig)
        return np.real(super(complex_multivariate_normal_frozen,
                             self).cdf(x))''','''        return np.real(super().cdf(self._quantiles(x)))''')
p=p.replace('''        if is_complex:
            return arraytocomplex(super(
                complex_multivariate_t_frozen, self).rvs(size,
                                                         random_state))
        else:
            return super(complex_multivariate_t_frozen,
                         self).rvs(size, random_state)''','''        samples = super().rvs(size, random_state)
        return arraytocomplex(samples) if is_complex else samples''')
p=p.replace('''    if mean is None:
        mean = np.zeros((len(cov),), dtype=cov.dtype)

    if np.isrealobj(mean) and np.isrealobj(cov):
        return mean, cov
    else:
        return arraytoreal(mean.astype(complex)),\\
                covariancetoreal(cov.astype(complex))''','''    if mean is None:
        mean = np.zeros_like(cov, shape=(len(cov),))

    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
        mean = arraytoreal(mean.astype(complex))
        cov = covariancetoreal(cov.astype(complex))
    return mean, cov''')
open(R+'models/probability.py','w').write(p)
