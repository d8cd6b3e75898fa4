"""Reference definitions: surrogate models (C15 C16) and the caches built on them (C29)."""
import numpy as np
import GPy
from GPyOpt.models.gpmodel import GPModel, GPModel_MCMC
from GPyOpt.util import epmgp

TINY = 1e-10


def row(X):
    return X[None, :] if X.ndim == 1 else X


def floored(v):
    return np.clip(v, 1e-10, np.inf)


# ------------------------------------------------------------------------------------------ GPModel
def ref_gp_init(self, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs', max_iters=1000, optimize_restarts=5,
                sparse=False, num_inducing=10, verbose=True, ARD=False, mean_function=None):
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.max_iters = max_iters
    self.optimize_restarts = optimize_restarts
    self.sparse = sparse
    self.num_inducing = num_inducing
    self.verbose = verbose
    self.ARD = ARD
    self.mean_function = mean_function
    self.model = None


def ref_gp_create(self, X, Y):
    self.input_dim = X.shape[1]
    kern = self.kernel
    if kern is None:
        kern = GPy.kern.Matern52(X.shape[1], variance=1., ARD=self.ARD)
    self.kernel = None
    if self.sparse:
        self.model = GPy.models.SparseGPRegression(X, Y, kernel=kern, num_inducing=self.num_inducing, mean_function=self.mean_function)
    else:
        noise = self.noise_var
        if noise is None:
            noise = 0.01 * Y.var()
        self.model = GPy.models.GPRegression(X, Y, kernel=kern, noise_var=noise, mean_function=self.mean_function)
    if self.exact_feval:
        self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
    else:
        self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)


def ref_gp_update(self, X_all, Y_all, X_new, Y_new):
    if self.model is None:
        self._create_model(X_all, Y_all)
    else:
        self.model.set_XY(X_all, Y_all)
    if self.max_iters > 0:
        if self.optimize_restarts == 1:
            self.model.optimize(optimizer=self.optimizer, max_iters=self.max_iters, messages=False, ipython_notebook=False)
        else:
            self.model.optimize_restarts(num_restarts=self.optimize_restarts, optimizer=self.optimizer, max_iters=self.max_iters,
                                         verbose=self.verbose)


def ref_gp_raw(self, X, full_cov, include_likelihood):
    m, v = self.model.predict(row(X), full_cov=full_cov, include_likelihood=include_likelihood)
    if full_cov:
        return m, v
    return m, floored(v)


def ref_gp_predict(self, X, with_noise=True):
    m, v = self.model.predict(row(X), full_cov=False, include_likelihood=with_noise)
    return m, np.sqrt(floored(v))


def ref_gp_covariance(self, X, with_noise=True):
    return self.model.predict(row(X), full_cov=True, include_likelihood=with_noise)[1]


def ref_gp_fmin(self):
    return np.min(self.model.predict(self.model.X)[0])


def ref_gp_gradients(self, X):
    Z = row(X)
    m, v = self.model.predict(Z)
    s = np.sqrt(floored(v))
    dm, dv = self.model.predictive_gradients(Z)
    return m, s, dm[:, :, 0], dv / (2 * s)


def ref_gp_copy(self):
    c = GPModel(kernel=self.model.kern.copy(), noise_var=self.noise_var, exact_feval=self.exact_feval, optimizer=self.optimizer,
                max_iters=self.max_iters, optimize_restarts=self.optimize_restarts, sparse=self.sparse, num_inducing=self.num_inducing,
                verbose=self.verbose, ARD=self.ARD, mean_function=self.mean_function)
    c._create_model(self.model.X, self.model.Y)
    c.updateModel(self.model.X, self.model.Y, None, None)
    return c


def ref_parameters(self):
    return np.atleast_2d(self.model[:])


def ref_parameter_names(self):
    return self.model.parameter_names_flat(include_fixed=True).tolist()


def ref_gp_between(self, x1, x2):
    return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)


# ------------------------------------------------------------------------------------- GPModel_MCMC
def ref_mcmc_init(self, kernel=None, noise_var=None, exact_feval=False, n_samples=10, n_burnin=100, subsample_interval=10,
                  step_size=1e-1, leapfrog_steps=20, verbose=False):
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.n_samples = n_samples
    self.n_burnin = n_burnin
    self.subsample_interval = subsample_interval
    self.step_size = step_size
    self.leapfrog_steps = leapfrog_steps
    self.verbose = verbose
    self.model = None


def ref_mcmc_create(self, X, Y):
    self.input_dim = X.shape[1]
    kern = self.kernel
    if kern is None:
        kern = GPy.kern.RBF(X.shape[1], variance=1.)
    self.kernel = None
    noise = self.noise_var
    if noise is None:
        noise = 0.01 * Y.var()
    self.model = GPy.models.GPRegression(X, Y, kernel=kern, noise_var=noise)
    self.model.kern.set_prior(GPy.priors.Gamma.from_EV(2., 4.))
    self.model.likelihood.variance.set_prior(GPy.priors.Gamma.from_EV(2., 4.))
    if self.exact_feval:
        self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
    else:
        self.model.Gaussian_noise.constrain_positive(warning=False)


def ref_mcmc_update(self, X_all, Y_all, X_new, Y_new):
    if self.model is None:
        self._create_model(X_all, Y_all)
    else:
        self.model.set_XY(X_all, Y_all)
    self.model.optimize(max_iters=200)
    self.model.param_array[:] = self.model.param_array * (1. + np.random.randn(self.model.param_array.size) * 0.01)
    self.hmc = GPy.inference.mcmc.HMC(self.model, stepsize=self.step_size)
    chain = self.hmc.sample(num_samples=self.n_burnin + self.n_samples * self.subsample_interval, hmc_iters=self.leapfrog_steps)
    self.hmc_samples = chain[self.n_burnin::self.subsample_interval]


def use_sample(self, s):
    if self.model._fixes_ is None:
        self.model[:] = s
    else:
        self.model[self.model._fixes_] = s
    self.model._trigger_params_changed()


def ref_mcmc_predict(self, X):
    Z = row(X)
    before = self.model.param_array.copy()
    means = []
    stds = []
    for s in self.hmc_samples:
        use_sample(self, s)
        m, v = self.model.predict(Z)
        means.append(m)
        stds.append(np.sqrt(floored(v)))
    self.model.param_array[:] = before
    self.model._trigger_params_changed()
    return means, stds


def ref_mcmc_fmin(self):
    before = self.model.param_array.copy()
    out = []
    for s in self.hmc_samples:
        use_sample(self, s)
        out.append(np.min(self.model.predict(self.model.X)[0]))
    self.model.param_array[:] = before
    self.model._trigger_params_changed()
    return out


def ref_mcmc_gradients(self, X):
    Z = row(X)
    before = self.model.param_array.copy()
    means = []
    stds = []
    dms = []
    dss = []
    for h in self.hmc_samples:
        use_sample(self, h)
        m, v = self.model.predict(Z)
        s = np.sqrt(floored(v))
        dm, dv = self.model.predictive_gradients(Z)
        means.append(m)
        stds.append(s)
        dms.append(dm[:, :, 0])
        dss.append(dv / (2 * s))
    self.model.param_array[:] = before
    self.model._trigger_params_changed()
    return means, stds, dms, dss


def ref_mcmc_copy(self):
    c = GPModel_MCMC(kernel=self.model.kern.copy(), noise_var=self.noise_var, exact_feval=self.exact_feval, n_samples=self.n_samples,
                     n_burnin=self.n_burnin, subsample_interval=self.subsample_interval, step_size=self.step_size,
                     leapfrog_steps=self.leapfrog_steps, verbose=self.verbose)
    c._create_model(self.model.X, self.model.Y)
    c.updateModel(self.model.X, self.model.Y, None, None)
    return c


# ------------------------------------------------------------------------------------ warped models
def ref_warped_init(self, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs', max_iters=1000, optimize_restarts=5,
                    warping_function=None, warping_terms=3, verbose=False):
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.max_iters = max_iters
    self.optimize_restarts = optimize_restarts
    self.warping_function = warping_function
    self.warping_terms = warping_terms
    self.verbose = verbose
    self.model = None


def ref_warped_create(self, X, Y):
    self.input_dim = X.shape[1]
    if self.kernel is None:
        self.kernel = GPy.kern.Matern32(X.shape[1], variance=1.)
    self.model = GPy.models.WarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function, warping_terms=self.warping_terms)
    if self.exact_feval:
        self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
    else:
        self.model.Gaussian_noise.constrain_positive(warning=False)


def ref_warped_update(self, X_all, Y_all, X_new, Y_new):
    if self.model is None:
        self._create_model(X_all, Y_all)
    else:
        self.model.set_XY(X_all, Y_all)
    self.model.optimize(optimizer=self.optimizer, messages=self.verbose, max_iters=self.max_iters)


def ref_warped_predict(self, X):
    m, v = self.model.predict(row(X))
    return m, np.sqrt(floored(v))


def ref_inputwarped_create(self, X, Y):
    self.input_dim = X.shape[1]
    if self.kernel is None:
        self.kernel = GPy.kern.Matern52(X.shape[1], variance=1., ARD=self.ARD)
    self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function,
                                          warping_indices=self.warping_indices, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
    if self.exact_feval:
        self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
    else:
        self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)


def ref_inputwarped_update(self, X_all, Y_all, X_new, Y_new):
    self.model = None
    self._create_model(X_all, Y_all)
    if self.max_iters > 0:
        if self.optimize_restarts == 1:
            self.model.optimize(optimizer=self.optimizer, max_iters=self.max_iters, messages=False, ipython_notebook=False)
        else:
            self.model.optimize_restarts(num_restarts=self.optimize_restarts, optimizer=self.optimizer, max_iters=self.max_iters,
                                         verbose=self.verbose)


def ref_inputwarped_raw(self, X, full_cov, include_likelihood):
    m, v = self.model.predict(row(X))
    return m, floored(v)


def ref_inputwarped_predict(self, X, with_noise=True):
    m, v = self.model.predict(row(X))
    return m, np.sqrt(floored(v))


def ref_inputwarped_fmin(self):
    return np.min(self.model.predict(self.model.X_untransformed)[0])


def ref_inputwarped_init(self, space, warping_function=None, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs',
                         max_iters=1000, optimize_restarts=5, verbose=False, ARD=False):
    self.space = space
    self.warping_function = warping_function
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.max_iters = max_iters
    self.optimize_restarts = optimize_restarts
    self.verbose = verbose
    self.ARD = ARD
    self.model = None


# ------------------------------------------------------------------------------------ random forest
def ref_rf_update(self, X_all, Y_all, X_new, Y_new):
    self.X = X_all
    self.Y = Y_all
    if self.model is None:
        self._create_model(X_all, Y_all)
    else:
        self.model.fit(X_all, Y_all.flatten())


def ref_rf_predict(self, X):
    X = np.atleast_2d(X)
    m = np.empty(shape=(0, 1))
    s = np.empty(shape=(0, 1))
    for k in range(X.shape[0]):
        p = np.array([tree.predict(X[k, :])[0] for tree in self.model.estimators_])
        m = np.vstack((m, p.mean()))
        s = np.vstack((s, p.std()))
    return m, s


def ref_rf_fmin(self):
    return np.min(self.model.predict(self.X))


# ---------------------------------------------------------------------------------- entropy search
def ref_es_state(self):
    gp = self.model.model
    return np.array(gp.X), np.array(gp.Y), np.array(gp.param_array)


def ref_es_ready(self):
    if self.repr_points is None or self.repr_points_log is None or self.logP is None or self.model_state is None:
        return False
    return all(np.array_equal(a, b) for a, b in zip(self.model_state, self._model_state()))


def ref_es_update(self):
    self.model_state = self._model_state()
    P, L = self.sampler.get_samples(self.num_repr_points, self.proposal_function, self.burn_in_steps)
    if np.any(np.isnan(L)) or np.any(np.isposinf(L)):
        raise RuntimeError('invalid log values')
    drop = np.where(np.isneginf(L))[0]
    if len(drop) > 0:
        keep = list(set(range(self.num_repr_points)) - set(drop))
        P = P[keep, :]
        L = L[keep]
    self.repr_points = P
    self.repr_points_log = L
    mu = np.ndarray.flatten(self.model.predict(P)[0])
    var = self.model.predict_covariance(P)
    logP, self.dlogPdMu, self.dlogPdSigma, self.dlogPdMudMu = epmgp.joint_min(mu, var, with_derivatives=True)
    self.logP = np.reshape(logP, (logP.shape[0], 1))


def ref_es_innovations(self, x):
    s = self.model.predict(x, with_noise=False)[1]
    dm = self.model.get_covariance_between_points(self.repr_points, x) / s
    return dm, -dm.dot(dm.T)


def ref_es_value(self, x):
    if x.shape[1] != self.input_dim:
        raise ValueError('dimension')
    if not self._required_parameters_initialized():
        self._update_parameters()
    if x.shape[0] > 1:
        out = np.zeros([x.shape[0], 1])
        for j in range(x.shape[0]):
            out[j] = self._compute_acq(x[[j], :])
        return out
    n = self.logP.size
    dm, dv = self._innovations(x)
    dv = dv[np.triu(np.ones((n, n))).T.astype(bool), np.newaxis]
    sq = dm.dot(dm.T)
    trace = np.sum(np.sum(self.dlogPdMudMu * np.reshape(sq, (1, sq.shape[0], sq.shape[1])), 2), 1)[:, np.newaxis]
    change = self.dlogPdSigma.dot(dv) + 0.5 * trace
    noise = self.dlogPdMu.dot(dm).dot(self.W)
    pred = self.logP + change + noise
    top = np.amax(pred, axis=0)
    total = top + np.log(np.sum(np.exp(pred - top), axis=0))
    norm = top if np.any(np.isinf(total)) else total
    pred = pred - norm
    return np.mean(np.sum(np.exp(pred) * (pred + self.repr_points_log), axis=0))
