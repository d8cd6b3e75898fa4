"""Reference definitions of the acquisitions (independent restatement, used as the oracle)."""
import numpy as np
import scipy.special
from scipy.stats import norm
from GPyOpt.core.task.cost import constant_cost_withGradients


def floor_s(s):
    if isinstance(s, np.ndarray):
        return np.where(s < 1e-10, 1e-10, s)
    if s < 1e-10:
        return 1e-10
    return s


def ref_quantiles(jitter, best, m, s):
    s = np.maximum(s, 1e-10)
    u = (best - m - jitter) / s
    phi = np.exp(-u * u / 2) / np.sqrt(2 * np.pi)
    Phi = 0.5 * scipy.special.erfc(-u / np.sqrt(2))
    return s, u, phi, Phi


def ref_where(self, x):
    """the location the constraints are evaluated at"""
    if self.space.model_dimensionality == self.space.objective_dimensionality:
        return x
    return self.space.zip_inputs(x)


def ref_weighted(self, x, value):
    cost, _ = self.cost_withGradients(x)
    return -value * self.space.indicator_constraints(ref_where(self, x)) / cost


def ref_weighted_grad(self, x, value, grad):
    cost, dcost = self.cost_withGradients(x)
    feasible = self.space.indicator_constraints(ref_where(self, x))
    return -value * feasible / cost, -(grad / cost - value * dcost / cost ** 2) * feasible


# ---------------------------------------------------------------- values (C08, C09, C10)
def ref_EI(self, x):
    m, s = self.model.predict(x)
    s, u, phi, Phi = ref_quantiles(self.jitter, self.model.get_fmin(), m, s)
    return ref_weighted(self, x, s * u * Phi + s * phi)


def ref_MPI(self, x):
    m, s = self.model.predict(x)
    s, u, phi, Phi = ref_quantiles(self.jitter, self.model.get_fmin(), m, s)
    return ref_weighted(self, x, Phi)


def ref_LCB(self, x):
    m, s = self.model.predict(x)
    return ref_weighted(self, x, self.exploration_weight * s - m)


def ref_EI_mcmc(self, x):
    means, stds = self.model.predict(x)
    best = self.model.get_fmin()
    total = 0
    for m, s, b in zip(means, stds, best):
        s, u, phi, Phi = ref_quantiles(self.jitter, b, m, s)
        total = total + s * u * Phi + s * phi
    return ref_weighted(self, x, total / len(means))


def ref_MPI_mcmc(self, x):
    means, stds = self.model.predict(x)
    best = self.model.get_fmin()
    total = 0
    for m, s, b in zip(means, stds, best):
        s, u, phi, Phi = ref_quantiles(self.jitter, b, m, s)
        total = total + Phi
    return ref_weighted(self, x, total / len(means))


def ref_LCB_mcmc(self, x):
    means, stds = self.model.predict(x)
    total = 0
    for m, s in zip(means, stds):
        total = total + self.exploration_weight * s - m
    return ref_weighted(self, x, total / len(means))


# ---------------------------------------------------------------- value and gradient (C07)
def ref_EI_grad(self, x):
    m, s, dm, ds = self.model.predict_withGradients(x)
    s, u, phi, Phi = ref_quantiles(self.jitter, self.model.get_fmin(), m, s)
    return ref_weighted_grad(self, x, s * u * Phi + s * phi, ds * phi - dm * Phi)


# ---------------------------------------------------------------- descriptions of known findings
def asis_EI_mcmc(self, x):
    means, stds = self.model.predict(x)
    best = self.model.get_fmin()
    total = 0
    for m, s, b in zip(means, stds, best):
        s, u, phi, Phi = ref_quantiles(self.jitter, b, m, s)
        total = total + (b - m + self.jitter) * Phi + s * phi
    return ref_weighted(self, x, total / len(means))


# ---------------------------------------------------------------- local penalization
def ref_LP_value(self, x):
    f = self.acq.acquisition_function(x)[:, 0]
    if self.transform == 'softplus':
        value = -ref_softplus_log(-f)
    elif self.transform == 'none':
        value = -np.log(1e-50 - f)
    else:
        value = f
    if self.X_batch is not None:
        d = np.atleast_2d(x)[:, None, :] - np.atleast_2d(self.X_batch)[None, :, :]
        z = (np.sqrt(np.sum(d ** 2, axis=-1)) - self.r_x0) / self.s_x0
        value = value - np.sum(np.log(norm.cdf(z)), axis=-1)
    return value


def ref_softplus_log(f):
    return np.where(f < 40., np.log(np.log(1 + np.exp(f))), np.log(f))


def ref_LP_grad(self, x):
    value = ref_LP_value(self, x)
    x = np.atleast_2d(x)
    f = self.acq.acquisition_function(x)
    g = self.acq.acquisition_function_withGradients(x)[1]
    if self.transform == 'softplus':
        grad = g * np.exp(-f) / ((1 + np.exp(-f)) * np.log(1 + np.exp(-f)))
    elif self.transform == 'none':
        grad = -g / f
    else:
        grad = g
    if self.X_batch is not None:
        d = x[:, None, :] - np.atleast_2d(self.X_batch)[None, :, :]
        dist = np.sqrt(np.sum(d ** 2, axis=-1))
        z = (dist - self.r_x0) / self.s_x0
        pull = norm.pdf(z) / (norm.cdf(z) * self.s_x0 * dist)
        pull[norm.cdf(z) < 1e-50] = 0
        pull[dist == 0] = 0
        grad = grad - (pull[:, :, None] * d).sum(axis=1)
    return value, grad


def ref_LP_update(self, X_batch, L, Min):
    self.X_batch = X_batch
    if X_batch is not None:
        P = np.atleast_2d(X_batch)
        m = self.model.predict(P)[0]
        s = self.model.predict(P)[1]
        self.r_x0 = ((m - Min) / L).flatten()
        self.s_x0 = (np.sqrt(np.maximum(s, 1e-16)) / L).flatten()


def asis_EI_mcmc_grad(self, x):
    means, stds, dmeans, dstds = self.model.predict_withGradients(x)
    best = self.model.get_fmin()
    total = 0
    dtotal = 0
    for m, s, b, dm, ds in zip(means, stds, best, dmeans, dstds):
        s, u, phi, Phi = ref_quantiles(self.jitter, b, m, s)
        total = total + (b - m + self.jitter) * Phi + s * phi
        dtotal = dtotal + ds * phi - dm * Phi
    return ref_weighted_grad(self, x, total / len(means), dtotal / len(means))
