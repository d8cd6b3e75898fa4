"""Tables: field types, interface calls with effects, signatures of external callables.

Signatures are those of the installed libraries' documentation; a default of None means "no default
recorded" (the argument is listed only when given).  They make f(x) and f(a=x) the same call.
"""
from .terms import *

FIELD_HINTS = {}
EFFECTS = {'updateModel', 'update_cost_model', 'writerows', 'send', 'close', 'start', 'join', 'optimize'}
RETURN_HINTS = {}
APP_HINTS = {}


def _s(*names, **defaults):
    return tuple((n, defaults.get(n)) for n in names)


EXT_SIGS = {
    # GPy / paramz model objects
    'predict': _s('X', 'full_cov', 'Y_metadata', 'kern', 'likelihood', 'include_likelihood',
                  full_cov=FALSE, Y_metadata=NONE, kern=NONE, likelihood=NONE, include_likelihood=TRUE),
    'predictive_gradients': _s('X', 'kern', kern=NONE),
    'set_XY': _s('X', 'Y', X=NONE, Y=NONE),
    'posterior_samples_f': _s('X', 'size'),
    'posterior_samples': _s('X', 'size'),
    'posterior_covariance_between_points': _s('X1', 'X2'),
    'optimize_restarts': _s('num_restarts', 'robust', 'verbose', 'parallel', 'num_processes', 'optimizer', 'max_iters', 'messages'),
    'sample': _s('num_samples', 'hmc_iters'),
    'unconstrain_fixed': _s(),
    'constrain_fixed': _s('value', 'warning', 'trigger_parent'),
    'constrain_bounded': _s('lower', 'upper', 'warning', 'trigger_parent'),
    'constrain_positive': _s('warning', 'trigger_parent'),
    'set_prior': _s('prior', 'warning'),
    # containers and files
    'sort': _s('axis'),
    'writerows': _s('rows'),
    'writerow': _s('row'),
    # libraries
    'builtins.open': _s('file', 'mode', 'buffering', 'encoding', 'errors', 'newline', mode=string('r')),
    'csv.writer': _s('csvfile', 'dialect', 'delimiter'),
    'json.load': _s('fp'), 'json.dump': _s('obj', 'fp'), 'json.loads': _s('s'),
    'scipy.optimize.fmin_l_bfgs_b': _s('func', 'x0', 'fprime', 'args', 'approx_grad', 'bounds', 'm', 'factr', 'pgtol', 'epsilon',
                                       'iprint', 'maxfun', 'maxiter', fprime=NONE, approx_grad=FALSE, bounds=NONE),
    'scipy.optimize.minimize': _s('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options'),
    'DIRECT.solve': _s('objective', 'l', 'u', 'eps', 'maxf', 'maxT', 'algmethod'),
    'cma.fmin': _s('objective_function', 'x0', 'sigma0', 'options'),
    'pyDOE.lhs': _s('n', 'samples', 'criterion', 'iterations'),
    'sobol_seq.i4_sobol_generate': _s('dim_num', 'n', 'skip'),
    'numpy.random.uniform': _s('low', 'high', 'size', low=ZERO, high=ONE),
    'numpy.random.normal': _s('loc', 'scale', 'size', loc=ZERO, scale=ONE),
    'numpy.random.randint': _s('low', 'high', 'size', 'dtype'),
    'numpy.random.choice': _s('a', 'size', 'replace', 'p'),
    'numpy.random.multivariate_normal': _s('mean', 'cov', 'size'),
    'numpy.savetxt': _s('fname', 'X', 'fmt', 'delimiter'),
    'multiprocessing.Process': _s('group', 'target', 'name', 'args', 'kwargs'),
    'numpy.histogram': _s('a', 'bins', 'range'),
    'GPy.models.GPRegression': _s('X', 'Y', 'kernel', 'Y_metadata', 'normalizer', 'noise_var', 'mean_function'),
    'GPy.models.SparseGPRegression': _s('X', 'Y', 'kernel', 'Z', 'num_inducing', 'X_variance', 'mean_function', 'normalizer', 'mpi_comm', 'name'),
    'GPy.models.WarpedGP': _s('X', 'Y', 'kernel', 'warping_function', 'warping_terms', 'normalizer'),
    'GPy.models.InputWarpedGP': _s('X', 'Y', 'kernel', 'normalizer', 'warping_function', 'warping_indices', 'Xmin', 'Xmax', 'epsilon'),
    'GPy.kern.Matern52': _s('input_dim', 'variance', 'lengthscale', 'ARD', 'active_dims', 'name'),
    'GPy.kern.Bias': _s('input_dim', 'variance', 'active_dims', 'name'),
    'GPy.priors.Gamma.from_EV': _s('E', 'V'),
    'GPy.inference.mcmc.HMC': _s('model', 'M', 'stepsize'),
}
