"""Reference definitions: acquisition optimisation, contexts, anchor points, batches (C01 C02 C03 C10 C14 C24)."""
import numpy as np
import scipy.optimize
from GPyOpt.core.errors import InvalidConfigError, InvalidVariableNameError, FullyExploredOptimizationDomainError
from GPyOpt.core.task.cost import constant_cost_withGradients
from GPyOpt.core.task.space import Design_space
from GPyOpt.optimization.optimizer import OptLbfgs, OptDirect, OptCma, apply_optimizer, choose_optimizer, OptimizationWithContext
from GPyOpt.optimization.acquisition_optimizer import ContextManager
from GPyOpt.optimization.anchor_points_generator import (ObjectiveAnchorPointsGenerator, ThompsonSamplingAnchorPointsGenerator,
                                                         RandomAnchorPointsGenerator)
from GPyOpt.experiment_design import initial_design
from GPyOpt.core.evaluators import Sequential, RandomBatch, LocalPenalization, ThompsonBatch
from GPyOpt.core.evaluators.batch_local_penalization import estimate_L
from GPyOpt.acquisitions import AcquisitionLP
from GPyOpt.util.general import samples_multidimensional_uniform


# ----------------------------------------------------------------------------------- acquisition
def ref_acquisition_base_init(self, model, space, optimizer, cost_withGradients=None):
    self.model = model
    self.space = space
    self.optimizer = optimizer
    self.analytical_gradient_acq = self.analytical_gradient_prediction and model.analytical_gradient_prediction
    self.cost_withGradients = constant_cost_withGradients if cost_withGradients is None else cost_withGradients


def ref_acq_weighted(self, x):
    z = x
    if self.space.model_dimensionality != self.space.objective_dimensionality:
        z = self.space.zip_inputs(x)
    return -self._compute_acq(x) * self.space.indicator_constraints(z) / self.cost_withGradients(x)[0]


def ref_acq_weighted_grad(self, x):
    z = x
    if self.space.model_dimensionality != self.space.objective_dimensionality:
        z = self.space.zip_inputs(x)
    inside = self.space.indicator_constraints(z)
    a, da = self._compute_acq_withGradients(x)
    c, dc = self.cost_withGradients(x)
    return -a / c * inside, -(da / c - a * dc / c ** 2) * inside


def ref_acq_optimize(self, duplicate_manager=None):
    if self.analytical_gradient_acq:
        return self.optimizer.optimize(f=self.acquisition_function, f_df=self.acquisition_function_withGradients,
                                       duplicate_manager=duplicate_manager)
    return self.optimizer.optimize(f=self.acquisition_function, duplicate_manager=duplicate_manager)


# ------------------------------------------------------------------------------------- optimisers
def ref_lbfgs(self, x0, f=None, df=None, f_df=None):
    if f_df is not None:
        res = scipy.optimize.fmin_l_bfgs_b(lambda x: (f(x), f_df(x)[1][0]), x0=x0, bounds=self.bounds, maxiter=self.maxiter)
    elif df is not None:
        res = scipy.optimize.fmin_l_bfgs_b(lambda x: (f(x), df(x)[0]), x0=x0, bounds=self.bounds, maxiter=self.maxiter)
    else:
        res = scipy.optimize.fmin_l_bfgs_b(f, x0=x0, bounds=self.bounds, approx_grad=True, maxiter=self.maxiter)
    if 'ABNORMAL' in str(res[2]['task']):
        return np.atleast_2d(x0), np.atleast_2d(f(x0))
    return np.atleast_2d(res[0]), np.atleast_2d(res[1])


def ref_direct(self, x0, f=None, df=None, f_df=None):
    from DIRECT import solve
    box = np.asarray(self.bounds)

    def g(x, user_data):
        return f(np.array([x])), 0
    x = solve(g, box[:, 0], box[:, 1], maxT=self.maxiter)[0]
    return np.atleast_2d(x), f(np.atleast_2d(x))


def ref_cma(self, x0, f=None, df=None, f_df=None):
    if len(self.bounds) == 1:
        raise IndexError('one dimension')
    import cma
    box = np.asarray(self.bounds)

    def g(x):
        return f(np.array([x]))
    x = cma.fmin(g, x0, 0.6, options={'bounds': [box[:, 0], box[:, 1]], 'verbose': -1, 'seed': np.nan})[0]
    return np.atleast_2d(x), f(np.atleast_2d(x))


def ref_apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager=None, context_manager=None, space=None):
    x0 = np.atleast_2d(x0)
    problem = OptimizationWithContext(x0=x0, f=f, df=df, f_df=f_df, context_manager=context_manager)
    if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(x0):
        raise ValueError('duplicate start')
    x, _ = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)
    if context_manager:
        x = context_manager._expand_vector(x)
    x = space.round_optimum(x)
    if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(x):
        return x0, np.atleast_2d(f(x0))
    return x, f(x)


# --------------------------------------------------------------------------------------- contexts
def ref_context_problem(self, x0, f, df=None, f_df=None, context_manager=None):
    self.x0 = np.atleast_2d(x0)
    self.f = f
    self.df = df
    self.f_df = f_df
    self.context_manager = context_manager
    if not context_manager:
        self.x0_nocontext = x0
        self.f_nocontext = f
        self.df_nocontext = df
        self.f_df_nocontext = f_df
    else:
        self.x0_nocontext = np.atleast_2d(x0)[:, context_manager.noncontext_index]
        self.f_nocontext = self.f_nc
        if f_df is None:
            self.df_nocontext = None
            self.f_df_nocontext = None
        else:
            self.df_nocontext = self.df_nc
            self.f_df_nocontext = self.f_df_nc


def ref_f_nc(self, x):
    x = np.atleast_2d(x)
    v = self.f(self.context_manager._expand_vector(x))
    if x.shape[0] == 1:
        return v[0]
    return v


def ref_df_nc(self, x):
    full = self.context_manager._expand_vector(np.atleast_2d(x))
    return self.f_df(full)[1][:, np.array(self.context_manager.noncontext_index)]


def ref_f_df_nc(self, x):
    full = self.context_manager._expand_vector(np.atleast_2d(x))
    v, d = self.f_df(full)
    return v, d[:, np.array(self.context_manager.noncontext_index)]


def ref_context_init(self, space, context=None):
    n = space.model_dimensionality
    m = len(space.config_space_expanded)
    self.space = space
    self.all_index = list(range(n))
    self.all_index_obj = list(range(m))
    self.context_index = []
    self.context_value = []
    self.context_index_obj = []
    if context is None:
        self.nocontext_index_obj = list(range(m))
        self.noncontext_index = list(range(n))
        self.noncontext_bounds = space.get_bounds()[:]
        return
    for name in context.keys():
        v = space.find_variable(name)
        self.context_index += v.index_in_model
        self.context_index_obj += v.index_in_objective
        self.context_value += v.objective_to_model(context[name])
    self.noncontext_index = [i for i in range(n) if i not in self.context_index]
    bounds = space.get_bounds()
    self.noncontext_bounds = [bounds[i] for i in self.noncontext_index]
    self.nocontext_index_obj = [i for i in range(m) if i not in self.context_index_obj]


def given_bounds(self, space, context=None):
    return len(space.get_bounds()) == space.model_dimensionality


def given_parts(self, x):
    return len([i for i in self.noncontext_index if i in self.context_index]) == 0


def ref_expand_vector_context_first(self, x):
    x = np.atleast_2d(x)
    full = np.zeros((x.shape[0], self.space.model_dimensionality))
    full[:, np.array(self.context_index).astype(int)] = self.context_value
    full[:, np.array(self.noncontext_index).astype(int)] = x
    return full


def ref_expand_vector(self, x):
    x = np.atleast_2d(x)
    full = np.zeros((x.shape[0], self.space.model_dimensionality))
    full[:, np.array(self.noncontext_index).astype(int)] = x
    full[:, np.array(self.context_index).astype(int)] = self.context_value
    return full


# ----------------------------------------------------------------------------------- anchor points
def ref_anchor_get(self, num_anchor=5, duplicate_manager=None, unique=False, context_manager=None):
    if context_manager and not self.space._has_bandit():
        free = [self.space.config_space_expanded[i] for i in context_manager.nocontext_index_obj]
        space = Design_space(free, None if context_manager.context_index else context_manager.space.constraints)
    else:
        space = self.space
    X = initial_design(self.design_type, space, self.num_samples)
    if unique:
        X = np.vstack(sorted(list({tuple(x) for x in X})))
    X = space.unzip_inputs(X)
    if context_manager and self.space._has_bandit():
        X = context_manager._expand_vector(X[:, context_manager.noncontext_index])
    elif context_manager:
        X = context_manager._expand_vector(X)
    if self.space.has_constraints() and not space.has_constraints():
        ok = self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1
        if np.any(ok):
            X = X[ok, :]
    if duplicate_manager:
        keep = [i for i, x in enumerate(X) if not duplicate_manager.is_unzipped_x_duplicate(x)]
    else:
        keep = [i for i, x in enumerate(X)]
    if not keep:
        raise FullyExploredOptimizationDomainError('no anchor points')
    X = X[keep, :]
    scores = self.get_anchor_point_scores(X)
    return X[np.argsort(scores)[:min(len(scores), num_anchor)], :]


def ref_scores_objective(self, X):
    return self.objective(X).flatten()


def ref_scores_thompson(self, X):
    m, s = self.model.predict(X)
    return np.array([np.random.normal(m[i], s[i]) for i in range(min(len(m), len(s)))]).flatten()


def ref_scores_random(self, X):
    return range(X.shape[0])


def ref_acquisition_optimizer_init(self, space, optimizer='lbfgs', **kwargs):
    self.space = space
    self.optimizer_name = optimizer
    self.kwargs = kwargs
    if 'model' in kwargs:
        self.model = kwargs['model']
    if 'type_anchor_points_logic' in kwargs:
        self.type_anchor_points_logic = kwargs['type_anchor_points_logic']
    else:
        self.type_anchor_points_logic = 'max_objective'
    self.context_manager = ContextManager(space)


def ref_acqopt(self, f=None, df=None, f_df=None, duplicate_manager=None):
    self.f = f
    self.df = df
    self.f_df = f_df
    self.optimizer = choose_optimizer(self.optimizer_name, self.context_manager.noncontext_bounds)
    if self.type_anchor_points_logic == 'max_objective':
        gen = ObjectiveAnchorPointsGenerator(self.space, 'random', f)
    elif self.type_anchor_points_logic == 'thompson_sampling':
        gen = ThompsonSamplingAnchorPointsGenerator(self.space, 'sobol', self.model)
    else:
        raise InvalidConfigError('logic')
    anchors = gen.get(duplicate_manager=duplicate_manager, context_manager=self.context_manager)
    results = [apply_optimizer(self.optimizer, a, f=f, df=None, f_df=f_df, duplicate_manager=duplicate_manager,
                               context_manager=self.context_manager, space=self.space) for a in anchors]
    return min(results, key=lambda t: t[1])


# ------------------------------------------------------------------------------------------ batches
def ref_sequential(self, duplicate_manager=None, context_manager=None):
    return self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]


def ref_sampling_init(self, acquisition, batch_size, **kwargs):
    self.acquisition = acquisition
    self.batch_size = batch_size
    self.space = acquisition.space
    self.num_anchor = 5 * batch_size


def ref_thompson_init(self, acquisition, batch_size):
    self.acquisition = acquisition
    self.batch_size = batch_size
    self.space = acquisition.space
    self.num_anchor = 5 * batch_size
    self.model = acquisition.model
    self.optimizer_name = 'lbfgs'
    self.f = acquisition.acquisition_function
    self.f_df = acquisition.acquisition_function_withGradients


def ref_zip_and_tuple(self, x):
    return tuple(self.space.zip_inputs(np.atleast_2d(x)).flatten())


def ref_compute_batch(self, duplicate_manager=None, context_manager=None):
    self.context_manager = context_manager
    if not duplicate_manager:
        return self.compute_batch_without_duplicate_logic(context_manager=context_manager)
    taken = duplicate_manager.unique_points.copy()
    batch = []
    anchors = self.get_anchor_points(duplicate_manager=duplicate_manager, context_manager=context_manager)
    first = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager=context_manager)
    if first is not None:
        batch.append(first)
        taken.add(self.zip_and_tuple(first))
    for a in anchors:
        if len(batch) >= self.batch_size:
            break
        x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager=context_manager)
        zx = self.zip_and_tuple(x)
        if zx not in taken:
            batch.append(x)
            taken.add(zx)
        else:
            za = self.zip_and_tuple(a)
            if za not in taken:
                batch.append(a)
                taken.add(za)
    return np.vstack(batch)


def ref_random_first(self, duplicate_manager=None, context_manager=None):
    return self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]


def ref_random_anchors(self, duplicate_manager=None, context_manager=None):
    unique = True if duplicate_manager else False
    gen = RandomAnchorPointsGenerator(self.space, 'random')
    return gen.get(num_anchor=self.num_anchor, duplicate_manager=duplicate_manager, unique=unique,
                   context_manager=self.acquisition.optimizer.context_manager)


def ref_random_anchor(self, a, duplicate_manager=None, context_manager=None):
    return a


def ref_random_plain(self, context_manager=None):
    first = self.initialize_batch()
    anchors = self.get_anchor_points()
    return np.vstack((first, anchors[:self.batch_size - 1, :]))


def ref_thompson_first(self, duplicate_manager=None, context_manager=None):
    return None


def ref_thompson_anchors(self, duplicate_manager=None, context_manager=None):
    unique = True if duplicate_manager else False
    gen = ThompsonSamplingAnchorPointsGenerator(self.space, 'random', model=self.model)
    return gen.get(num_anchor=self.num_anchor, duplicate_manager=duplicate_manager, unique=unique, context_manager=self.context_manager)


def ref_thompson_anchor(self, a, duplicate_manager=None, context_manager=None):
    if context_manager:
        bounds = self.context_manager.noncontext_bounds
    else:
        bounds = self.space.get_bounds()
    opt = choose_optimizer(self.optimizer_name, bounds)
    x, _ = apply_optimizer(opt, a, f=self.f, df=None, f_df=self.f_df, duplicate_manager=duplicate_manager,
                           context_manager=self.context_manager, space=self.space)
    return self.space.round_optimum(x)


def ref_thompson_plain(self, context_manager=None):
    anchors = self.get_anchor_points(context_manager=context_manager)
    n = min(len(anchors), self.batch_size)
    return np.vstack([self.optimize_anchor_point(anchors[i], context_manager=context_manager) for i in range(n)])


def ref_lp_batch(self, duplicate_manager=None, context_manager=None):
    assert isinstance(self.acquisition, AcquisitionLP)
    self.acquisition.update_batches(None, None, None)
    batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
    n = 1
    if self.batch_size > 1:
        L = estimate_L(self.acquisition.model.model, self.acquisition.space.get_bounds())
        Min = self.acquisition.model.model.Y.min()
    while n < self.batch_size:
        self.acquisition.update_batches(batch, L, Min)
        if duplicate_manager:
            duplicate_manager.add_unzipped_x(batch[-1])
        try:
            x = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
        except FullyExploredOptimizationDomainError:
            break
        batch = np.vstack((batch, x))
        n += 1
    self.acquisition.update_batches(None, None, None)
    return batch


def ref_estimate_L(model, bounds, storehistory=True):
    def slope(x, model, x0):
        dmdx = model.predictive_gradients(np.atleast_2d(x))[0]
        if dmdx.ndim > 2:
            dmdx = dmdx.reshape(dmdx.shape[:2])
        return -np.sqrt(np.sum(dmdx * dmdx, axis=1))
    samples = np.vstack([samples_multidimensional_uniform(bounds, 500), model.X])
    x0 = samples[np.argmin(slope(samples, model, 0))]
    res = scipy.optimize.minimize(slope, x0, method='L-BFGS-B', bounds=bounds, args=(model, x0), options={'maxiter': 200})
    L = -float(res.fun)
    return 10 if L < 1e-7 else L
