M='GPyOpt/models/'
X='GPyOpt/experiment_design/'
U='GPyOpt/util/'
T='GPyOpt/core/task/'
O='GPyOpt/optimization/'
A='GPyOpt/acquisitions/'
EV='GPyOpt/core/evaluators/'
ME='GPyOpt/methods/bayesian_optimization.py'
I='GPyOpt/interface/'
BO='GPyOpt/core/bo.py'
TRIALS=[
 # context manager that saves and restores the parameters
 dict(id='k1',edits=[(M+'gpmodel.py','def:GPModel_MCMC.predict','''
@contextmanager
def _parameters_kept(self):
    kept = self.model.param_array.copy()
    yield
    self.model.param_array[:] = kept
    self.model._trigger_params_changed()

def _use_sample(self, s):
    where = slice(None) if self.model._fixes_ is None else self.model._fixes_
    self.model[where] = s
    self.model._trigger_params_changed()

def predict(self, X):
    X = X[None, :] if X.ndim == 1 else X
    means, stds = [], []
    with self._parameters_kept():
        for s in self.hmc_samples:
            self._use_sample(s)
            m, v = self.model.predict(X)
            means += [m]
            stds += [np.sqrt(np.clip(v, 1e-10, np.inf))]
    return means, stds
'''),(M+'gpmodel.py','import numpy as np','from contextlib import contextmanager\nimport numpy as np')]),
 # generator over samples
 dict(id='k2',edits=[(M+'gpmodel.py','def:GPModel_MCMC.get_fmin','''
def _each_sample(self):
    saved = self.model.param_array.copy()
    for s in self.hmc_samples:
        if self.model._fixes_ is None:
            self.model[:] = s
        else:
            self.model[self.model._fixes_] = s
        self.model._trigger_params_changed()
        yield self.model
    self.model.param_array[:] = saved
    self.model._trigger_params_changed()

def get_fmin(self):
    return [model.predict(model.X)[0].min() for model in self._each_sample()]
''')]),
 dict(id='k3',edits=[(BO,'def:BO._update_model','''
def _model_data(self, normalization_type):
    inputs = self.space.unzip_inputs(self.X)
    outputs = normalize(self.Y, normalization_type) if self.normalize_Y else self.Y
    return inputs, outputs

def _update_model(self, normalization_type='stats'):
    due = self.num_acquisitions % self.model_update_interval == 0
    if due:
        self.model.updateModel(*self._model_data(normalization_type), None, None)
    self._save_model_parameter_values()
''')]),
 dict(id='k4',edits=[(BO,'''        while (self.max_time > self.cum_time):
            # --- Update model
            try:
                self._update_model(self.normalization_type)
            except np.linalg.linalg.LinAlgError:
                break

            if (self.num_acquisitions >= self.max_iter
                    or (len(self.X) > 1 and self._distance_last_evaluations() <= self.eps)):
                break

            self.suggested_sample = self._compute_next_evaluations()

            # --- Augment X
            self.X = np.vstack((self.X,self.suggested_sample))

            # --- Evaluate *f* in X, augment Y and update cost function (if needed)
            self.evaluate_objective()

            # --- Update current evaluation time and function evaluations
            self.cum_time = time.time() - self.time_zero
            self.num_acquisitions += 1

            if verbosity:
                print("num acquisition: {}, time elapsed: {:.2f}s".format(
                    self.num_acquisitions, self.cum_time))
''','''        while self.cum_time < self.max_time:
            # --- Update model
            try:
                self._update_model(self.normalization_type)
            except np.linalg.linalg.LinAlgError:
                break
            if self._should_stop():
                break
            self._one_step()
            self.cum_time = time.time() - self.time_zero
            self.num_acquisitions = self.num_acquisitions + 1
            if verbosity:
                print("num acquisition: {}, time elapsed: {:.2f}s".format(self.num_acquisitions, self.cum_time))
'''),(BO,'def:BO._print_convergence','''
def _should_stop(self):
    if self.num_acquisitions >= self.max_iter:
        return True
    if len(self.X) <= 1:
        return False
    return self._distance_last_evaluations() <= self.eps

def _one_step(self):
    self.suggested_sample = self._compute_next_evaluations()
    self.X = np.concatenate([self.X, self.suggested_sample], axis=0)
    self.evaluate_objective()

def _print_convergence(self):
    if not self.verbosity:
        return None
    if self.num_acquisitions == self.max_iter and not self.initial_iter:
        print('   ** Maximum number of iterations reached **')
        return 1
    if self._distance_last_evaluations() < self.eps and not self.initial_iter:
        print('   ** Two equal location selected **')
        return 1
    if self.max_time < self.cum_time and not self.initial_iter:
        print('   ** Evaluation time reached **')
        return 0
    if self.initial_iter:
        print('** GPyOpt Bayesian Optimization class initialized successfully **')
        self.initial_iter = False
''')]),
 dict(id='k5',edits=[(BO,'''        if  (max_iter is None) and (max_time is None):
            self.max_iter = 0
            self.max_time = np.inf
        elif (max_iter is None) and (max_time is not None):
            self.max_iter = np.inf
            self.max_time = max_time
        elif (max_iter is not None) and (max_time is None):
            self.max_iter = max_iter
            self.max_time = np.inf
        else:
            self.max_iter = max_iter
            self.max_time = max_time
''','''        if max_iter is None:
            max_iter = 0 if max_time is None else np.inf
        if max_time is None:
            max_time = np.inf
        self.max_iter, self.max_time = max_iter, max_time
''')]),
 dict(id='k6',edits=[(T+'objective.py','def:SingleObjective._eval_func','''
def _timed(self, row):
    start = time.time()
    value = self.func(np.atleast_2d(row))
    return value, time.time() - start

def _eval_func(self, x):
    results = [self._timed(row) for row in x]
    f_evals = np.vstack([np.empty((0, 1))] + [value for value, _ in results])
    return f_evals, [seconds for _, seconds in results]
''')]),
 dict(id='k7',edits=[(T+'objective.py','def:SingleObjective._syncronous_batch_evaluation','''
def _start_worker(self, chunk):
    from multiprocessing import Process, Pipe
    parent, child = Pipe()
    proc = Process(target=spawn(self._eval_func), args=(child, chunk))
    proc.start()
    child.close()
    return parent, proc

def _syncronous_batch_evaluation(self, x):
    n = self.n_procs
    workers = [self._start_worker(x[i::n]) for i in range(n)]
    f_evals = np.zeros((x.shape[0], 1))
    try:
        for i, (p, _) in enumerate(workers):
            f_evals[i::n] = p.recv()[0]
    finally:
        for p, _ in workers:
            p.close()
        for _, proc in workers:
            proc.join()
    return f_evals, np.ones((x.shape[0], 1))
''')]),
 dict(id='k8',edits=[(T+'cost.py','def:CostModel.update_cost_model','''
def update_cost_model(self, x, cost_x):
    if self.cost_type != 'evaluation_time':
        return
    log_times = np.log(np.asarray(cost_x).reshape(-1, 1))
    first = self.num_updates == 0
    X_all = x if first else np.concatenate((self.cost_model.model.X, x))
    costs_all = log_times if first else np.concatenate((self.cost_model.model.Y, log_times))
    self.num_updates += 1
    self.cost_model.updateModel(X_all, costs_all, None, None)
''')]),
 dict(id='k9',edits=[(T+'cost.py','def:CostModel._cost_gp_withGradients','''
def _cost_gp_withGradients(self, x):
    if not self.num_updates:
        return constant_cost_withGradients(np.atleast_2d(x))
    log_cost, _, log_grad, _ = self.cost_model.predict_withGradients(x)
    cost = np.exp(log_cost)
    return cost, cost * log_grad
''')]),
 dict(id='k10',edits=[(O+'anchor_points_generator.py','def:AnchorPointsGenerator.get','''
def _design_space(self, context_manager):
    if not context_manager:
        return self.space, lambda x: x
    if self.space._has_bandit():
        return self.space, lambda x: context_manager._expand_vector(x[:, context_manager.noncontext_index])
    variables = [self.space.config_space_expanded[i] for i in context_manager.nocontext_index_obj]
    if context_manager.context_index:
        constraints = None
    else:
        constraints = context_manager.space.constraints
    return Design_space(variables, constraints), context_manager._expand_vector

def _only_feasible(self, X):
    ok = self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1
    return X[ok, :] if ok.any() else X

def get(self, num_anchor=5, duplicate_manager=None, unique=False, context_manager=None):
    space, add_context = self._design_space(context_manager)
    X = initial_design(self.design_type, space, self.num_samples)
    if unique:
        X = np.vstack(sorted({tuple(x) for x in X}))
    X = add_context(space.unzip_inputs(X))
    if self.space.has_constraints() and not space.has_constraints():
        X = self._only_feasible(X)
    if duplicate_manager:
        kept = [i for i in range(X.shape[0]) if not duplicate_manager.is_unzipped_x_duplicate(X[i])]
    else:
        kept = list(range(X.shape[0]))
    if len(kept) == 0:
        raise FullyExploredOptimizationDomainError("No anchor points could be generated ({} used samples, {} requested anchor points).".format(self.num_samples, num_anchor))
    if len(kept) < num_anchor:
        logger.warning("Expecting {} anchor points, only {} available.".format(num_anchor, len(kept)))
    X = X[kept, :]
    scores = self.get_anchor_point_scores(X)
    order = np.argsort(scores)
    return X[order[:num_anchor], :]
''')]),
 dict(id='k11',edits=[(O+'acquisition_optimizer.py','def:AcquisitionOptimizer.optimize','''
def _anchor_generator(self, f):
    if self.type_anchor_points_logic == max_objective_anchor_points_logic:
        return ObjectiveAnchorPointsGenerator(self.space, random_design_type, f)
    if self.type_anchor_points_logic == thompson_sampling_anchor_points_logic:
        return ThompsonSamplingAnchorPointsGenerator(self.space, sobol_design_type, self.model)
    raise InvalidConfigError('Unknown anchor points logic: {}'.format(self.type_anchor_points_logic))

def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
    self.f, self.df, self.f_df = f, df, f_df
    self.optimizer = choose_optimizer(self.optimizer_name, self.context_manager.noncontext_bounds)
    anchors = self._anchor_generator(f).get(duplicate_manager=duplicate_manager, context_manager=self.context_manager)
    best = None
    for anchor in anchors:
        x, fx = apply_optimizer(self.optimizer, anchor, f=f, df=None, f_df=f_df, duplicate_manager=duplicate_manager, context_manager=self.context_manager, space=self.space)
        if best is None or fx < best[1]:
            best = (x, fx)
    return best
''')]),
 dict(id='k12',edits=[(O+'acquisition_optimizer.py','def:ContextManager.__init__','''
def __init__(self, space, context=None):
    self.space = space
    self.all_index = [i for i in range(space.model_dimensionality)]
    self.all_index_obj = [i for i in range(len(self.space.config_space_expanded))]
    self.context_index, self.context_value, self.context_index_obj = [], [], []
    self.nocontext_index_obj = self.all_index_obj
    self.noncontext_bounds = list(self.space.get_bounds())
    self.noncontext_index = list(self.all_index)
    if context is None:
        return
    for name, value in context.items():
        variable = self.space.find_variable(name)
        self.context_index.extend(variable.index_in_model)
        self.context_index_obj.extend(variable.index_in_objective)
        self.context_value.extend(variable.objective_to_model(value))
    fixed = set(self.context_index)
    self.noncontext_index = [i for i in self.all_index if i not in fixed]
    self.noncontext_bounds = [b for i, b in enumerate(self.noncontext_bounds) if i not in fixed]
    self.nocontext_index_obj = [i for i in self.all_index_obj if i not in self.context_index_obj]
''')]),
 dict(id='k13',edits=[(O+'acquisition_optimizer.py','def:ContextManager._expand_vector','''
def _expand_vector(self, x):
    x = np.atleast_2d(x)
    rows = x.shape[0]
    full = np.zeros((rows, self.space.model_dimensionality))
    free = np.array(self.noncontext_index).astype(int)
    fixed = np.array(self.context_index).astype(int)
    full[:, fixed] = self.context_value
    full[:, free] = x
    return full
''')]),
 dict(id='k14',edits=[(U+'duplicate_manager.py','def:DuplicateManager.__init__','''
def __init__(self, space, zipped_X, pending_zipped_X=None, ignored_zipped_X=None):
    self.space = space
    self.unique_points = set()
    for block in (zipped_X, pending_zipped_X, ignored_zipped_X):
        if block is None:
            continue
        for x in block:
            self.unique_points.add(self._key(x))

@staticmethod
def _key(x):
    return tuple(x.flatten())
'''),(U+'duplicate_manager.py','def:DuplicateManager.is_zipped_x_duplicate','''
def is_zipped_x_duplicate(self, zipped_x):
    return self._key(zipped_x) in self.unique_points
''')]),
 dict(id='k15',edits=[(EV+'base.py','def:SamplingBasedBatchEvaluator.compute_batch','''
def compute_batch(self, duplicate_manager=None, context_manager=None):
    anchors = self.get_anchor_points(duplicate_manager=duplicate_manager, context_manager=context_manager)
    first = self.optimize_anchor_point(anchors[0], duplicate_manager=duplicate_manager, context_manager=context_manager)
    if duplicate_manager is None:
        return self.compute_batch_without_duplicate_logic(context_manager=context_manager)
    batch = [first]
    return np.vstack(batch)
''')],bug=True),
 dict(id='k16',edits=[(EV+'batch_local_penalization.py','def:LocalPenalization.compute_batch','''
def compute_batch(self, duplicate_manager=None, context_manager=None):
    from ...acquisitions import AcquisitionLP
    assert isinstance(self.acquisition, AcquisitionLP)
    acq = self.acquisition
    acq.update_batches(None, None, None)
    batch = acq.optimize(duplicate_manager=duplicate_manager)[0]
    n = 1
    if self.batch_size > 1:
        L = estimate_L(acq.model.model, acq.space.get_bounds())
        lowest = acq.model.model.Y.min()
        if duplicate_manager:
            duplicate_manager.add_unzipped_x(batch[-1])
    while n < self.batch_size:
        acq.update_batches(batch, L, lowest)
        x = acq.optimize(duplicate_manager=duplicate_manager)[0]
        if duplicate_manager:
            duplicate_manager.add_unzipped_x(x)
        batch = np.vstack((batch, x))
        n += 1
    acq.update_batches(None, None, None)
    return batch
''')]),
 dict(id='k17',edits=[(U+'general.py','def:best_value','''
def best_value(Y, sign=1):
    pick = np.min if sign == 1 else np.max
    return np.array([pick(Y[:k]) for k in range(1, Y.shape[0] + 1)])
''')]),
 dict(id='k18',edits=[(U+'general.py','def:get_quantiles','''
def get_quantiles(acquisition_par, fmin, m, s):
    s = _bounded_away_from_zero(s)
    u = (fmin - m - acquisition_par) / s
    phi = np.exp(-0.5 * u * u) / np.sqrt(2 * np.pi)
    Phi = 0.5 * erfc(-u / np.sqrt(2))
    return (phi, Phi, u)


def _bounded_away_from_zero(s, floor=1e-10):
    if isinstance(s, np.ndarray):
        s = np.where(s < floor, floor, s)
    elif s < floor:
        s = floor
    return s
''')]),
 dict(id='k19',edits=[(A+'EI.py','def:AcquisitionEI._compute_acq_withGradients','''
def _compute_acq_withGradients(self, x):
    best = self.model.get_fmin()
    mean, dev, grad_mean, grad_dev = self.model.predict_withGradients(x)
    pdf, cdf, u = get_quantiles(self.jitter, best, mean, dev)
    return dev * (u * cdf + pdf), grad_dev * pdf - cdf * grad_mean
''')]),
 dict(id='k20',edits=[(A+'LCB_mcmc.py','def:AcquisitionLCB_MCMC._compute_acq_withGradients','''
def _compute_acq_withGradients(self, x):
    moments = list(zip(*self.model.predict_withGradients(x)))
    value = sum(self.exploration_weight * s - m for m, s, _, _ in moments)
    grad = sum(self.exploration_weight * ds - dm for _, _, dm, ds in moments)
    return value / len(moments), grad / len(moments)
''')]),
 dict(id='k21',edits=[(X+'random_design.py','def:RandomDesign.fill_noncontinous_variables','''
def fill_noncontinous_variables(self, samples):
    n = samples.shape[0]
    column = 0
    for var in self.space.space_expanded:
        kind = type(var)
        if kind is DiscreteVariable or kind is CategoricalVariable:
            samples[:, column] = np.random.choice(var.domain, n)
        elif kind is BanditVariable:
            width = var.domain.shape[1]
            samples[:, column:column + width] = var.domain[np.random.randint(var.domain.shape[0], size=n), :]
            column += width - 1
        column += 1
''')]),
 dict(id='k22',edits=[(X+'random_design.py','def:RandomDesign.get_samples_with_constraints','''
def get_samples_with_constraints(self, init_points_count):
    kept = np.empty((0, self.space.dimensionality))
    while len(kept) < init_points_count:
        candidates = self.get_samples_without_constraints(init_points_count)
        ok = self.space.indicator_constraints(candidates).flatten() == 1
        if ok.any():
            kept = np.concatenate((kept, candidates[ok]), axis=0)
    return kept[:init_points_count]
''')]),
 dict(id='k23',edits=[(ME,'def:BayesianOptimization._sign','''
def _sign(self, f):
    if not self.maximize:
        return f

    def negated(x):
        return -f(x)
    return negated
''')]),
 dict(id='k24',edits=[(I+'config_parser.py','def:update_config','''
def update_config(config_new, config_default):
    merged = dict(config_new)
    for name, default in config_default.items():
        if name not in merged:
            merged[name] = default
        elif isinstance(default, dict) and isinstance(merged[name], dict):
            merged[name] = update_config(merged[name], default)
    return merged
''')],bug=None),
 dict(id='k25',edits=[(U+'general.py','def:normalize','''
def normalize(Y, normalization_type='stats'):
    Y = np.asarray(Y, dtype=float)
    if np.max(Y.shape) != Y.size:
        raise NotImplementedError('Only 1-dimensional arrays are supported.')
    normaliser = {'stats': _by_stats, 'maxmin': _by_range}.get(normalization_type)
    if normaliser is None:
        raise ValueError('Unknown normalization type: {}'.format(normalization_type))
    return normaliser(Y)


def _by_stats(Y):
    Y = Y - Y.mean()
    std = Y.std()
    return Y / std if std > 0 else Y


def _by_range(Y):
    Y = Y - Y.min()
    y_range = np.ptp(Y)
    if y_range > 0:
        Y = 2 * (Y / y_range - 0.5)
    return Y
''')],bug=None),
 dict(id='k26',edits=[(T+'space.py','def:Design_space.indicator_constraints','''
def indicator_constraints(self, x):
    x = np.atleast_2d(x)
    allowed = np.ones((x.shape[0], 1))
    for d in self.constraints or []:
        try:
            constraint = self._compiled(d)
            inside = (constraint(x) <= 0) * 1
        except:
            print('Fail to compile the constraint: ' + str(d))
            raise
        allowed *= inside.reshape(x.shape[0], 1)
    return allowed

@staticmethod
def _compiled(d):
    names = {}
    exec('constraint = lambda x:' + d['constraint'], globals(), names)
    return names['constraint']
''')],bug=None),
 dict(id='k27',edits=[(BO,'def:BO.evaluate_objective','''
def evaluate_objective(self):
    sample = self.suggested_sample
    values, costs = self.objective.evaluate(sample)
    self.Y_new = values
    self.Y = np.vstack((self.Y, values))
    self.cost.update_cost_model(self.space.unzip_inputs(sample), costs)
''')]),
 dict(id='k28',edits=[(BO,'def:BO._save_model_parameter_values','''
def _save_model_parameter_values(self):
    try:
        read = self.model.get_model_parameters
    except AttributeError:
        return
    rows = read()
    if self.model_parameters_iterations is not None:
        rows = np.vstack((self.model_parameters_iterations, rows))
    self.model_parameters_iterations = rows
''')]),
 dict(id='k29',edits=[(A+'base.py','def:AcquisitionBase.acquisition_function','''
def acquisition_function(self, x):
    return -self._cost_weighted(x) * self._allowed(x)

def _cost_weighted(self, x):
    value = self._compute_acq(x)
    cost = self.cost_withGradients(x)[0]
    return value / cost

def _allowed(self, x):
    return self.space.indicator_constraints(self.space.zip_inputs(x))
''')]),
 dict(id='k30',edits=[(O+'optimizer.py','def:OptimizationWithContext.f_nc','''
def _with_context(self, x):
    return self.context_manager._expand_vector(np.atleast_2d(x))

def f_nc(self, x):
    full = self._with_context(x)
    if full.shape[0] != 1:
        return self.f(full)
    return self.f(full)[0]
''')]),
 dict(id='p1',edits=[(M+'gpmodel.py','def:GPModel_MCMC.predict','''
@_keeps_parameters
def predict(self, X):
    if X.ndim == 1:
        X = X[None, :]
    means, stds = [], []
    for s in self.hmc_samples:
        if self.model._fixes_ is None:
            self.model[:] = s
        else:
            self.model[self.model._fixes_] = s
        self.model._trigger_params_changed()
        m, v = self.model.predict(X)
        means.append(m)
        stds.append(np.sqrt(np.clip(v, 1e-10, np.inf)))
    return means, stds
'''),(M+'gpmodel.py','class GPModel_MCMC(BOModel):','''def _keeps_parameters(method):
    @functools.wraps(method)
    def wrapper(self, *args, **kwargs):
        ps = self.model.param_array.copy()
        result = method(self, *args, **kwargs)
        self.model.param_array[:] = ps
        self.model._trigger_params_changed()
        return result
    return wrapper


class GPModel_MCMC(BOModel):'''),(M+'gpmodel.py','import numpy as np','import functools\nimport numpy as np')]),
]
