M='GPyOpt/models/'
E='GPyOpt/experiment_design/'
U='GPyOpt/util/'
T='GPyOpt/core/task/'
O='GPyOpt/optimization/'
ME='GPyOpt/methods/bayesian_optimization.py'
I='GPyOpt/interface/'
BO='GPyOpt/core/bo.py'
TRIALS=[
 dict(id='m1',edits=[(M+'gpmodel.py','def:GPModel._predict','''
def _predict(self, X, full_cov, include_likelihood):
    mean, var = self.model.predict(self._as_rows(X), full_cov=full_cov, include_likelihood=include_likelihood)
    return mean, (var if full_cov else self._floor(var))

@staticmethod
def _as_rows(X):
    return X[None, :] if X.ndim == 1 else X

@staticmethod
def _floor(var):
    return np.clip(var, 1e-10, np.inf)
'''),(M+'gpmodel.py','def:GPModel.predict_withGradients','''
def predict_withGradients(self, X):
    X = self._as_rows(X)
    mean, var = self.model.predict(X)
    std = np.sqrt(self._floor(var))
    dmean, dvar = self.model.predictive_gradients(X)
    return mean, std, dmean[:, :, 0], dvar / (2 * std)
''')]),
 dict(id='m2',edits=[(M+'gpmodel.py','def:GPModel._create_model','''
def _create_model(self, X, Y):
    self.input_dim = X.shape[1]
    kernel, self.kernel = self.kernel, None
    if kernel is None:
        kernel = GPy.kern.Matern52(self.input_dim, variance=1., ARD=self.ARD)
    if self.sparse:
        self.model = GPy.models.SparseGPRegression(X, Y, kernel=kernel, num_inducing=self.num_inducing, mean_function=self.mean_function)
    else:
        noise_var = self.noise_var
        if noise_var is None:
            noise_var = 0.01 * Y.var()
        self.model = GPy.models.GPRegression(X, Y, kernel=kernel, noise_var=noise_var, mean_function=self.mean_function)
    noise = self.model.Gaussian_noise
    if not self.exact_feval:
        noise.constrain_bounded(1e-9, 1e6, warning=False)
    else:
        noise.constrain_fixed(1e-6, warning=False)
''')]),
 dict(id='m3',edits=[(M+'gpmodel.py','def:GPModel.updateModel','''
def updateModel(self, X_all, Y_all, X_new, Y_new):
    if self.model is not None:
        self.model.set_XY(X_all, Y_all)
    else:
        self._create_model(X_all, Y_all)
    if not self.max_iters > 0:
        return
    options = {'optimizer': self.optimizer, 'max_iters': self.max_iters}
    if self.optimize_restarts != 1:
        self.model.optimize_restarts(num_restarts=self.optimize_restarts, verbose=self.verbose, **options)
    else:
        self.model.optimize(messages=False, ipython_notebook=False, **options)
'''),(M+'gpmodel.py','def:GPModel.copy','''
def copy(self):
    options = dict(noise_var=self.noise_var, exact_feval=self.exact_feval, optimizer=self.optimizer, max_iters=self.max_iters,
                   optimize_restarts=self.optimize_restarts, sparse=self.sparse, num_inducing=self.num_inducing, verbose=self.verbose,
                   ARD=self.ARD, mean_function=self.mean_function)
    X, Y = self.model.X, self.model.Y
    other = GPModel(kernel=self.model.kern.copy(), **options)
    other._create_model(X, Y)
    other.updateModel(X, Y, None, None)
    return other
''')]),
 dict(id='m4',edits=[(M+'gpmodel.py','def:GPModel_MCMC.predict','''
def predict(self, X):
    X = X[None, :] if X.ndim == 1 else X
    saved = self.model.param_array.copy()
    means, stds = [], []
    for sample in self.hmc_samples:
        self._set_hyperparameters(sample)
        mean, var = self.model.predict(X)
        means += [mean]
        stds += [np.sqrt(np.clip(var, 1e-10, np.inf))]
    self._restore(saved)
    return means, stds

def _set_hyperparameters(self, sample):
    fixes = self.model._fixes_
    if fixes is not None:
        self.model[fixes] = sample
    else:
        self.model[:] = sample
    self.model._trigger_params_changed()

def _restore(self, saved):
    self.model.param_array[:] = saved
    self.model._trigger_params_changed()
'''),(M+'gpmodel.py','def:GPModel_MCMC.get_fmin','''
def get_fmin(self):
    saved = self.model.param_array.copy()
    minima = []
    for sample in self.hmc_samples:
        self._set_hyperparameters(sample)
        mean, _ = self.model.predict(self.model.X)
        minima.append(mean.min())
    self._restore(saved)
    return minima
'''),(M+'gpmodel.py','def:GPModel_MCMC.predict_withGradients','''
def predict_withGradients(self, X):
    X = X[None, :] if X.ndim == 1 else X
    saved = self.model.param_array.copy()
    results = []
    for sample in self.hmc_samples:
        self._set_hyperparameters(sample)
        mean, var = self.model.predict(X)
        std = np.sqrt(np.clip(var, 1e-10, np.inf))
        dmean, dvar = self.model.predictive_gradients(X)
        results.append((mean, std, dmean[:, :, 0], dvar / (2 * std)))
    self._restore(saved)
    return [r[0] for r in results], [r[1] for r in results], [r[2] for r in results], [r[3] for r in results]
''')]),
 dict(id='m5',edits=[(M+'gpmodel.py','def:GPModel_MCMC.updateModel','''
def updateModel(self, X_all, Y_all, X_new, Y_new):
    if self.model is not None:
        self.model.set_XY(X_all, Y_all)
    else:
        self._create_model(X_all, Y_all)
    self.model.optimize(max_iters=200)
    params = self.model.param_array
    params[:] = params * (1. + 0.01 * np.random.randn(params.size))
    self._sample_hyperparameters()

def _sample_hyperparameters(self):
    total = self.n_burnin + self.n_samples * self.subsample_interval
    self.hmc = GPy.inference.mcmc.HMC(self.model, stepsize=self.step_size)
    chain = self.hmc.sample(num_samples=total, hmc_iters=self.leapfrog_steps)
    self.hmc_samples = chain[self.n_burnin::self.subsample_interval]
''')]),
 dict(id='m6',edits=[(M+'rfmodel.py','def:RFModel.predict','''
def predict(self, X):
    X = np.atleast_2d(X)
    m = np.empty((X.shape[0], 1))
    s = np.empty((X.shape[0], 1))
    for k, row in enumerate(X):
        preds = np.array([tree.predict(row)[0] for tree in self.model.estimators_])
        m[k, 0] = preds.mean()
        s[k, 0] = preds.std()
    return m, s
'''),(M+'rfmodel.py','def:RFModel.updateModel','''
def updateModel(self, X_all, Y_all, X_new, Y_new):
    if self.model is None:
        self._create_model(X_all, Y_all)
        return
    self.X, self.Y = X_all, Y_all
    self.model.fit(X_all, Y_all.flatten())
''')]),
 dict(id='m7',edits=[(M+'warpedgpmodel.py','def:WarpedGPModel.predict','''
def predict(self, X):
    X = X[None,:] if X.ndim == 1 else X
    mean, variance = self.model.predict(X)
    return mean, np.sqrt(np.maximum(variance, 1e-10))
'''),(M+'input_warped_gpmodel.py','def:InputWarpedGPModel.__init__','''
def __init__(self, space, warping_function=None, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs',
                 max_iters=1000, optimize_restarts=5, verbose=False, ARD=False):
    self.space = space
    flags = []
    for var in space.space:
        flags += [var.type in ('continuous', 'discrete')] * var.dimensionality
    self.warping_indices = [i for i, flag in enumerate(flags) if flag]
    self.warping_function = warping_function
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.optimize_restarts = optimize_restarts
    self.max_iters = max_iters
    self.verbose = verbose
    self.ARD = ARD
    self.model = None
''')]),
 dict(id='d1',edits=[(E+'grid_design.py','def:multigrid','''
def multigrid(bounds, points_count):
    axes = [np.linspace(low, high, points_count) for low, high in bounds]
    if len(axes) == 1:
        return axes[0].reshape(points_count, 1)
    return np.vstack([g.flatten(order='F') for g in np.meshgrid(*axes)]).T
'''),(E+'grid_design.py','def:iroot','''
def iroot(k, n):
    root, previous = n, n + 1
    while root < previous:
        previous = root
        root = ((k - 1) * previous + n // previous ** (k - 1)) // k
    return previous
'''),(E+'grid_design.py','def:GridDesign._adjust_init_points_count','''
def _adjust_init_points_count(self, init_points_count):
    print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
    n = len(self.space.get_continuous_dims())
    if n > 0:
        self.data_per_dimension = iroot(n, init_points_count)
        init_points_count = self.data_per_dimension**n
    return init_points_count
''')]),
 dict(id='d2',edits=[(E+'latin_design.py','def:LatinDesign.get_samples','''
def get_samples(self, init_points_count, criterion='center'):
    samples = np.empty((init_points_count, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if not self.space.has_continuous():
        return samples
    from pyDOE import lhs
    bounds = np.asarray(self.space.get_continuous_bounds())
    low, high = bounds[:, 0], bounds[:, 1]
    unit = lhs(bounds.shape[0], init_points_count, criterion=criterion)
    samples[:, self.space.get_continuous_dims()] = low + unit * (high - low)
    return samples
''')]),
 dict(id='d3',edits=[(E+'random_design.py','def:RandomDesign.get_samples_with_constraints','''
def get_samples_with_constraints(self, init_points_count):
    accepted = np.empty((0, self.space.dimensionality))
    while len(accepted) < init_points_count:
        candidates = self.get_samples_without_constraints(init_points_count)
        feasible = self.space.indicator_constraints(candidates).flatten() == 1
        if feasible.any():
            accepted = np.vstack((accepted, candidates[feasible]))
    return accepted[:init_points_count]
'''),(E+'random_design.py','def:samples_multidimensional_uniform','''
def samples_multidimensional_uniform(bounds, points_count):
    samples = np.zeros((points_count, len(bounds)))
    for k, (low, high) in enumerate(bounds):
        samples[:, k] = np.random.uniform(low=low, high=high, size=points_count)
    return samples
''')]),
 dict(id='d4',edits=[(E+'random_design.py','def:RandomDesign.fill_noncontinous_variables','''
def fill_noncontinous_variables(self, samples):
    n = samples.shape[0]
    column = 0
    for variable in self.space.space_expanded:
        width = 1
        if isinstance(variable, (DiscreteVariable, CategoricalVariable)):
            samples[:, column] = np.random.choice(variable.domain, n)
        elif isinstance(variable, BanditVariable):
            width = variable.domain.shape[1]
            rows = np.random.randint(variable.domain.shape[0], size=n)
            samples[:, column:column + width] = variable.domain[rows, :]
        column += width
''')]),
 dict(id='d5',edits=[(E+'sobol_design.py','def:SobolDesign.get_samples','''
def get_samples(self, init_points_count):
    samples = np.empty((init_points_count, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        from sobol_seq import i4_sobol_generate
        bounds = self.space.get_continuous_bounds()
        low = np.asarray(bounds)[:,0]
        high = np.asarray(bounds)[:,1]
        unit = i4_sobol_generate(len(bounds), init_points_count)
        samples[:, self.space.get_continuous_dims()] = unit * (high - low) + low
    return samples
''')]),
 dict(id='u1',edits=[(U+'duplicate_manager.py','def:DuplicateManager.__init__','''
def __init__(self, space, zipped_X, pending_zipped_X=None, ignored_zipped_X=None):
    self.space = space
    self.unique_points = set()
    for points in (zipped_X, pending_zipped_X, ignored_zipped_X):
        if points is not None:
            for x in points:
                self.unique_points.add(self._key(x))

@staticmethod
def _key(x):
    return tuple(x.flatten())
'''),(U+'duplicate_manager.py','def:DuplicateManager.is_zipped_x_duplicate','''
def is_zipped_x_duplicate(self, zipped_x):
    return self._key(zipped_x) in self.unique_points
'''),(U+'duplicate_manager.py','def:DuplicateManager.is_unzipped_x_duplicate','''
def is_unzipped_x_duplicate(self, unzipped_x):
    zipped = self.space.zip_inputs(np.atleast_2d(unzipped_x))
    return self.is_zipped_x_duplicate(zipped)
'''),(U+'duplicate_manager.py','def:DuplicateManager.add_unzipped_x','''
def add_unzipped_x(self, unzipped_x):
    self.unique_points.add(self._key(self.space.zip_inputs(np.atleast_2d(unzipped_x))))
''')]),
 dict(id='u2',edits=[(U+'arguments_manager.py','def:ArgumentsManager.evaluator_creator','''
def evaluator_creator(self, evaluator_type, acquisition, batch_size, model_type, model, space, acquisition_optimizer):
    if batch_size == 1 or evaluator_type == 'sequential':
        return Sequential(acquisition)
    if batch_size > 1 and evaluator_type in ('random', None):
        return RandomBatch(acquisition, batch_size)
    if batch_size > 1 and evaluator_type == 'thompson_sampling':
        return ThompsonBatch(acquisition, batch_size)
    if evaluator_type != 'local_penalization':
        raise InvalidConfigError('Invalid evaluator selected: {}'.format(evaluator_type))
    if model_type not in ('GP', 'sparseGP', 'GP_MCMC', 'warpedGP'):
        raise InvalidConfigError('local_penalization evaluator can only be used with GP models')
    if isinstance(acquisition, AcquisitionLP):
        penalized = acquisition
    else:
        transformation = self.kwargs.get('acquisition_transformation', 'none')
        penalized = AcquisitionLP(model, space, acquisition_optimizer, acquisition, transformation)
    return LocalPenalization(penalized, batch_size)
''')]),
 dict(id='u3',edits=[(U+'arguments_manager.py','def:ArgumentsManager.acquisition_creator','''
def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
    jitter = self.kwargs.get('acquisition_jitter', 0.01)
    weight = self.kwargs.get('acquisition_weight', 2)
    improvement = {None: AcquisitionEI, 'EI': AcquisitionEI, 'EI_MCMC': AcquisitionEI_MCMC, 'MPI': AcquisitionMPI, 'MPI_MCMC': AcquisitionMPI_MCMC}
    bounds = {'LCB': AcquisitionLCB, 'LCB_MCMC': AcquisitionLCB_MCMC}
    if acquisition_type in improvement:
        return improvement[acquisition_type](model, space, acquisition_optimizer, cost_withGradients, jitter)
    if acquisition_type in bounds:
        return bounds[acquisition_type](model, space, acquisition_optimizer, None, weight)
    raise Exception('Invalid acquisition selected.')
''')]),
 dict(id='u4',edits=[(U+'arguments_manager.py','def:ArgumentsManager.model_creator','''
def model_creator(self, model_type, exact_feval, space):
    option = self.kwargs.get
    kernel = option('kernel')
    ARD = option('ARD', False)
    verbose = option('verbosity_model', False)
    noise_var = option('noise_var')
    if model_type in ('GP', 'sparseGP'):
        return GPModel(kernel, noise_var, exact_feval, option('model_optimizer_type', 'lbfgs'), option('max_iters', 1000),
                       option('optimize_restarts', 5), model_type == 'sparseGP', option('num_inducing', 10), verbose, ARD)
    if model_type == 'GP_MCMC':
        return GPModel_MCMC(kernel, noise_var, exact_feval, n_samples=option('n_samples', 10), n_burnin=option('n_burnin', 100),
                            subsample_interval=option('subsample_interval', 10), step_size=option('step_size', 1e-1),
                            leapfrog_steps=option('leapfrog_steps', 20), verbose=verbose)
    if model_type == 'RF':
        return RFModel(verbose=verbose)
    if model_type == 'warpedGP':
        return WarpedGPModel()
    if model_type in ('input_warped_GP', 'InputWarpedGP'):
        if option('input_warping_function_type', 'kumar_warping') != 'kumar_warping':
            print("Only support kumar_warping for input!")
        return InputWarpedGPModel(space, None, kernel, noise_var, exact_feval, option('model_optimizer_type', 'lbfgs'),
                                  option('max_iters', 1000), option('optimize_restarts', 5), verbose, ARD)
    raise InvalidConfigError('Invalid model selected: {}'.format(model_type))
''')]),
 dict(id='u5',edits=[(U+'mcmc_sampler.py','def:AffineInvariantEnsembleSampler.get_samples','''
def get_samples(self, n_samples, log_p_function, burn_in_steps=50):
    sampler = emcee.EnsembleSampler(n_samples, self.space.input_dim(), log_p_function)
    restarts = initial_design('random', self.space, n_samples)
    seed = np.random.randint(2**31 - 1)
    sampler.random_state = np.random.RandomState(seed).get_state()
    result = sampler.run_mcmc(restarts, burn_in_steps)
    samples, log_p = result[0], result[1]
    if samples.ndim == 1:
        samples = samples.reshape(-1, 1)
    return samples, log_p.reshape(-1, 1)
'''),(U+'io.py','def:gen_datestr','''
def gen_datestr():
    from datetime import datetime
    now = datetime.now()
    day = '.'.join(str(v) for v in (now.year, now.month, now.day))
    clock = '.'.join(str(v) for v in (now.hour, now.minute, now.second))
    return day + '_' + clock
''')]),
 dict(id='t1',edits=[(T+'cost.py','def:CostModel.update_cost_model','''
def update_cost_model(self, x, cost_x):
    if self.cost_type != 'evaluation_time':
        return
    X_all = x
    costs_all = np.log(np.asarray(cost_x).reshape(-1, 1))
    if self.num_updates > 0:
        gp = self.cost_model.model
        X_all = np.vstack((gp.X, X_all))
        costs_all = np.vstack((gp.Y, costs_all))
    self.cost_model.updateModel(X_all, costs_all, None, None)
    self.num_updates += 1
'''),(T+'cost.py','def:CostModel._cost_gp_withGradients','''
def _cost_gp_withGradients(self, x):
    if self.num_updates > 0:
        m, _, dmdx, _ = self.cost_model.predict_withGradients(x)
        cost = np.exp(m)
        return cost, cost * dmdx
    return constant_cost_withGradients(np.atleast_2d(x))
'''),(T+'cost.py','def:constant_cost_withGradients','''
def constant_cost_withGradients(x):
    return np.ones((x.shape[0], 1)), np.zeros(x.shape)
''')]),
 dict(id='t2',edits=[(T+'cost.py','def:CostModel.__init__','''
def __init__(self, cost_withGradients):
    super(CostModel, self).__init__()
    if cost_withGradients is None:
        self.cost_type, self.cost_withGradients = 'Constant cost', constant_cost_withGradients
    elif cost_withGradients == 'evaluation_time':
        self.cost_type = 'evaluation_time'
        self.num_updates = 0
        self.cost_model = GPModel()
        self.cost_withGradients = self._cost_gp_withGradients
    else:
        self.cost_type, self.cost_withGradients = 'User defined cost', cost_withGradients
''')]),
 dict(id='t3',edits=[(T+'objective.py','def:SingleObjective._eval_func','''
def _eval_func(self, x):
    values = np.empty((0, 1))
    durations = []
    for row in x:
        start = time.time()
        value = self.func(np.atleast_2d(row))
        values = np.vstack([values, value])
        durations.append(time.time() - start)
    return values, durations
'''),(T+'objective.py','def:SingleObjective.evaluate','''
def evaluate(self, x):
    if self.n_procs == 1:
        return self._eval_func(x)
    try:
        return self._syncronous_batch_evaluation(x)
    except:
        if not hasattr(self, 'parallel_error'):
            print('Error in parallel computation. Fall back to single process!')
            self.parallel_error = True
        return self._eval_func(x)
''')]),
 dict(id='t4',edits=[(T+'objective.py','def:SingleObjective._syncronous_batch_evaluation','''
def _syncronous_batch_evaluation(self,x):
    workers = [self._start_worker(x[i::self.n_procs]) for i in range(self.n_procs)]
    f_evals = np.zeros((x.shape[0],1))
    try:
        for i in range(self.n_procs):
            f_evals[i::self.n_procs] = workers[i][0].recv()[0]
    finally:
        for p, _ in workers:
            p.close()
        for _, proc in workers:
            proc.join()
    return f_evals, np.ones((x.shape[0],1))

def _start_worker(self, chunk):
    from multiprocessing import Process, Pipe
    parent, child = Pipe()
    proc = Process(target=spawn(self._eval_func), args=(child, chunk))
    proc.start()
    child.close()
    return parent, proc
''')]),
 dict(id='o1',edits=[(O+'acquisition_optimizer.py','def:AcquisitionOptimizer.__init__','''
def __init__(self, space, optimizer='lbfgs', **kwargs):
    self.space = space
    self.optimizer_name = optimizer
    self.kwargs = kwargs
    self.type_anchor_points_logic = kwargs.get('type_anchor_points_logic', max_objective_anchor_points_logic)
    if 'model' in kwargs:
        self.model = kwargs['model']
    self.context_manager = ContextManager(space)
'''),(O+'acquisition_optimizer.py','def:AcquisitionOptimizer.optimize','''
def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
    self.f, self.df, self.f_df = f, df, f_df
    context = self.context_manager
    self.optimizer = choose_optimizer(self.optimizer_name, context.noncontext_bounds)
    anchors = self._generator(f).get(duplicate_manager=duplicate_manager, context_manager=context)
    best = None
    for anchor in anchors:
        candidate = apply_optimizer(self.optimizer, anchor, f=f, df=None, f_df=f_df, duplicate_manager=duplicate_manager, context_manager=context, space=self.space)
        if best is None or candidate[1] < best[1]:
            best = candidate
    return best

def _generator(self, f):
    logic = self.type_anchor_points_logic
    if logic == max_objective_anchor_points_logic:
        return ObjectiveAnchorPointsGenerator(self.space, random_design_type, f)
    if logic == thompson_sampling_anchor_points_logic:
        return ThompsonSamplingAnchorPointsGenerator(self.space, sobol_design_type, self.model)
    raise InvalidConfigError('Unknown anchor points logic: {}'.format(logic))
''')]),
 dict(id='o2',edits=[(O+'acquisition_optimizer.py','def:ContextManager.__init__','''
def __init__(self, space, context=None):
    self.space = space
    self.all_index = list(range(space.model_dimensionality))
    self.all_index_obj = list(range(len(space.config_space_expanded)))
    self.context_index, self.context_index_obj, self.context_value = [], [], []
    for name, value in (context or {}).items():
        variable = space.find_variable(name)
        self.context_index.extend(variable.index_in_model)
        self.context_index_obj.extend(variable.index_in_objective)
        self.context_value.extend(variable.objective_to_model(value))
    bounds = space.get_bounds()
    self.noncontext_index = [i for i in self.all_index if i not in self.context_index]
    self.noncontext_bounds = [bounds[i] for i in self.noncontext_index]
    self.nocontext_index_obj = [i for i in self.all_index_obj if i not in self.context_index_obj]
'''),(O+'acquisition_optimizer.py','def:ContextManager._expand_vector','''
def _expand_vector(self,x):
    x = np.atleast_2d(x)
    free = np.array(self.noncontext_index).astype(int)
    fixed = np.array(self.context_index).astype(int)
    full = np.zeros((x.shape[0], self.space.model_dimensionality))
    full[:, fixed] = self.context_value
    full[:, free] = x
    return full
''')]),
 dict(id='o3',edits=[(O+'anchor_points_generator.py','def:AnchorPointsGenerator.get','''
def get(self, num_anchor=5, duplicate_manager=None, unique=False, context_manager=None):
    space, add_context = self._free_space(context_manager)
    X = initial_design(self.design_type, space, self.num_samples)
    if unique:
        X = np.vstack(sorted({tuple(x) for x in X}))
    X = add_context(space.unzip_inputs(X))
    X = self._drop_infeasible(X, space)
    if duplicate_manager:
        keep = [index for index, x in enumerate(X) if not duplicate_manager.is_unzipped_x_duplicate(x)]
    else:
        keep = list(range(X.shape[0]))
    if len(keep) == 0:
        raise FullyExploredOptimizationDomainError("No anchor points could be generated ({} used samples, {} requested anchor points).".format(self.num_samples,num_anchor))
    if len(keep) < num_anchor:
        logger.warning("Expecting {} anchor points, only {} available.".format(num_anchor, len(keep)))
    X = X[keep, :]
    scores = self.get_anchor_point_scores(X)
    order = np.argsort(scores)
    return X[order[:num_anchor], :]

def _free_space(self, context_manager):
    if not context_manager:
        return self.space, lambda x: x
    if self.space._has_bandit():
        return self.space, lambda x: context_manager._expand_vector(x[:, context_manager.noncontext_index])
    descriptors = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
    constraints = context_manager.space.constraints
    if context_manager.context_index:
        constraints = None
    return Design_space(descriptors, constraints), context_manager._expand_vector

def _drop_infeasible(self, X, space):
    if not self.space.has_constraints() or space.has_constraints():
        return X
    feasible = self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1
    return X[feasible, :] if feasible.any() else X
''')]),
 dict(id='o4',edits=[(O+'anchor_points_generator.py','def:ThompsonSamplingAnchorPointsGenerator.get_anchor_point_scores','''
def get_anchor_point_scores(self, X):
    means, stds = self.model.predict(X)
    scores = []
    for mean, std in zip(means, stds):
        scores.append(np.random.normal(mean, std))
    return np.array(scores).flatten()
''')]),
 dict(id='o5',edits=[(O+'optimizer.py','def:apply_optimizer','''
def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager=None, context_manager=None, space=None):
    x0 = np.atleast_2d(x0)
    def is_duplicate(x):
        return bool(duplicate_manager) and duplicate_manager.is_unzipped_x_duplicate(x)
    problem = OptimizationWithContext(x0=x0, f=f, df=df, f_df=f_df, context_manager=context_manager)
    if is_duplicate(x0):
        raise ValueError("The starting point of the optimizer cannot be a duplicate.")
    x, _ = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)
    if context_manager:
        x = context_manager._expand_vector(x)
    x = space.round_optimum(x)
    if is_duplicate(x):
        return x0, np.atleast_2d(f(x0))
    return x, f(x)
''')]),
 dict(id='o6',edits=[(O+'optimizer.py','def:OptimizationWithContext.__init__','''
def __init__(self, x0, f, df=None, f_df=None, context_manager=None):
    self.x0 = np.atleast_2d(x0)
    self.f, self.df, self.f_df = f, df, f_df
    self.context_manager = context_manager
    if context_manager:
        self.x0_nocontext = self.x0[:, context_manager.noncontext_index]
        self.f_nocontext = self.f_nc
        has_gradient = f_df is not None
        self.df_nocontext = self.df_nc if has_gradient else None
        self.f_df_nocontext = self.f_df_nc if has_gradient else None
    else:
        self.x0_nocontext = x0
        self.f_nocontext, self.df_nocontext, self.f_df_nocontext = f, df, f_df
'''),(O+'optimizer.py','def:OptimizationWithContext.f_nc','''
def f_nc(self, x):
    values = self.f(self._full(x))
    return values[0] if np.atleast_2d(x).shape[0] == 1 else values

def _full(self, x):
    return self.context_manager._expand_vector(np.atleast_2d(x))
'''),(O+'optimizer.py','def:OptimizationWithContext.df_nc','''
def df_nc(self, x):
    return self.f_df_nc(x)[1]
'''),(O+'optimizer.py','def:OptimizationWithContext.f_df_nc','''
def f_df_nc(self, x):
    value, gradient = self.f_df(self._full(x))
    return value, gradient[:, np.array(self.context_manager.noncontext_index)]
''')]),
 dict(id='o7',edits=[(O+'optimizer.py','def:OptLbfgs.optimize','''
def optimize(self, x0, f=None, df=None, f_df=None):
    import scipy.optimize
    if f_df is not None:
        gradient = lambda x: f_df(x)[1][0]
    elif df is not None:
        gradient = lambda x: df(x)[0]
    else:
        gradient = None
    if gradient is None:
        res = scipy.optimize.fmin_l_bfgs_b(f, x0=x0, bounds=self.bounds, approx_grad=True, maxiter=self.maxiter)
    else:
        res = scipy.optimize.fmin_l_bfgs_b(lambda x: (f(x), gradient(x)), x0=x0, bounds=self.bounds, maxiter=self.maxiter)
    moved = 'ABNORMAL' not in str(res[2]['task'])
    if moved:
        return np.atleast_2d(res[0]), np.atleast_2d(res[1])
    return np.atleast_2d(x0), np.atleast_2d(f(x0))
'''),(O+'optimizer.py','def:choose_optimizer','''
def choose_optimizer(optimizer_name, bounds):
    kinds = {'lbfgs': OptLbfgs, 'DIRECT': OptDirect, 'CMA': OptCma}
    if optimizer_name not in kinds:
        raise InvalidVariableNameError('Invalid optimizer selected.')
    return kinds[optimizer_name](bounds)
'''),(O+'optimizer.py','def:OptCma.optimize','''
def optimize(self, x0, f=None, df=None, f_df=None):
    if len(self.bounds) == 1:
        raise IndexError("CMA does not work in problems of dimension 1.")
    try:
        import cma
    except ImportError:
        print("Cannot find cma library, please install it to use this option.")
        raise
    limits = np.asarray(self.bounds)
    options = {"bounds": [limits[:,0], limits[:,1]], "verbose": -1, "seed": np.nan}
    best = cma.fmin(lambda x: f(np.array([x])), x0, 0.6, options=options)[0]
    best = np.atleast_2d(best)
    return best, f(best)
''')]),
 dict(id='k1',edits=[(ME,'def:BayesianOptimization._init_design_chooser','''
def _init_design_chooser(self):
    if self.f is None and (self.X is None or self.Y is None):
        raise InvalidConfigError("Initial data for both X and Y is required when objective function is not provided")
    if self.X is not None and self.Y is not None:
        return
    if self.X is None:
        self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
    self.Y, cost_values = self.objective.evaluate(self.X)
    self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
'''),(ME,'def:BayesianOptimization._sign','''
def _sign(self, f):
    if not self.maximize:
        return f
    return lambda x: -f(x)
''')]),
 dict(id='k2',edits=[(ME,'''        if 'model' in self.kwargs:
            if isinstance(kwargs['model'], GPyOpt.models.base.BOModel):
                self.model = kwargs['model']
                self.model_type = 'User defined model used.'
                print('Using a model defined by the used.')
            else:
                self.model = self._model_chooser()
        else:
            self.model = self._model_chooser()
''','''        user_model = self.kwargs.get('model')
        if isinstance(user_model, GPyOpt.models.base.BOModel):
            self.model = user_model
            self.model_type = 'User defined model used.'
            print('Using a model defined by the used.')
        else:
            self.model = self._model_chooser()
'''),(ME,'''        if 'objective_name' in kwargs:
            self.objective_name = kwargs['objective_name']
        else:
            self.objective_name = 'no_name'
''','''        self.objective_name = kwargs.get('objective_name', 'no_name')
'''),(ME,'''        if f is not None:
            self.f = self._sign(f)
            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)
        else:
            self.f = None
            self.objective = None
''','''        self.f, self.objective = None, None
        if f is not None:
            self.f = self._sign(f)
            self.objective = SingleObjective(self.f, num_cores=num_cores, objective_name=self.objective_name)
'''),(ME,'''        kwargs.update({ 'model' : self.model })
''','''        kwargs['model'] = self.model
''')]),
 dict(id='i1',edits=[(I+'config_parser.py','def:update_config','''
def update_config(config_new, config_default):
    nested = any(isinstance(value, dict) for value in config_new.values())
    if not nested:
        config_default.update(config_new)
        return config_default
    for key, value in config_new.items():
        if key in config_default and isinstance(value, dict):
            update_config(value, config_default[key])
        else:
            config_default[key] = value
    return config_default
'''),(I+'config_parser.py','def:parser','''
def parser(input_file_path='config.json'):
    try:
        with open(input_file_path, 'r') as config_file:
            config_new = json.load(config_file)
    except:
        raise Exception('Config file "'+input_file_path+'" not loaded properly. Please check it an try again.')
    import copy
    return update_config(config_new, copy.deepcopy(default_config))
''')]),
 dict(id='i2',edits=[(I+'driver.py','def:BODriver._get_model','''
def _get_model(self):
    from ..models import select_model
    options = dict(self.config['model'])
    kind = options.pop('type')
    return select_model(kind).fromConfig(options)
'''),(I+'driver.py','def:BODriver._get_acquisition','''
def _get_acquisition(self, model, space):
    from ..optimization import AcquisitionOptimizer
    from ..acquisitions import select_acquisition
    settings = self.config['acquisition']
    options = {k: v for k, v in settings['optimizer'].items() if k != 'name'}
    acquisition_optimizer = AcquisitionOptimizer(space, settings['optimizer']['name'], **options)
    return select_acquisition(settings['type']).fromConfig(model, space, acquisition_optimizer, None, settings)
'''),(I+'driver.py','def:BODriver._get_acq_evaluator','''
def _get_acq_evaluator(self, acq):
    from ..core.evaluators import select_evaluator
    settings = dict(self.config['acquisition']['evaluator'])
    evaluator = select_evaluator(settings.pop('type'))
    return evaluator(acq, **settings)
''')]),
 dict(id='i3',edits=[(I+'driver.py','def:BODriver._check_stop','''
def _check_stop(self, iters, elapsed_time, converged):
    resources = self.config['resources']
    max_iters, max_minutes = resources['maximum-iterations'], resources['max-run-time']
    if converged == 0:
        return True
    if max_iters != 'NA' and iters >= max_iters:
        return True
    return max_minutes != 'NA' and elapsed_time/60. >= max_minutes
'''),(I+'driver.py','def:BODriver.run','''
def run(self):
    from ..experiment_design import initial_design
    from ..methods import ModularBayesianOptimization
    space = self._get_space()
    objective = self._get_obj(space)
    model = self._get_model()
    acquisition = self._get_acquisition(model, space)
    evaluator = self._get_acq_evaluator(acquisition)
    start = self.config['initialization']
    X_init = initial_design(start['type'], space, start['num-eval'])
    bo = ModularBayesianOptimization(model, space, objective, acquisition, evaluator, X_init)
    bo.run_optimization(verbosity=True, **self._limits())
    return bo

def _limits(self):
    resources = self.config['resources']
    max_iter = resources['maximum-iterations']
    if max_iter == 'NA':
        max_iter = None
    max_time = resources['max-run-time']
    max_time = np.inf if max_time == 'NA' else 60.*max_time
    return dict(max_iter=max_iter, max_time=max_time, eps=resources['tolerance'])
'''),(I+'driver.py','def:BODriver.__init__','''
def __init__(self, config=None, obj_func=None, outputEng=None):
    if config is None:
        import copy
        from .config_parser import default_config
        config = copy.deepcopy(default_config)
    self.config = config
    self.obj_func = obj_func
    self.outputEng = outputEng
''')]),
 dict(id='i4',edits=[(I+'output.py','def:Logger.save_data','''
def save_data(self, iters, times, offsets, X, Y, bo):
    if self.fileout is None:
        return
    points, values = np.vstack(X), np.vstack(Y)
    if self.write_headline:
        self._write_row(['iteration', 'time(sec)', 'objective'] + ['input[%d]' % (i+1) for i in range(points.shape[1])])
        self.write_headline = False
    best = np.argmin(values)
    self._write_row([str(iters[-1]), str(times[-1]), str(float(values[best]))] + [str(v) for v in points[best]])

def _write_row(self, items):
    self.fileout.write(','.join(items) + '\\n')
'''),(I+'output.py','def:OutputEng.append_iter','''
def append_iter(self, iters, elapsed_time, X, Y, bo, final=False):
    self.iters.append(iters)
    self.times.append(elapsed_time)
    self.Xs.append(X)
    self.Ys.append(Y)
    self.offsets.append(X.shape[0])
    for i, saver in enumerate(self.data_savers):
        if final and self.clock[i] == -1:
            self.clock[i] = 0
        elif not final and self.clock[i] > 0:
            self.clock[i] -= 1
        if self.clock[i] == 0:
            saver.save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
            self.clock[i] = saver.interval
''')]),
 dict(id='i5',edits=[(I+'func_loader.py','def:load_objective','''
def load_objective(config):
    assert 'prjpath' in config
    assert 'main-file' in config, "The problem file ('main-file') is missing!"
    folder, main_file = config['prjpath'], config['main-file']
    os.chdir(folder)
    if config['language'].lower() != 'python':
        raise ValueError('Unsupported language: ' + config['language'])
    assert main_file.endswith('.py'), 'The python problem file has to end with .py!'
    from importlib.util import spec_from_file_location, module_from_spec
    name = main_file[:-len('.py')]
    spec = spec_from_file_location(name, os.path.join(folder, main_file))
    module = module_from_spec(spec)
    spec.loader.exec_module(module)
    return getattr(module, name)
''')]),
 dict(id='v1',edits=[(BO,'def:BO.save_evaluations','''
def save_evaluations(self, evaluations_file = None):
    self._write_csv(evaluations_file, [self._header()] + self._rows())

def _header(self):
    return ['Iteration', 'Y'] + ['var_%d' % (k + 1) for k in range(self.X.shape[1])]

def _rows(self):
    n = self.Y.shape[0]
    return np.hstack((np.arange(1, n + 1)[:, None], self.Y, self.X)).tolist()
'''),(BO,'def:BO.save_models','''
def save_models(self, models_file):
    parameters = self.model_parameters_iterations
    if parameters is None:
        raise ValueError("No iterations have been carried out yet and hence no iterations of the BO can be saved")
    numbers = np.arange(1, parameters.shape[0] + 1)[:, None]
    header = ['Iteration'] + self.model.get_model_parameters_names()
    self._write_csv(models_file, [header] + np.hstack((numbers, parameters)).tolist())
'''),(BO,'def:BO._write_csv','''
def _write_csv(self, filename, data):
    with open(filename, 'w') as csv_file:
        writer = csv.writer(csv_file, delimiter='\\t')
        for row in data:
            writer.writerow(row)
''')]),
]
