"""Behaviour-preserving refactorings, sixth round: functions the earlier rounds left alone."""
A = 'GPyOpt/acquisitions/'
M = 'GPyOpt/models/'
X = 'GPyOpt/objective_examples/'
U = 'GPyOpt/util/'
D = 'GPyOpt/experiment_design/'
T = 'GPyOpt/core/task/'
TRIALS = [
 dict(id='o1', edits=[(X + 'experiments2d.py', 'def:rosenbrock.f', '''
    def f(self,X):
        X = reshape(X, self.input_dim)
        if X.shape[1] != self.input_dim:
            return 'Wrong input dimension'
        x1, x2 = X[:, :1], X[:, 1:]
        value = (1 - x1)**2 + 100*(x1*x1 - x2)**2
        if self.sd == 0:
            return value
        return value + np.random.normal(0, self.sd, X.shape[0]).reshape(-1, 1)
''')]),
 dict(id='o2', edits=[(X + 'experimentsNd.py', 'def:gSobol.f', '''
    def f(self,X):
        X = reshape(X,self.input_dim)
        n = X.shape[0]
        a = np.asarray(self.a)
        factors = (np.abs(4*X - 2) + a)/(1 + a)
        fval = np.prod(factors, axis=1).reshape(n, 1)
        noise = np.zeros((n, 1)) if self.sd == 0 else np.random.normal(0, self.sd, n)[:, None]
        return fval + noise
''')]),
 dict(id='o3', edits=[(U + 'general.py', 'def:values_to_array', '''
def values_to_array(input_values):
    if type(input_values) is tuple:
        return np.array(input_values)[:, None]
    return np.atleast_2d(input_values)
''')], note='type(np.int64) is always true'),
 dict(id='o4', edits=[(U + 'general.py', 'def:merge_values', '''
def merge_values(values1,values2):
    first, second = values_to_array(values1), values_to_array(values2)
    if not first.size:
        return second
    if not second.size:
        return first
    return np.atleast_2d([np.hstack((a, b)) for a in first for b in second])
''')]),
 dict(id='o5', edits=[(U + 'general.py', 'def:spawn', '''
def spawn(f):
    def fun(pipe,x):
        result = f(x)
        pipe.send(result)
        pipe.close()
    return fun
'''), (U + 'general.py', 'def:reshape', '''
def reshape(x,input_dim):
    x = np.array(x)
    return x.reshape((1, input_dim)) if x.size == input_dim else x
''')]),
 dict(id='o6', edits=[(U + 'general.py', 'def:get_moments', '''
def get_moments(model,x):
    x = reshape(x, model.X.shape[1])
    m, v = model.predict(x)
    return (m, np.sqrt(np.clip(v, 0, np.inf)), min(model.predict(model.X)[0]))
''')]),
 dict(id='o7', edits=[(A + 'LP.py', 'def:AcquisitionLP.update_batches', '''
    def update_batches(self, X_batch, L, Min):
        if X_batch is not None:
            radius, scale = self._hammer_function_precompute(X_batch, L, Min, self.model)
            self.r_x0, self.s_x0 = radius, scale
        self.X_batch = X_batch
'''), (A + 'LP.py', 'def:AcquisitionLP.acquisition_function_withGradients', '''
    def acquisition_function_withGradients(self, x):
        return self.acquisition_function(x), self.d_acquisition_function(x)
''')]),
 dict(id='o8', edits=[(M + 'gpmodel.py', 'def:GPModel_MCMC.predict', '''
    def predict(self, X):
        X = X[None,:] if X.ndim == 1 else X
        saved = np.array(self.model.param_array)
        moments = []
        for sample in self.hmc_samples:
            self._put(sample)
            mean, variance = self.model.predict(X)
            moments.append((mean, np.sqrt(np.maximum(variance, 1e-10))))
        self.model.param_array[:] = saved
        self.model._trigger_params_changed()
        return [mean for mean, _ in moments], [deviation for _, deviation in moments]

    def _put(self, sample):
        free = self.model._fixes_
        if free is not None:
            self.model[free] = sample
        else:
            self.model[:] = sample
        self.model._trigger_params_changed()
''')]),
 dict(id='o9', edits=[(M + 'gpmodel.py', 'def:GPModel.get_fmin', '''
    def get_fmin(self):
        mean, _ = self.model.predict(self.model.X)
        return np.min(mean)
'''), (M + 'gpmodel.py', 'def:GPModel.predict', '''
    def predict(self, X, with_noise=True):
        mean, variance = self._predict(X, full_cov=False, include_likelihood=with_noise)
        return mean, variance ** 0.5
''')]),
 dict(id='o10', edits=[(A + 'MPI_mcmc.py', 'def:AcquisitionMPI_MCMC._compute_acq', '''
    def _compute_acq(self,x):
        means, stds = self.model.predict(x)
        fmins = self.model.get_fmin()
        probabilities = [get_quantiles(self.jitter, fmin, m, s)[1] for m, s, fmin in zip(means, stds, fmins)]
        return sum(probabilities) / len(means)
'''), (A + 'MPI_mcmc.py', 'def:AcquisitionMPI_MCMC._compute_acq_withGradients', '''
    def _compute_acq_withGradients(self, x):
        means, stds, dmdxs, dsdxs = self.model.predict_withGradients(x)
        count = len(means)
        total, slope = 0., 0.
        for j, fmin in enumerate(self.model.get_fmin()):
            phi, Phi, u = get_quantiles(self.jitter, fmin, means[j], stds[j])
            total = total + Phi
            slope = slope - phi/stds[j]*(dmdxs[j] + u*dsdxs[j])
        return total/count, slope/count
''')], note='as many minima as means'),
 dict(id='o11', edits=[(M + 'rfmodel.py', 'def:RFModel.get_fmin', '''
    def get_fmin(self):
        predicted = self.model.predict(self.X)
        return min(predicted)
''')], skip=True),
 dict(id='o12', edits=[(D + 'random_design.py', 'def:RandomDesign.get_samples_without_constraints', '''
    def get_samples_without_constraints(self, init_points_count):
        samples = np.empty((init_points_count, self.space.dimensionality))
        self.fill_noncontinous_variables(samples)
        if not self.space.has_continuous():
            return samples
        columns = self.space.get_continuous_dims()
        box = self.space.get_continuous_bounds()
        samples[:, columns] = samples_multidimensional_uniform(box, init_points_count)
        return samples
'''), (D + 'random_design.py', 'def:RandomDesign.get_samples', '''
    def get_samples(self, init_points_count):
        draw = self.get_samples_with_constraints if self.space.has_constraints() else self.get_samples_without_constraints
        return draw(init_points_count)
''')]),
 dict(id='o13', edits=[('GPyOpt/methods/bayesian_optimization.py', 'def:BayesianOptimization._init_design_chooser', '''
    def _init_design_chooser(self):
        missing = self.X is None, self.Y is None
        if self.f is None and any(missing):
            raise InvalidConfigError("Initial data for both X and Y is required when objective function is not provided")
        if missing[0]:
            self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
        if any(missing):
            self.Y, cost_values = self.objective.evaluate(self.X)
            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
''')]),
 dict(id='o14', edits=[(T + 'variables.py', 'def:DiscreteVariable.get_bounds', '''
    def get_bounds(self):
        lower, upper = min(self.domain), max(self.domain)
        return [(lower, upper)]
'''), (T + 'variables.py', 'def:CategoricalVariable.get_bounds', '''
    def get_bounds(self):
        return [(0, 1)] * len(self.domain)
''')]),
 dict(id='o15', edits=[('GPyOpt/core/evaluators/batch_random.py', 'def:RandomBatch.optimize_anchor_point', '''
    def optimize_anchor_point(self, a, duplicate_manager=None, context_manager = None):
        return self.space.round_optimum(a)
''')], skip=True),
 dict(id='o16', edits=[('GPyOpt/core/evaluators/base.py', 'def:SamplingBasedBatchEvaluator.zip_and_tuple', '''
    def zip_and_tuple(self, x):
        encoded = self.space.zip_inputs(np.atleast_2d(x))
        return tuple(encoded.ravel())
''')]),
 dict(id='o17', edits=[(U + 'general.py', 'def:best_value', '''
def best_value(Y,sign=1):
    pick = np.min if sign == 1 else np.max
    return np.array([pick(Y[:i]) for i in range(1, len(Y) + 1)], dtype=float)
''')], note='non-empty Y'),
 dict(id='o18', edits=[(D + 'grid_design.py', 'def:GridDesign.get_samples', '''
    def get_samples(self, init_points_count):
        count = self._adjust_init_points_count(init_points_count)
        design = np.empty((count, self.space.dimensionality))
        RandomDesign(self.space).fill_noncontinous_variables(design)
        if self.space.has_continuous():
            design[:, self.space.get_continuous_dims()] = multigrid(self.space.get_continuous_bounds(), self.data_per_dimension)
        return design
''')]),
 dict(id='o19', edits=[(U + 'general.py', 'def:evaluate_function', '''
def evaluate_function(f,X):
    values = np.zeros(X.shape)
    times = np.zeros((len(X), 1))
    for i, row in enumerate(X):
        start = time.time()
        values[i] = f(row)
        times[i] = time.time() - start
    return values, times
''')]),
 dict(id='o20', edits=[('GPyOpt/core/task/objective.py', 'def:SingleObjective.__init__', '''
    def __init__(self, func, num_cores = 1, objective_name = 'no_name', batch_type = 'synchronous', space = None):
        self.func, self.space = func, space
        self.objective_name = objective_name
        self.n_procs = num_cores
        self.num_evaluations = 0
''')], skip=True),
]
TRIALS = [t for t in TRIALS if not t.get('skip')]
