# edits that keep the behaviour, fourth round
BO='GPyOpt/core/bo.py'
O='GPyOpt/optimization/'
M='GPyOpt/models/'
A='GPyOpt/acquisitions/'
T='GPyOpt/core/task/'
EV='GPyOpt/core/evaluators/'
X='GPyOpt/experiment_design/'
U='GPyOpt/util/'
ME='GPyOpt/methods/bayesian_optimization.py'
TRIALS=[
 dict(id='m1',edits=[(M+'gpmodel.py','def:GPModel_MCMC.predict','''
    def predict(self, X):
        """
        Predictions
        """
        if X.ndim==1: X = X[None,:]
        moments = [(m, np.sqrt(np.clip(v, 1e-10, np.inf))) for m, v in self._for_each_sample(lambda: self.model.predict(X))]
        means, stds = zip(*moments)
        return list(means), list(stds)

    def _for_each_sample(self, query):
        saved = self.model.param_array.copy()
        results = []
        for s in self.hmc_samples:
            if self.model._fixes_ is None:
                self.model[:] = s
            else:
                self.model[self.model._fixes_] = s
            self.model._trigger_params_changed()
            results.append(query())
        self.model.param_array[:] = saved
        self.model._trigger_params_changed()
        return results
''')]),
 dict(id='m2',edits=[(M+'gpmodel.py','def:GPModel_MCMC.get_fmin','''
    def get_fmin(self):
        """
        Returns the location where the posterior mean is takes its minimal value.
        """
        ps = self.model.param_array.copy()
        fmins = []
        for i in range(len(self.hmc_samples)):
            self._set_sample(i)
            mean, _ = self.model.predict(self.model.X)
            fmins.append(np.min(mean))
        self.model.param_array[:] = ps
        self.model._trigger_params_changed()
        return fmins

    def _set_sample(self, i):
        target = slice(None) if self.model._fixes_ is None else self.model._fixes_
        self.model[target] = self.hmc_samples[i]
        self.model._trigger_params_changed()
''')]),
 dict(id='m3',edits=[(M+'gpmodel.py','def:GPModel.predict_withGradients','''
    def predict_withGradients(self, X):
        """
        Returns the mean, standard deviation, mean gradient and standard deviation gradient at X.
        """
        X = X[None, :] if X.ndim == 1 else X
        mean, variance = self._predict(X, False, True)
        sdev = np.sqrt(variance)
        mean_grad, variance_grad = self.model.predictive_gradients(X)
        return mean, sdev, mean_grad[:, :, 0], 0.5 * variance_grad / sdev
''')]),
 dict(id='m4',edits=[(M+'gpmodel.py','def:GPModel.updateModel','''
    def updateModel(self, X_all, Y_all, X_new, Y_new):
        """
        Updates the model with new observations.
        """
        first_time = self.model is None
        if first_time:
            self._create_model(X_all, Y_all)
        if not first_time:
            self.model.set_XY(X_all, Y_all)
        if self.max_iters <= 0:
            return
        options = {'optimizer': self.optimizer, 'max_iters': self.max_iters}
        if self.optimize_restarts == 1:
            self.model.optimize(messages=False, ipython_notebook=False, **options)
        else:
            self.model.optimize_restarts(num_restarts=self.optimize_restarts, verbose=self.verbose, **options)
''')]),
 dict(id='m5',edits=[(T+'space.py','def:Design_space.get_bounds','''
    def get_bounds(self):
        """
        Extracts the bounds of all the inputs of the domain of the *model*
        """
        return list(itertools.chain.from_iterable(variable.get_bounds() for variable in self.space_expanded))
''')]),
 dict(id='m6',edits=[(T+'space.py','def:Design_space._compute_variables_indices','''
    def _compute_variables_indices(self):
        def widths(variable):
            in_model = variable.dimensionality_in_model
            return (in_model if variable.is_bandit() else 1), in_model

        first_objective = first_model = 0
        for variable in self.space_expanded:
            in_objective, in_model = widths(variable)
            variable.set_index_in_objective([first_objective + j for j in range(in_objective)])
            variable.set_index_in_model([first_model + j for j in range(in_model)])
            first_objective += in_objective
            first_model += in_model
''')]),
 dict(id='m7',edits=[(T+'space.py','def:Design_space.round_optimum','''
    def round_optimum(self, x):
        """
        Rounds some value x to a feasible value in the design space.
        x is expected to be a vector or an array with a single row
        """
        x = np.array(x)
        if x.ndim == 2 and x.shape[0] == 1:
            x = x[0]
        elif x.ndim != 1:
            raise ValueError("Unexpected dimentionality of x. Got {}, expected (1, N) or (N,)".format(x.ndim))

        ends = np.cumsum([v.dimensionality_in_model for v in self.space_expanded])
        parts = []
        for variable, end in zip(self.space_expanded, ends):
            parts.append(np.ravel(variable.round(x[end - variable.dimensionality_in_model:end])))
        return np.atleast_2d(np.concatenate(parts))
''')]),
 dict(id='m8',edits=[(T+'space.py','def:Design_space.zip_inputs','''
    def zip_inputs(self,X):
        if self._has_bandit():
            return np.atleast_2d(X)
        return np.atleast_2d([self.model_to_objective(row[None,:]) for row in X])
''')]),
 dict(id='m9',edits=[(T+'space.py','def:Design_space.model_to_objective','''
    def model_to_objective(self, x_model):
        """ This function serves as interface between model input vectors and objective input vectors """
        x_objective = []
        idx_model = 0
        for variable in self.space_expanded[:self.objective_dimensionality]:
            x_objective.extend(variable.model_to_objective(x_model, idx_model))
            idx_model = idx_model + variable.dimensionality_in_model
        return x_objective
''')]),
 dict(id='m10',edits=[(T+'variables.py','def:DiscreteVariable.round','''
    def round(self, value_array):
        value = value_array[0]
        return [min(self.domain, key=lambda candidate: abs(candidate - value))]
''')]),
 dict(id='m11',edits=[(T+'variables.py','def:ContinuousVariable.round','''
    def round(self, value_array):
        low, high = self.domain[0], self.domain[1]
        value = value_array[0]
        if low <= value <= high:
            return [value]
        return [low if value < low else high]
''')]),
 dict(id='m12',edits=[(T+'variables.py','def:CategoricalVariable.objective_to_model','''
    def objective_to_model(self, x_objective):
        position = int(x_objective)
        return [1 if j == position else 0 for j in range(self.dimensionality_in_model)]
''')],negative=True),
 dict(id='m13',edits=[(T+'objective.py','def:SingleObjective.evaluate','''
    def evaluate(self, x):
        """
        Performs the evaluation of the objective at x.
        """
        if self.n_procs != 1:
            try:
                return self._syncronous_batch_evaluation(x)
            except:
                if not hasattr(self, 'parallel_error'):
                    print('Error in parallel computation. Fall back to single process!')
                    self.parallel_error = True
        return self._eval_func(x)
''')]),
 dict(id='m14',edits=[(T+'objective.py','def:SingleObjective._eval_func','''
    def _eval_func(self, x):
        """
        Performs sequential evaluations of the function at x (single location or batch).
        """
        cost_evals = []
        results = [np.empty(shape=[0, 1])]
        for row in x:
            started = time.time()
            results.append(self.func(np.atleast_2d(row)))
            cost_evals.append(time.time() - started)
        return np.vstack(results), cost_evals
''')]),
 dict(id='m15',edits=[(T+'cost.py','def:CostModel.update_cost_model','''
    def update_cost_model(self, x, cost_x):
        if self.cost_type != 'evaluation_time':
            return
        costs = np.log(np.asarray(cost_x).reshape(-1, 1))
        if self.num_updates > 0:
            known = self.cost_model.model
            x, costs = np.vstack((known.X, x)), np.vstack((known.Y, costs))
        self.num_updates += 1
        self.cost_model.updateModel(x, costs, None, None)
''')],negative=True),
 dict(id='m16',edits=[(O+'anchor_points_generator.py','        anchor_points = X[np.argsort(scores)[:min(len(scores),num_anchor)], :]\n\n        return anchor_points','        order = np.argsort(scores)\n        return X[order[:num_anchor], :]')],note='num_anchor >= 0'),
 dict(id='m17',edits=[(O+'anchor_points_generator.py','        non_duplicate_anchor_point_indexes = [index for index, x in enumerate(X) if not is_duplicate(x)]\n','        non_duplicate_anchor_point_indexes = []\n        for index in range(X.shape[0]):\n            if is_duplicate(X[index]):\n                continue\n            non_duplicate_anchor_point_indexes.append(index)\n')]),
 dict(id='m18',edits=[(O+'optimizer.py','def:apply_optimizer','''
def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager=None, context_manager=None, space=None):
    """
    :param x0: initial point for a local optimizer (x0 can be defined with or without the context included).
    """
    def already_seen(point):
        return bool(duplicate_manager) and duplicate_manager.is_unzipped_x_duplicate(point)

    x0 = np.atleast_2d(x0)
    problem = OptimizationWithContext(x0=x0, f=f, df=df, f_df=f_df, context_manager=context_manager)

    if already_seen(x0):
        raise ValueError("The starting point of the optimizer cannot be a duplicate.")

    optimized_x = optimizer.optimize(problem.x0_nocontext, problem.f_nocontext, problem.df_nocontext, problem.f_df_nocontext)[0]
    if context_manager:
        optimized_x = context_manager._expand_vector(optimized_x)
    candidate = space.round_optimum(optimized_x)
    if already_seen(candidate):
        return x0, np.atleast_2d(f(x0))
    return candidate, f(candidate)
''')]),
 dict(id='m19',edits=[(O+'optimizer.py','def:OptLbfgs.optimize','''
    def optimize(self, x0, f=None, df=None, f_df=None):
        import scipy.optimize
        options = dict(x0=x0, bounds=self.bounds, maxiter=self.maxiter)
        if f_df is None and df is None:
            res = scipy.optimize.fmin_l_bfgs_b(f, approx_grad=True, **options)
        else:
            gradient = (lambda x: f_df(x)[1][0]) if f_df is not None else (lambda x: df(x)[0])
            res = scipy.optimize.fmin_l_bfgs_b(lambda x: (f(x), gradient(x)), **options)

        if 'ABNORMAL' in str(res[2]['task']):
            return np.atleast_2d(x0), np.atleast_2d(f(x0))
        return np.atleast_2d(res[0]), np.atleast_2d(res[1])
''')]),
 dict(id='m20',edits=[(O+'acquisition_optimizer.py','        if self.type_anchor_points_logic == max_objective_anchor_points_logic:\n            anchor_points_generator = ObjectiveAnchorPointsGenerator(self.space, random_design_type, f)\n        elif self.type_anchor_points_logic == thompson_sampling_anchor_points_logic:\n            anchor_points_generator = ThompsonSamplingAnchorPointsGenerator(self.space, sobol_design_type, self.model)\n        else:\n            raise InvalidConfigError(\'Unknown anchor points logic: {}\'.format(self.type_anchor_points_logic))\n','        anchor_points_generator = self._generator(f)\n'),
    (O+'acquisition_optimizer.py','class ContextManager(object)','''def _unused_marker():
    return None


class ContextManager(object)'''),
    (O+'acquisition_optimizer.py','    def optimize(self, f=None,','''    def _generator(self, f):
        logic = self.type_anchor_points_logic
        if logic == thompson_sampling_anchor_points_logic:
            return ThompsonSamplingAnchorPointsGenerator(self.space, sobol_design_type, self.model)
        if logic != max_objective_anchor_points_logic:
            raise InvalidConfigError('Unknown anchor points logic: {}'.format(logic))
        return ObjectiveAnchorPointsGenerator(self.space, random_design_type, f)

    def optimize(self, f=None,''')]),
 dict(id='m21',edits=[(O+'acquisition_optimizer.py','def:ContextManager._expand_vector','''
    def _expand_vector(self,x):
        x = np.atleast_2d(x)
        full = np.zeros((len(x), self.space.model_dimensionality))
        for columns, values in ((self.noncontext_index, x), (self.context_index, self.context_value)):
            full[:, np.asarray(columns, dtype=int)] = values
        return full
''')]),
 dict(id='m22',edits=[(EV+'base.py','def:SamplingBasedBatchEvaluator.compute_batch','''
    def compute_batch(self, duplicate_manager=None, context_manager=None):
        self.context_manager = context_manager
        if not duplicate_manager:
            return self.compute_batch_without_duplicate_logic(context_manager=context_manager)

        batch, seen = [], set(duplicate_manager.unique_points)

        def accept(point):
            key = self.zip_and_tuple(point)
            if key in seen:
                return False
            seen.add(key)
            batch.append(point)
            return True

        anchor_points = self.get_anchor_points(duplicate_manager=duplicate_manager, context_manager=context_manager)
        x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager=context_manager)
        if x0 is not None:
            batch.append(x0)
            seen.add(self.zip_and_tuple(x0))

        for a in anchor_points:
            if len(batch) >= self.batch_size:
                break
            x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager=context_manager)
            if not accept(x):
                accept(a)

        if len(batch) < self.batch_size:
            print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
        return np.vstack(batch)
''')]),
 dict(id='m23',edits=[(EV+'batch_local_penalization.py','def:LocalPenalization.compute_batch','''
    def compute_batch(self, duplicate_manager=None, context_manager=None):
        from ...acquisitions import AcquisitionLP
        acquisition = self.acquisition
        assert isinstance(acquisition, AcquisitionLP)

        acquisition.update_batches(None, None, None)
        X_batch, _ = acquisition.optimize(duplicate_manager=duplicate_manager)

        if self.batch_size > 1:
            gp = acquisition.model.model
            L = estimate_L(gp, acquisition.space.get_bounds())
            Min = gp.Y.min()

            for _ in range(1, self.batch_size):
                acquisition.update_batches(X_batch, L, Min)
                if duplicate_manager:
                    duplicate_manager.add_unzipped_x(X_batch[-1])
                try:
                    new_sample, _ = acquisition.optimize(duplicate_manager=duplicate_manager)
                except FullyExploredOptimizationDomainError:
                    break
                X_batch = np.vstack((X_batch, new_sample))

        acquisition.update_batches(None, None, None)
        return X_batch
''')]),
 dict(id='m24',edits=[(U+'general.py','def:best_value','''
def best_value(Y,sign=1):
    pick = np.min if sign == 1 else np.max
    return np.array([pick(Y[:stop]) for stop in range(1, Y.shape[0] + 1)], dtype=float)
''')]),
 dict(id='m25',edits=[(U+'general.py','def:get_quantiles','''
def get_quantiles(acquisition_par, fmin, m, s):
    if not isinstance(s, np.ndarray):
        s = max(s, 1e-10)
    else:
        np.maximum(s, 1e-10, out=s)
    u = (fmin - m - acquisition_par)/s
    return (np.exp(-0.5 * u * u) / np.sqrt(2*np.pi), 0.5 * erfc(-u / np.sqrt(2)), u)
''')]),
 dict(id='m26',edits=[(A+'base.py','def:AcquisitionBase.acquisition_function_withGradients','''
    def acquisition_function_withGradients(self, x):
        value, gradient = self._compute_acq_withGradients(x)
        cost, cost_gradient = self.cost_withGradients(x)
        feasible = self.space.indicator_constraints(self._in_objective_space(x))
        return -(value / cost) * feasible, -((gradient - value / cost * cost_gradient) / cost) * feasible

    def _in_objective_space(self, x):
        if self.space.model_dimensionality == self.space.objective_dimensionality:
            return x
        return self.space.zip_inputs(x)
''')]),
 dict(id='m27',edits=[(A+'EI_mcmc.py','def:AcquisitionEI_MCMC._compute_acq_withGradients','''
    def _compute_acq_withGradients(self, x):
        """
        Integrated Expected Improvement and its derivative
        """
        means, stds, dmdxs, dsdxs = self.model.predict_withGradients(x)
        fmins = self.model.get_fmin()
        values, gradients = [], []
        for m, s, fmin, dmdx, dsdx in zip(means, stds, fmins, dmdxs, dsdxs):
            phi, Phi, _ = get_quantiles(self.jitter, fmin, m, s)
            values.append((fmin - m + self.jitter) * Phi + s * phi)
            gradients.append(dsdx * phi - Phi * dmdx)
        n = len(means)
        return sum(values) / n, sum(gradients) / n
''')]),
 dict(id='m28',edits=[(BO,'def:BO._save_model_parameter_values','''
    def _save_model_parameter_values(self):
        if hasattr(self.model, 'get_model_parameters'):
            current = self.model.get_model_parameters()
            previous = self.model_parameters_iterations
            self.model_parameters_iterations = current if previous is None else np.vstack((previous, current))
''')]),
 dict(id='m29',edits=[(BO,'def:BO._distance_last_evaluations','''
    def _distance_last_evaluations(self):
        if len(self.X) < 2:
            return np.inf
        return np.linalg.norm(self.X[-1] - self.X[-2])
''')]),
 dict(id='m30',edits=[(BO,'''        if  (max_iter is None) and (max_time is None):
            self.max_iter = 0
            self.max_time = np.inf
        elif (max_iter is None) and (max_time is not None):
            self.max_iter = np.inf
            self.max_time = max_time
        elif (max_iter is not None) and (max_time is None):
            self.max_iter = max_iter
            self.max_time = np.inf
        else:
            self.max_iter = max_iter
            self.max_time = max_time
''','''        self.max_iter, self.max_time = self._limits(max_iter, max_time)
'''),(BO,'    def _print_convergence(self):','''    @staticmethod
    def _limits(max_iter, max_time):
        if max_iter is None and max_time is None:
            return 0, np.inf
        return (np.inf if max_iter is None else max_iter), (np.inf if max_time is None else max_time)

    def _print_convergence(self):''')]),
 dict(id='m31',edits=[(BO,'def:BO.save_evaluations','''
    def save_evaluations(self, evaluations_file = None):
        n, d = self.X.shape
        header = ['Iteration', 'Y']
        header.extend('var_%d' % (k + 1) for k in range(d))
        results = np.column_stack((np.arange(1, self.Y.shape[0] + 1), self.Y, self.X))
        self._write_csv(evaluations_file, [header] + results.tolist())
''')]),
 dict(id='m32',edits=[(ME,'def:BayesianOptimization._init_design_chooser','''
    def _init_design_chooser(self):
        if self.f is None and (self.X is None or self.Y is None):
            raise InvalidConfigError("Initial data for both X and Y is required when objective function is not provided")

        generate = self.X is None
        if generate:
            self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
        if generate or self.Y is None:
            self.Y, cost_values = self.objective.evaluate(self.X)
            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
''')]),
 dict(id='m33',edits=[('GPyOpt/util/arguments_manager.py','def:ArgumentsManager.acquisition_creator','''
    def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
        jitter = self.kwargs.get('acquisition_jitter', 0.01)
        weight = self.kwargs.get('acquisition_weight', 2)
        acquisition_type = 'EI' if acquisition_type is None else acquisition_type
        with_cost = {'EI': AcquisitionEI, 'EI_MCMC': AcquisitionEI_MCMC, 'MPI': AcquisitionMPI, 'MPI_MCMC': AcquisitionMPI_MCMC}
        without_cost = {'LCB': AcquisitionLCB, 'LCB_MCMC': AcquisitionLCB_MCMC}
        if acquisition_type in with_cost:
            return with_cost[acquisition_type](model, space, acquisition_optimizer, cost_withGradients, jitter)
        if acquisition_type in without_cost:
            return without_cost[acquisition_type](model, space, acquisition_optimizer, None, weight)
        raise Exception('Invalid acquisition selected.')
''')]),
 dict(id='m34',edits=[(X+'random_design.py','def:RandomDesign.get_samples_with_constraints','''
    def get_samples_with_constraints(self, init_points_count):
        accepted = np.empty((0, self.space.dimensionality))
        while len(accepted) < init_points_count:
            candidates = self.get_samples_without_constraints(init_points_count)
            feasible = self.space.indicator_constraints(candidates)[:, 0] == 1
            if feasible.any():
                accepted = np.concatenate((accepted, candidates[feasible]), axis=0)
        return accepted[:init_points_count]
''')]),
 dict(id='m35',edits=[(X+'random_design.py','def:RandomDesign.fill_noncontinous_variables','''
    def fill_noncontinous_variables(self, samples):
        count = len(samples)
        column = 0
        for var in self.space.space_expanded:
            width = 1
            if isinstance(var, BanditVariable):
                width = var.domain.shape[1]
                arms = np.random.randint(var.domain.shape[0], size=count)
                samples[:, column:column + width] = var.domain[arms]
            elif isinstance(var, (DiscreteVariable, CategoricalVariable)):
                samples[:, column] = np.random.choice(var.domain, count)
            column += width
''')]),
 dict(id='m36',edits=[(U+'duplicate_manager.py','def:DuplicateManager.__init__','''
    def __init__(self, space, zipped_X, pending_zipped_X=None, ignored_zipped_X=None):
        self.space = space
        self.unique_points = set()
        for known in (zipped_X, pending_zipped_X, ignored_zipped_X):
            if known is None:
                continue
            for row in known:
                self.unique_points.add(tuple(row.flatten()))
''')],note='zipped_X None refused otherwise'),
 dict(id='m37',edits=[(A+'LP.py','def:AcquisitionLP._d_hammer_function','''
    def _d_hammer_function(self, x, X_batch, r_x0, s_x0):
        offset = np.atleast_2d(x)[:,None,:]-np.atleast_2d(X_batch)[None,:,:]
        distance = np.sqrt(np.sum(offset**2, axis=-1))
        z = (distance - r_x0)/s_x0
        cdf = norm.cdf(z)
        slope = np.exp(-0.5*z**2)/(s_x0*np.sqrt(2*np.pi)*cdf*distance)
        slope[(cdf<1e-50) | (distance==0)] = 0.
        return np.sum(slope[:,:,None]*offset, axis=1)
''')]),
 dict(id='m38',edits=[(A+'LP.py','def:AcquisitionLP.d_acquisition_function','''
    def d_acquisition_function(self, x):
        x = np.atleast_2d(x)
        scale = self._scale(x)
        _, grad_acq_x = self.acq.acquisition_function_withGradients(x)
        gradient = scale*grad_acq_x
        if self.X_batch is not None:
            gradient = gradient - self._d_hammer_function(x, self.X_batch, self.r_x0, self.s_x0)
        return gradient

    def _scale(self, x):
        if self.transform not in ('softplus', 'none'):
            return 1.
        fval = -self.acq.acquisition_function(x)
        if self.transform == 'none':
            return 1./fval
        return 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
''')]),
]
