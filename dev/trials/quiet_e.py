# edits that keep the behaviour, fifth round
BO='GPyOpt/core/bo.py'
O='GPyOpt/optimization/'
M='GPyOpt/models/'
A='GPyOpt/acquisitions/'
T='GPyOpt/core/task/'
EV='GPyOpt/core/evaluators/'
X='GPyOpt/experiment_design/'
U='GPyOpt/util/'
ME='GPyOpt/methods/bayesian_optimization.py'
TRIALS=[
 dict(id='n1',edits=[(BO,'def:BO.run_optimization','''
    def run_optimization(self, max_iter = 0, max_time = np.inf,  eps = 1e-8, context = None, verbosity=False, save_models_parameters= True, report_file = None, evaluations_file = None, models_file=None):
        if self.objective is None:
            raise InvalidConfigError("Cannot run the optimization loop without the objective function")
        self._set_run_options(verbosity, save_models_parameters, report_file, evaluations_file, models_file, context)
        self._set_limits(max_iter, max_time, eps)
        self._initial_evaluation()

        self.time_zero = time.time()
        self.cum_time  = 0
        self.num_acquisitions = 0
        self.suggested_sample = self.X
        self.Y_new = self.Y

        while self.cum_time < self.max_time:
            try:
                self._update_model(self.normalization_type)
            except np.linalg.linalg.LinAlgError:
                break
            if self._finished():
                break
            self._one_step()
            if verbosity:
                print("num acquisition: {}, time elapsed: {:.2f}s".format(
                    self.num_acquisitions, self.cum_time))

        self._compute_results()
        self._write_files()

    def _set_run_options(self, verbosity, save_models_parameters, report_file, evaluations_file, models_file, context):
        self.verbosity = verbosity
        self.report_file, self.evaluations_file, self.models_file = report_file, evaluations_file, models_file
        self.model_parameters_iterations = None
        self.context = context
        self.save_models_parameters = save_models_parameters
        if self.save_models_parameters == True and not isinstance(self.model, (GPyOpt.models.GPModel, GPyOpt.models.GPModel_MCMC)):
            print('Models printout after each iteration is only available for GP and GP_MCMC models')
            self.save_models_parameters = False

    def _set_limits(self, max_iter, max_time, eps):
        self.eps = eps
        if max_iter is None and max_time is None:
            self.max_iter, self.max_time = 0, np.inf
        else:
            self.max_iter = np.inf if max_iter is None else max_iter
            self.max_time = np.inf if max_time is None else max_time

    def _initial_evaluation(self):
        if self.X is None or self.Y is not None:
            return
        self.Y, cost_values = self.objective.evaluate(self.X)
        if self.cost.cost_type == 'evaluation_time':
            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)

    def _finished(self):
        if self.num_acquisitions >= self.max_iter:
            return True
        return len(self.X) > 1 and self._distance_last_evaluations() <= self.eps

    def _one_step(self):
        self.suggested_sample = self._compute_next_evaluations()
        self.X = np.vstack((self.X, self.suggested_sample))
        self.evaluate_objective()
        self.cum_time = time.time() - self.time_zero
        self.num_acquisitions += 1

    def _write_files(self):
        for path, save in ((self.report_file, self.save_report), (self.evaluations_file, self.save_evaluations), (self.models_file, self.save_models)):
            if path is not None:
                save(path)
''')]),
 dict(id='n2',edits=[(BO,'def:BO._update_model','''
    def _update_model(self, normalization_type='stats'):
        due = not (self.num_acquisitions % self.model_update_interval)
        if due:
            self.model.updateModel(self.space.unzip_inputs(self.X), self._outputs_for_model(normalization_type), None, None)
        self._save_model_parameter_values()

    def _outputs_for_model(self, normalization_type):
        return normalize(self.Y, normalization_type) if self.normalize_Y else self.Y
''')]),
 dict(id='n3',edits=[(BO,'def:BO._compute_results','''
    def _compute_results(self):
        Y = self.Y
        best = int(np.argmin(Y))
        self.x_opt, self.fx_opt = self.X[best], np.min(Y)
        self.Y_best = best_value(Y)
''')]),
 dict(id='n4',edits=[(BO,'def:BO._distance_last_evaluations','''
    def _distance_last_evaluations(self):
        if len(self.X) < 2:
            return np.inf
        before, last = self.X[-2:]
        return np.linalg.norm(last - before)
''')]),
 dict(id='n5',edits=[(BO,'def:BO.suggest_next_locations','''
    def suggest_next_locations(self, context = None, pending_X = None, ignored_X = None):
        self.num_acquisitions, self.model_parameters_iterations = 0, None
        self.context = context
        self._update_model(normalization_type=self.normalization_type)
        return self._compute_next_evaluations(pending_X, ignored_X)
''')]),
 dict(id='n6',edits=[(EV+'base.py','def:SamplingBasedBatchEvaluator.compute_batch','''
    def compute_batch(self, duplicate_manager=None, context_manager=None):
        self.context_manager = context_manager
        if not duplicate_manager:
            return self.compute_batch_without_duplicate_logic(context_manager=context_manager)
        options = dict(duplicate_manager=duplicate_manager, context_manager=context_manager)
        taken = duplicate_manager.unique_points.copy()
        anchor_points = self.get_anchor_points(**options)
        batch = []
        x0 = self.initialize_batch(**options)
        if x0 is not None:
            batch.append(x0)
            taken.add(self.zip_and_tuple(x0))
        for a in anchor_points:
            if len(batch) >= self.batch_size:
                break
            # the optimized anchor point first, the anchor point itself otherwise
            for candidate in (self.optimize_anchor_point(a, **options), a):
                key = self.zip_and_tuple(candidate)
                if key not in taken:
                    batch.append(candidate)
                    taken.add(key)
                    break
        if len(batch) < self.batch_size:
            print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
        return np.vstack(batch)
''')]),
 dict(id='n7',edits=[(O+'anchor_points_generator.py','''        non_duplicate_anchor_point_indexes = [index for index, x in enumerate(X) if not is_duplicate(x)]
''','''        keep = np.array([not is_duplicate(x) for x in X], dtype=bool)
        non_duplicate_anchor_point_indexes = np.flatnonzero(keep).tolist()
''')]),
 dict(id='n8',edits=[(U+'general.py','def:normalize','''
def normalize(Y, normalization_type='stats'):
    """Normalize the vector Y using statistics or its range."""
    Y = np.asarray(Y, dtype=float)
    if np.max(Y.shape) != Y.size:
        raise NotImplementedError('Only 1-dimensional arrays are supported.')
    handlers = {'stats': _normalize_stats, 'maxmin': _normalize_maxmin}
    if normalization_type not in handlers:
        raise ValueError('Unknown normalization type: {}'.format(normalization_type))
    return handlers[normalization_type](Y)


def _normalize_stats(Y):
    std = Y.std()
    centred = Y - Y.mean()
    return centred / std if std > 0 else centred


def _normalize_maxmin(Y):
    centred = Y - Y.min()
    height = np.ptp(Y)
    if not height > 0:
        return centred
    return 2 * (centred / height - 0.5)
''')]),
 dict(id='n9',edits=[(T+'objective.py','def:SingleObjective._syncronous_batch_evaluation','''
    def _syncronous_batch_evaluation(self,x):
        from multiprocessing import Process, Pipe

        n_rows = x.shape[0]
        f_evals = np.zeros((n_rows, 1))
        workers = []
        for first in range(self.n_procs):
            receiver, sender = Pipe()
            worker = Process(target=spawn(self._eval_func), args=(sender, x[first::self.n_procs]))
            worker.start()
            sender.close()
            workers.append((first, receiver, worker))
        try:
            for first, receiver, _ in workers:
                values, _times = receiver.recv()
                f_evals[first::self.n_procs] = values
        finally:
            for _, receiver, _ in workers:
                receiver.close()
            for _, _, worker in workers:
                worker.join()
        return f_evals, np.ones((n_rows, 1))
''')]),
 dict(id='n10',edits=[(T+'space.py','def:Design_space.indicator_constraints','''
    def indicator_constraints(self,x):
        x = np.atleast_2d(x)
        feasible = np.ones((x.shape[0],1))
        for d in (self.constraints or []):
            try:
                exec('constraint = lambda x:' + d['constraint'], globals())
                feasible = feasible * ((constraint(x) <= 0) * 1).reshape(x.shape[0],1)
            except:
                print('Fail to compile the constraint: ' + str(d))
                raise
        return feasible
''')]),
 dict(id='n11',edits=[(T+'variables.py','def:CategoricalVariable.round','''
    def round(self, value_array):
        hot = np.argmax(value_array)
        return np.where(np.arange(len(value_array)) == hot, 1.0, 0.0)
''')],note='message may differ'),
 dict(id='n12',edits=[(A+'EI.py','def:AcquisitionEI._compute_acq','''
    def _compute_acq(self, x):
        m, s = self.model.predict(x)
        phi, Phi, u = get_quantiles(self.jitter, self.model.get_fmin(), m, s)
        return self._improvement(s, u, Phi, phi)

    @staticmethod
    def _improvement(s, u, Phi, phi):
        return s * (phi + u * Phi)
''')]),
 dict(id='n13',edits=[(A+'LP.py','def:AcquisitionLP._hammer_function','''
    def _hammer_function(self, x,x0,r_x0, s_x0):
        delta = np.atleast_2d(x)[:, np.newaxis] - np.atleast_2d(x0)[np.newaxis]
        distance = np.linalg.norm(delta, axis=2)
        return norm.logcdf((distance - r_x0) / s_x0)
''')]),
 dict(id='n14',edits=[(A+'LP.py','def:AcquisitionLP._hammer_function_precompute','''
    def _hammer_function_precompute(self,x0, L, Min, model):
        if x0 is None:
            return None, None
        points = x0[None,:] if x0.ndim == 1 else x0
        mean, var = model.predict(points)
        var = np.where(var < 1e-16, 1e-16, var)
        return ((mean - Min)/L).ravel(), (np.sqrt(var)/L).ravel()
''')]),
 dict(id='n15',edits=[(M+'gpmodel.py','def:GPModel.get_fmin','''
    def get_fmin(self):
        means, _ = self.model.predict(self.model.X)
        return np.min(means)
''')]),
 dict(id='n16',edits=[(M+'rfmodel.py','def:RFModel.predict','''
    def predict(self, X):
        predictions = np.array([tree.predict(X) for tree in self.model.estimators_])
        mean = predictions.mean(axis=0)
        spread = predictions.std(axis=0)
        return mean.reshape(-1, 1), spread.reshape(-1, 1)
''')],skip=True),
 dict(id='n17',edits=[(U+'duplicate_manager.py','def:DuplicateManager.is_zipped_x_duplicate','''
    def is_zipped_x_duplicate(self, zipped_x):
        key = tuple(zipped_x.flatten())
        return key in self.unique_points
''')]),
 dict(id='n18',edits=[(O+'acquisition_optimizer.py','def:ContextManager.__init__','''
    def __init__ (self, space, context = None):
        self.space = space
        model_columns = range(space.model_dimensionality)
        objective_columns = range(space.objective_dimensionality)
        self.all_index = list(model_columns)
        self.all_index_obj = list(objective_columns)
        self.context_index, self.context_value = [], []
        self.context_index_obj = []
        if context is None:
            self.nocontext_index_obj = list(objective_columns)
            self.noncontext_bounds = space.get_bounds()[:]
            self.noncontext_index = list(model_columns)
        else:
            for name in context:
                variable = space.find_variable(name)
                self.context_index.extend(variable.index_in_model)
                self.context_index_obj.extend(variable.index_in_objective)
                self.context_value.extend(variable.objective_to_model(context[name]))
            bounds = space.get_bounds()
            self.noncontext_index = [k for k in self.all_index if k not in self.context_index]
            self.noncontext_bounds = [bounds[k] for k in self.noncontext_index]
            self.nocontext_index_obj = [k for k in self.all_index_obj if k not in self.context_index_obj]
''')]),
 dict(id='n19',edits=[(X+'latin_design.py','def:LatinDesign.get_samples','''
    def get_samples(self, init_points_count, criterion='center'):
        samples = np.empty((init_points_count, self.space.dimensionality))
        RandomDesign(self.space).fill_noncontinous_variables(samples)
        if not self.space.has_continuous():
            return samples
        bounds = np.array(self.space.get_continuous_bounds(), dtype=float)
        from pyDOE import lhs
        unit = lhs(bounds.shape[0], init_points_count, criterion=criterion)
        low, high = bounds.T
        samples[:, self.space.get_continuous_dims()] = low + unit * (high - low)
        return samples
''')]),
 dict(id='n20',edits=[('GPyOpt/interface/config_parser.py','def:update_config','''
def update_config(config_new, config_default):
    nested = [k for k, v in config_new.items() if isinstance(v, dict)]
    if not nested:
        config_default.update(config_new)
        return config_default
    for key in list(config_new):
        value = config_new[key]
        if key in nested and key in config_default:
            update_config(value, config_default[key])
        else:
            config_default[key] = value
    return config_default
''')]),
 dict(id='n21',edits=[(ME,'def:BayesianOptimization._sign','''
    def _sign(self,f):
        if not self.maximize:
            return f
        return lambda x: -f(x)
''')]),
 dict(id='n22',edits=[(T+'cost.py','def:CostModel.update_cost_model','''
    def update_cost_model(self, x, cost_x):
        if self.cost_type != 'evaluation_time':
            return
        log_times = np.log(np.asarray(cost_x).reshape(-1,1))
        first = self.num_updates == 0
        self.num_updates = self.num_updates + 1
        if first:
            self.cost_model.updateModel(x, log_times, None, None)
        else:
            known = self.cost_model.model
            self.cost_model.updateModel(np.concatenate([known.X, x]), np.concatenate([known.Y, log_times]), None, None)
''')]),
 dict(id='n23',edits=[(O+'optimizer.py','def:choose_optimizer','''
def choose_optimizer(optimizer_name, bounds):
    known = (('lbfgs', OptLbfgs), ('DIRECT', OptDirect), ('CMA', OptCma))
    for name, kind in known:
        if optimizer_name == name:
            return kind(bounds)
    raise InvalidVariableNameError('Invalid optimizer selected.')
''')]),
 dict(id='n24',edits=[(U+'mcmc_sampler.py','x','x')],skip=True),
 dict(id='n25',edits=[(A+'LCB.py','def:AcquisitionLCB._compute_acq_withGradients','''
    def _compute_acq_withGradients(self, x):
        prediction = self.model.predict_withGradients(x)
        (m, s), (dmdx, dsdx) = prediction[:2], prediction[2:]
        return self._bound(m, s), self._bound(dmdx, dsdx)

    def _bound(self, mean, deviation):
        return self.exploration_weight * deviation - mean
''')]),
 dict(id='n26',edits=[(EV+'batch_local_penalization.py','def:estimate_L','''
def estimate_L(model,bounds,storehistory=True):
    def df(x, model, x0):
        x = np.atleast_2d(x)
        gradient, _ = model.predictive_gradients(x)
        if gradient.ndim>2:
            gradient = gradient.reshape(gradient.shape[:2])
        return -np.sqrt((gradient * gradient).sum(1))

    samples = np.vstack([samples_multidimensional_uniform(bounds,500),model.X])
    values = df(samples,model,0)
    start = samples[np.argmin(values)]
    res = scipy.optimize.minimize(df,start, method='L-BFGS-B',bounds=bounds, args = (model,start), options = {'maxiter': 200})
    L = -np.asarray(res.fun).item()
    return L if L >= 1e-7 else 10
''')],note='depends on original'),
 dict(id='n27',edits=[(T+'space.py','def:Design_space.find_variable','''
    def find_variable(self, variable_name):
        matches = [v for v in self.space if v.name == variable_name]
        if matches:
            return matches[0]
        raise InvalidVariableNameError('Invalid variable name')
''')],skip=True),
 dict(id='n28',edits=[(X+'random_design.py','def:samples_multidimensional_uniform','''
def samples_multidimensional_uniform(bounds, points_count):
    dim = len(bounds)
    Z = np.empty((points_count, dim))
    for column, interval in zip(range(dim), bounds):
        low, high = interval[0], interval[1]
        Z[:, column] = np.random.uniform(low, high, points_count)
    return Z
''')]),
]
TRIALS=[t for t in TRIALS if not t.get('skip')]
