A='GPyOpt/acquisitions/'
G='GPyOpt/util/general.py'
BO='GPyOpt/core/bo.py'
EV='GPyOpt/core/evaluators/'
OP='GPyOpt/optimization/'
TRIALS=[
 dict(id='a1',edits=[(A+'base.py','def:AcquisitionBase.acquisition_function','''
def acquisition_function(self, x):
    return -self._weighted(self._compute_acq(x), x) / self.cost_withGradients(x)[0]

def _weighted(self, values, x):
    """ zero outside the feasible region """
    return values * self.space.indicator_constraints(self._as_objective_input(x))

def _as_objective_input(self, x):
    if self.space.model_dimensionality != self.space.objective_dimensionality:
        return self.space.zip_inputs(x)
    return x
'''),(A+'base.py','def:AcquisitionBase.acquisition_function_withGradients','''
def acquisition_function_withGradients(self, x):
    value, grad = self._compute_acq_withGradients(x)
    cost, cost_grad = self.cost_withGradients(x)
    mask = self.space.indicator_constraints(self._as_objective_input(x))
    ratio = value / cost
    ratio_grad = (grad - ratio * cost_grad) / cost
    return -ratio * mask, -ratio_grad * mask
''')]),
 dict(id='a2',edits=[(A+'base.py','def:AcquisitionBase.optimize','''
def optimize(self, duplicate_manager=None):
    arguments = dict(f=self.acquisition_function, duplicate_manager=duplicate_manager)
    if self.analytical_gradient_acq:
        arguments['f_df'] = self.acquisition_function_withGradients
    return self.optimizer.optimize(**arguments)
'''),(A+'base.py','def:AcquisitionBase.__init__','''
def __init__(self, model, space, optimizer, cost_withGradients=None):
    self.model = model
    self.space = space
    self.optimizer = optimizer
    self.analytical_gradient_acq = self.analytical_gradient_prediction and model.analytical_gradient_prediction
    self.cost_withGradients = constant_cost_withGradients if cost_withGradients is None else cost_withGradients
''')]),
 dict(id='a3',edits=[(A+'EI.py','def:AcquisitionEI._compute_acq','''
def _compute_acq(self, x):
    mean, std = self.model.predict(x)
    return self._improvement(self.model.get_fmin(), mean, std)[0]

def _improvement(self, fmin, mean, std):
    phi, Phi, u = get_quantiles(self.jitter, fmin, mean, std)
    return std * (u * Phi + phi), phi, Phi
'''),(A+'EI.py','def:AcquisitionEI._compute_acq_withGradients','''
def _compute_acq_withGradients(self, x):
    mean, std, dmean, dstd = self.model.predict_withGradients(x)
    value, phi, Phi = self._improvement(self.model.get_fmin(), mean, std)
    gradient = phi * dstd
    gradient = gradient - dmean * Phi
    return value, gradient
''')]),
 dict(id='a4',edits=[(A+'EI_mcmc.py','def:AcquisitionEI_MCMC._compute_acq','''
def _compute_acq(self,x):
    means, stds = self.model.predict(x)
    fmins = self.model.get_fmin()
    total = 0
    for i in range(len(means)):
        phi, Phi, u = get_quantiles(self.jitter, fmins[i], means[i], stds[i])
        total = total + Phi * (self.jitter + fmins[i] - means[i]) + phi * stds[i]
    return total/len(means)
'''),(A+'EI_mcmc.py','def:AcquisitionEI_MCMC._compute_acq_withGradients','''
def _compute_acq_withGradients(self, x):
    means, stds, dmdxs, dsdxs = self.model.predict_withGradients(x)
    fmins = self.model.get_fmin()
    fs, dfs = [], []
    for m, s, fmin, dmdx, dsdx in zip(means, stds, fmins, dmdxs, dsdxs):
        phi, Phi, _ = get_quantiles(self.jitter, fmin, m, s)
        fs.append((fmin - m + self.jitter) * Phi + s * phi)
        dfs.append(dsdx * phi - Phi * dmdx)
    n = len(means)
    return sum(fs)/n, sum(dfs)/n
''')]),
 dict(id='a5',edits=[(A+'LCB.py','def:AcquisitionLCB._compute_acq','''
def _compute_acq(self, x):
    m, s = self.model.predict(x)
    return self.exploration_weight * s - m
'''),(A+'LCB_mcmc.py','def:AcquisitionLCB_MCMC._compute_acq','''
def _compute_acq(self, x):
    means, stds = self.model.predict(x)
    w = self.exploration_weight
    return sum([w * s - m for m, s in zip(means, stds)]) / len(means)
''')]),
 dict(id='a6',edits=[(A+'LP.py','def:AcquisitionLP._hammer_function','''
def _hammer_function(self, x,x0,r_x0, s_x0):
    X, C = np.atleast_2d(x), np.atleast_2d(x0)
    diff = X[:, None, :] - C[None, :, :]
    dist = np.sqrt(np.sum(diff ** 2, axis=-1))
    return norm.logcdf((dist - r_x0) / s_x0)
'''),(A+'LP.py','def:AcquisitionLP._hammer_function_precompute','''
def _hammer_function_precompute(self,x0, L, Min, model):
    if x0 is None:
        return None, None
    if x0.ndim == 1:
        x0 = x0.reshape(1, -1)
    m, pred = model.predict(x0)
    s = np.sqrt(np.maximum(pred, 1e-16))
    return ((m - Min) / L).flatten(), (s / L).flatten()
'''),(A+'LP.py','def:AcquisitionLP.d_acquisition_function','''
def d_acquisition_function(self, x):
    x = np.atleast_2d(x)
    scale = self._scale(x)
    grad = scale * self.acq.acquisition_function_withGradients(x)[1]
    if self.X_batch is not None:
        grad = grad - self._d_hammer_function(x, self.X_batch, self.r_x0, self.s_x0)
    return grad

def _scale(self, x):
    if self.transform not in ('softplus', 'none'):
        return 1.
    fval = -self.acq.acquisition_function(x)
    if self.transform == 'none':
        return 1./fval
    return 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
''')]),
 dict(id='a7',edits=[(A+'LP.py','def:AcquisitionLP._penalized_acquisition','''
def _penalized_acquisition(self, x,  model, X_batch, r_x0, s_x0):
    fval = -self.acq.acquisition_function(x)[:,0]
    if self.transform == 'softplus':
        big = fval >= 40.
        out = np.empty_like(fval)
        out[big] = np.log(fval[big])
        out[~big] = np.log(np.log1p(np.exp(fval[~big])))
        fval = out
    elif self.transform == 'none':
        fval = np.log(fval+1e-50)
    penalised = -fval
    if X_batch is None:
        return penalised
    return penalised - self._hammer_function(x, X_batch, r_x0, s_x0).sum(axis=-1)
'''),(A+'LP.py','def:AcquisitionLP.__init__','''
def __init__(self, model, space, optimizer, acquisition, transform='none'):
    super(AcquisitionLP, self).__init__(model, space, optimizer)
    self.acq = acquisition
    transform = transform.lower()
    if transform == 'none' and isinstance(acquisition, (AcquisitionLCB, AcquisitionLCB_MCMC)):
        transform = 'softplus'
    self.transform = transform
    self.X_batch = self.r_x0 = self.s_x0 = None
''')]),
 dict(id='g1',edits=[(G,'def:get_quantiles','''
def get_quantiles(acquisition_par, fmin, m, s):
    floor = 1e-10
    if isinstance(s, np.ndarray):
        s[s < floor] = floor
    else:
        s = max(s, floor)
    u = (fmin - acquisition_par - m)/s
    density = np.exp(-u**2/2.) / np.sqrt(2*np.pi)
    cumulative = erfc(-u / np.sqrt(2)) / 2.
    return (density, cumulative, u)
'''),(G,'def:best_value','''
def best_value(Y,sign=1):
    n = Y.shape[0]
    pick = np.min if sign == 1 else np.max
    return np.array([pick(Y[:(i+1)]) for i in range(n)])
'''),(G,'def:samples_multidimensional_uniform','''
def samples_multidimensional_uniform(bounds,num_data):
    Z = np.zeros(shape=(num_data, len(bounds)))
    for k, (low, high) in enumerate(bounds):
        Z[:, k] = np.random.uniform(low=low, high=high, size=num_data)
    return Z
''')]),
 dict(id='g2',edits=[(G,'def:best_value','''
def best_value(Y,sign=1):
    Y_best = np.ones(Y.shape[0])
    for i in range(Y.shape[0]):
        seen = Y[:(i+1)]
        Y_best[i] = seen.min() if sign == 1 else seen.max()
    return Y_best
'''),(G,'def:normalize','''
def normalize(Y, normalization_type='stats'):
    Y = np.asarray(Y, dtype=float)
    if np.max(Y.shape) != Y.size:
        raise NotImplementedError('Only 1-dimensional arrays are supported.')
    if normalization_type == 'stats':
        return _scaled(Y - Y.mean(), Y.std())
    if normalization_type == 'maxmin':
        span = np.ptp(Y)
        shifted = _scaled(Y - Y.min(), span)
        return 2 * (shifted - 0.5) if span > 0 else shifted
    raise ValueError('Unknown normalization type: {}'.format(normalization_type))


def _scaled(values, scale):
    if scale > 0:
        return values / scale
    return values
''')]),
 dict(id='b1',edits=[(BO,'def:BO._compute_results','''
def _compute_results(self):
    best = np.argmin(self.Y)
    self.x_opt = self.X[best, :]
    self.fx_opt = self.Y.min()
    self.Y_best = best_value(self.Y)
'''),(BO,'def:BO._distance_last_evaluations','''
def _distance_last_evaluations(self):
    if len(self.X) < 2:
        return np.inf
    last, previous = self.X[-1, :], self.X[-2, :]
    return np.sqrt(((last - previous) ** 2).sum())
'''),(BO,'def:BO._update_model','''
def _update_model(self, normalization_type='stats'):
    if self.num_acquisitions % self.model_update_interval == 0:
        Y_inmodel = normalize(self.Y, normalization_type) if self.normalize_Y else self.Y
        self.model.updateModel(self.space.unzip_inputs(self.X), Y_inmodel, None, None)
    self._save_model_parameter_values()
'''),(BO,'def:BO._save_model_parameter_values','''
def _save_model_parameter_values(self):
    if not hasattr(self.model, 'get_model_parameters'):
        return
    current = self.model.get_model_parameters()
    if self.model_parameters_iterations is not None:
        current = np.vstack((self.model_parameters_iterations, current))
    self.model_parameters_iterations = current
''')]),
 dict(id='b2',edits=[(BO,'def:BO._compute_next_evaluations','''
def _compute_next_evaluations(self, pending_zipped_X=None, ignored_zipped_X=None):
    context_manager = ContextManager(self.space, self.context)
    self.acquisition.optimizer.context_manager = context_manager
    duplicate_manager = None
    if self.de_duplication:
        duplicate_manager = self._duplicates(pending_zipped_X, ignored_zipped_X)
    batch = self.evaluator.compute_batch(duplicate_manager=duplicate_manager, context_manager=context_manager)
    return self.space.zip_inputs(batch)

def _duplicates(self, pending, ignored):
    return DuplicateManager(self.space, self.X, pending, ignored)
'''),(BO,'def:BO.evaluate_objective','''
def evaluate_objective(self):
    X_new = self.suggested_sample
    self.Y_new, cost_new = self.objective.evaluate(X_new)
    self.Y = np.vstack((self.Y, self.Y_new))
    self.cost.update_cost_model(self.space.unzip_inputs(X_new), cost_new)
''')]),
 dict(id='b3',edits=[(BO,'''        if  (max_iter is None) and (max_time is None):
            self.max_iter = 0
            self.max_time = np.inf
        elif (max_iter is None) and (max_time is not None):
            self.max_iter = np.inf
            self.max_time = max_time
        elif (max_iter is not None) and (max_time is None):
            self.max_iter = max_iter
            self.max_time = np.inf
        else:
            self.max_iter = max_iter
            self.max_time = max_time
''','''        self._set_limits(max_iter, max_time)
'''),(BO,'def:BO._print_convergence','''
def _set_limits(self, max_iter, max_time):
    if max_iter is None:
        max_iter = 0 if max_time is None else np.inf
    if max_time is None:
        max_time = np.inf
    self.max_iter, self.max_time = max_iter, max_time

def _print_convergence(self):
    if self.verbosity:
        if (self.num_acquisitions == self.max_iter) and (not self.initial_iter):
            print('   ** Maximum number of iterations reached **')
            return 1
        elif (self._distance_last_evaluations() < self.eps) and (not self.initial_iter):
            print('   ** Two equal location selected **')
            return 1
        elif (self.max_time < self.cum_time) and not (self.initial_iter):
            print('   ** Evaluation time reached **')
            return 0

        if self.initial_iter:
            print('** GPyOpt Bayesian Optimization class initialized successfully **')
            self.initial_iter = False
'''),(BO,'''            if (self.num_acquisitions >= self.max_iter
                    or (len(self.X) > 1 and self._distance_last_evaluations() <= self.eps)):
                break
''','''            if self._finished():
                break
'''),(BO,'def:BO.get_evaluations','''
def get_evaluations(self):
    return np.copy(self.X), np.copy(self.Y)

def _finished(self):
    if self.num_acquisitions >= self.max_iter:
        return True
    return self.X.shape[0] > 1 and self._distance_last_evaluations() <= self.eps
''')]),
 dict(id='b4',edits=[(BO,'''        while (self.max_time > self.cum_time):
''','''        while True:
            if self.cum_time >= self.max_time:
                break
'''),(BO,'''        # --- Print the desired result in files
        if self.report_file is not None:
            self.save_report(self.report_file)
        if self.evaluations_file is not None:
            self.save_evaluations(self.evaluations_file)
        if self.models_file is not None:
            self.save_models(self.models_file)
''','''        # --- Print the desired result in files
        for target, save in ((self.report_file, self.save_report), (self.evaluations_file, self.save_evaluations), (self.models_file, self.save_models)):
            if target is not None:
                save(target)
''')]),
 dict(id='b5',edits=[(BO,'''            self.suggested_sample = self._compute_next_evaluations()

            # --- Augment X
            self.X = np.vstack((self.X,self.suggested_sample))

            # --- Evaluate *f* in X, augment Y and update cost function (if needed)
            self.evaluate_objective()

            # --- Update current evaluation time and function evaluations
            self.cum_time = time.time() - self.time_zero
            self.num_acquisitions += 1
''','''            self._step()
'''),(BO,'def:BO.plot_convergence','''
def plot_convergence(self,filename=None):
    return plot_convergence(self.X,self.Y_best,filename)

def _step(self):
    """ one acquisition and its evaluation """
    self.suggested_sample = self._compute_next_evaluations()
    self.X = np.vstack((self.X,self.suggested_sample))
    self.evaluate_objective()
    self.num_acquisitions += 1
    self.cum_time = time.time() - self.time_zero
''')]),
 dict(id='e1',edits=[(EV+'batch_local_penalization.py','def:LocalPenalization.compute_batch','''
def compute_batch(self, duplicate_manager=None, context_manager=None):
    from ...acquisitions import AcquisitionLP
    assert isinstance(self.acquisition, AcquisitionLP)
    acq = self.acquisition

    acq.update_batches(None,None,None)
    points = acq.optimize(duplicate_manager=duplicate_manager)[0]

    if self.batch_size > 1:
        L = estimate_L(acq.model.model, acq.space.get_bounds())
        Min = acq.model.model.Y.min()

    for _ in range(1, self.batch_size):
        acq.update_batches(points, L, Min)
        if duplicate_manager:
            duplicate_manager.add_unzipped_x(points[-1])
        try:
            x, _fx = acq.optimize(duplicate_manager=duplicate_manager)
        except FullyExploredOptimizationDomainError:
            break
        points = np.vstack((points, x))

    acq.update_batches(None,None,None)
    return points
'''),(EV+'batch_local_penalization.py','def:estimate_L','''
def estimate_L(model,bounds,storehistory=True):
    def negative_norm(x, model, x0):
        dmdx = model.predictive_gradients(np.atleast_2d(x))[0]
        if dmdx.ndim > 2:
            dmdx = dmdx.reshape(dmdx.shape[:2])
        return -np.sqrt(np.sum(dmdx**2, axis=1))

    samples = np.vstack([samples_multidimensional_uniform(bounds,500), model.X])
    start = samples[np.argmin(negative_norm(samples, model, 0))]
    res = scipy.optimize.minimize(negative_norm, start, method='L-BFGS-B', bounds=bounds, args=(model, start), options={'maxiter': 200})
    L = -float(res.fun)
    return 10 if L < 1e-7 else L
''')]),
 dict(id='e2',edits=[(EV+'base.py','def:SamplingBasedBatchEvaluator.compute_batch','''
def compute_batch(self, duplicate_manager=None, context_manager=None):
    self.context_manager = context_manager
    if not duplicate_manager:
        return self.compute_batch_without_duplicate_logic(context_manager=context_manager)

    batch = []
    taken = duplicate_manager.unique_points.copy()
    anchor_points = self.get_anchor_points(duplicate_manager=duplicate_manager, context_manager=context_manager)

    x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager=context_manager)
    if x0 is not None:
        self._accept(x0, batch, taken)

    for a in anchor_points:
        if len(batch) >= self.batch_size:
            break
        x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager=context_manager)
        for candidate in (x, a):
            if self.zip_and_tuple(candidate) not in taken:
                self._accept(candidate, batch, taken)
                break

    if len(batch) < self.batch_size:
        print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
    return np.vstack(batch)

def _accept(self, x, batch, taken):
    batch.append(x)
    taken.add(self.zip_and_tuple(x))
''')]),
 dict(id='e3',edits=[(EV+'batch_random.py','def:RandomBatch.compute_batch_without_duplicate_logic','''
def compute_batch_without_duplicate_logic(self, context_manager=None):
    x = self.initialize_batch()
    others = self.get_anchor_points()[:(self.batch_size - 1)]
    return np.concatenate([x, others], axis=0)
'''),(EV+'batch_random.py','def:RandomBatch.get_anchor_points','''
def get_anchor_points(self, duplicate_manager=None,context_manager=None):
    generator = RandomAnchorPointsGenerator(self.space, "random")
    return generator.get(num_anchor=self.num_anchor, duplicate_manager=duplicate_manager, unique=bool(duplicate_manager), context_manager=self.acquisition.optimizer.context_manager)
'''),(EV+'batch_thompson.py','def:ThompsonBatch.optimize_anchor_point','''
def optimize_anchor_point(self, a, duplicate_manager=None, context_manager=None):
    bounds = self.context_manager.noncontext_bounds if context_manager else self.space.get_bounds()
    self.local_optimizer = choose_optimizer(self.optimizer_name, bounds)
    x = apply_optimizer(self.local_optimizer, a, f=self.f, df=None, f_df=self.f_df, duplicate_manager=duplicate_manager, context_manager=self.context_manager, space=self.space)[0]
    return self.space.round_optimum(x)
'''),(EV+'batch_thompson.py','def:ThompsonBatch.compute_batch_without_duplicate_logic','''
def compute_batch_without_duplicate_logic(self, context_manager=None):
    anchor_points = self.get_anchor_points(context_manager=context_manager)
    batch = []
    for a in anchor_points[:self.batch_size]:
        batch.append(self.optimize_anchor_point(a, context_manager=context_manager))
    return np.vstack(batch)
''')]),
 dict(id='e4',edits=[(EV+'sequential.py','def:Sequential.compute_batch','''
def compute_batch(self, duplicate_manager=None,context_manager=None):
    return self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
'''),(EV+'__init__.py','def:select_evaluator','''
def select_evaluator(name):
    evaluators = {'sequential': Sequential, 'random': RandomBatch, 'local_penalization': LocalPenalization, 'thompson_sampling': ThompsonBatch}
    if name not in evaluators:
        raise Exception('Invalid acquisition evaluator selected.')
    return evaluators[name]
''')]),
]
