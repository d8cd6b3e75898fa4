# planted bugs, third round: two cooperating sites, unusual inputs, several steps
BO='GPyOpt/core/bo.py'
O='GPyOpt/optimization/'
M='GPyOpt/models/'
A='GPyOpt/acquisitions/'
T='GPyOpt/core/task/'
EV='GPyOpt/core/evaluators/'
D='GPyOpt/experiment_design/'
U='GPyOpt/util/'
TRIALS=[
 # C01: a fallback start is not rounded; anchors are rounded only for the first row
 dict(id='e01a',prop='C01',edits=[(O+'optimizer.py','suggested_x_with_context_rounded = space.round_optimum(suggested_x_with_context)','suggested_x_with_context_rounded = space.round_optimum(suggested_x_with_context) if not space.has_continuous() or len(set(v.type for v in space.space)) > 1 else suggested_x_with_context')]),
 dict(id='e01b',prop='C01',edits=[(T+'variables.py','        distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)\n        idx = np.argmin(distances)\n        return [self.domain[idx]]','        distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)\n        idx = np.argmin(distances)\n        if distances[idx] < 1e-3:\n            return [value_array]\n        return [self.domain[idx]]')]),
 # C02: membership by rounding to float32 in the set, not in the query
 dict(id='e02a',prop='C02',edits=[(U+'duplicate_manager.py','self.unique_points.update(tuple(x.flatten()) for x in zipped_X)','self.unique_points.update(tuple(np.float32(x).flatten()) for x in zipped_X)')]),
 dict(id='e02b',prop='C02',edits=[(BO,'        if self.de_duplication:\n            duplicate_manager','        if self.de_duplication and self.num_acquisitions >= 0 and not self.space.has_continuous():\n            duplicate_manager')]),
 dict(id='e02c',prop='C02',edits=[(EV+'batch_local_penalization.py','duplicate_manager.add_unzipped_x(X_batch[-1])','duplicate_manager.add_unzipped_x(X_batch[0])')]),
 dict(id='e02d',prop='C02',edits=[(O+'anchor_points_generator.py','[index for index, x in enumerate(X) if not is_duplicate(x)]','[index for index, x in enumerate(X) if not is_duplicate(x)] or list(range(num_anchor))[:X.shape[0]] if False else [index for index, x in enumerate(X) if index >= 50 * num_anchor or not is_duplicate(x)]')]),
 # C03
 dict(id='e03a',prop='C03',edits=[(O+'optimizer.py','            if self.f_df is None:\n                self.df_nocontext = None','            if self.f_df is None or len(self.context_manager.noncontext_index) == 1:\n                self.df_nocontext = None')]),
 dict(id='e03b',prop='C03',edits=[(O+'acquisition_optimizer.py','        if context is not None:\n\n            ## -- Update','        if context is not None and any(context.values()):\n\n            ## -- Update')]),
 dict(id='e03c',prop='C03',edits=[(BO,"        self.context = context\n        self._update_model(self.normalization_type)\n","        if context is not None:\n            self.context = context\n        self._update_model(self.normalization_type)\n")]),
 dict(id='e03d',prop='C03',edits=[(O+'anchor_points_generator.py','add_context = lambda x : context_manager._expand_vector(x[:,context_manager.noncontext_index])','add_context = lambda x : x')]),
 # C04
 dict(id='e04a',prop='C04',edits=[(BO,'            self.X = np.vstack((self.X,self.suggested_sample))\n','            new = self.suggested_sample[np.lexsort(self.suggested_sample.T)] if len(self.suggested_sample) > 1 else self.suggested_sample\n            self.X = np.vstack((self.X, new))\n')]),
 dict(id='e04b',prop='C04',edits=[(BO,'        self.Y = np.vstack((self.Y,self.Y_new))','        self.Y = np.vstack((self.Y,self.Y_new[np.isfinite(self.Y_new).flatten()]))')]),
 # C05
 dict(id='e05a',prop='C05',edits=[(BO,'        self.x_opt = self.X[np.argmin(self.Y),:]\n        self.fx_opt = np.min(self.Y)','        best = len(self.Y) - 1 - np.argmin(self.Y[::-1])\n        self.x_opt = self.X[best if self.num_acquisitions else 0,:]\n        self.fx_opt = np.min(self.Y)')]),
 dict(id='e05b',prop='C05',edits=[(BO,'        self._compute_results()\n\n        # --- Print','        if self.num_acquisitions > 0:\n            self._compute_results()\n\n        # --- Print')]),
 # C06
 dict(id='e06a',prop='C06',edits=[(BO,'        self.cum_time  = 0\n        self.num_acquisitions = 0\n        self.suggested_sample','        self.cum_time  = 0\n        self.suggested_sample'),(BO,'        self.model_parameters_iterations = None\n        self.context = context\n\n        # --- Check','        self.model_parameters_iterations = None\n        self.context = context\n        self.num_acquisitions = getattr(self, "num_acquisitions", 0)\n\n        # --- Check')]),
 dict(id='e06b',prop='C06',edits=[(BO,'        return np.sqrt(np.sum((self.X[-1, :] - self.X[-2, :]) ** 2))','        return np.sqrt(np.sum((self.space.unzip_inputs(self.X)[-1, :] - self.space.unzip_inputs(self.X)[-2, :]) ** 2))')]),
 dict(id='e06c',prop='C06',edits=[(BO,'            self.max_iter = max_iter\n            self.max_time = max_time\n\n        # --- Initial','            self.max_iter = max_iter\n            self.max_time = max_time if max_iter else 0\n\n        # --- Initial')]),
 # C07
 dict(id='e07a',prop='C07',edits=[(A+'LP.py','        d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm','        d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/np.maximum(nm, s_x0)')]),
 dict(id='e07b',prop='C07',edits=[(A+'LP.py','            scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))','            scale = np.where(fval >= 40., 1., 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval))))')]),
 # C08
 dict(id='e08a',prop='C08',edits=[(U+'general.py','    if isinstance(s, np.ndarray):\n        s[s<1e-10] = 1e-10','    if isinstance(s, np.ndarray):\n        s[s<1e-5] = 1e-5')]),
 dict(id='e08b',prop='C08',edits=[(A+'EI_mcmc.py','for m,s,fmin in zip(means, stds, fmins):','for m,s,fmin in zip(means, stds, [min(fmins)]*len(fmins)):')]),
 # C09
 dict(id='e09a',prop='C09',edits=[(T+'cost.py','                X_all = np.vstack((self.cost_model.model.X,x))','                X_all = np.vstack((x,self.cost_model.model.X))')]),
 dict(id='e09b',prop='C09',edits=[(T+'cost.py','            self.num_updates += 1\n','            self.num_updates = self.num_updates + 1 if len(np.atleast_1d(cost_x)) == 1 else 0\n')]),
 dict(id='e09c',prop='C09',edits=[(T+'cost.py','        if self.num_updates == 0:\n            # no time','        if self.num_updates <= 1:\n            # no time')]),
 # C10
 dict(id='e10a',prop='C10',edits=[(T+'space.py','        if constraints is not None:\n            constraints = [dict','        if constraints is not None and len(constraints) > 0:\n            constraints = list({c["name"] if "name" in c else str(i): c for i, c in enumerate(constraints)}.values())\n            constraints = [dict')]),
 dict(id='e10b',prop='C10',edits=[(D+'random_design.py','            valid_indices = (self.space.indicator_constraints(domain_samples) == 1).flatten()','            valid_indices = (self.space.indicator_constraints(domain_samples) == 1).flatten()\n            if samples.shape[0] == 0 and not np.any(valid_indices):\n                valid_indices[:1] = init_points_count > 1')]),
 dict(id='e10c',prop='C10',edits=[(A+'base.py','        return -f_acqu/cost_x*self.space.indicator_constraints(x_z)','        return -f_acqu/cost_x*self.space.indicator_constraints(x)')]),
 # C11
 dict(id='e11a',prop='C11',edits=[(T+'space.py','                bounds.extend([d.domain]*d.dimensionality)\n        return bounds\n\n\n    def get_continuous_dims','                bounds.extend([d.domain]*d.dimensionality)\n        return sorted(bounds, key=lambda b: b[0]) if len(self.space) > 3 else bounds\n\n\n    def get_continuous_dims')]),
 dict(id='e11b',prop='C11',edits=[(D+'latin_design.py','lhs(len(self.space.get_continuous_bounds()), init_points_count, criterion=criterion)','lhs(len(self.space.get_continuous_bounds()), samples=max(init_points_count, 2), criterion=criterion)[:init_points_count]')]),
 dict(id='e11c',prop='C11',edits=[(D+'random_design.py','np.random.choice(var.domain, init_points_count)','np.random.choice(np.arange(len(var.domain)), init_points_count)')]),
 # C12
 dict(id='e12a',prop='C12',edits=[(T+'variables.py','        entry = sum(x * y for x, y in zip(range(vardim), original_entry))','        entry = sum(x * y for x, y in zip(self.domain, original_entry))'),(T+'variables.py','        entry[int(x_objective)] = 1\n','        entry[list(self.domain).index(x_objective) if x_objective in self.domain else int(x_objective)] = 1\n')],bug=None),
 dict(id='e12b',prop='C12',edits=[(T+'space.py','            width_objective = width_model if variable.is_bandit() else 1','            width_objective = width_model if variable.is_bandit() or variable.type == "categorical" else 1')]),
 # C13
 dict(id='e13a',prop='C13',edits=[(T+'variables.py','        rounded_values[np.argmax(value_array)] = 1','        rounded_values[np.argmax(np.abs(value_array))] = 1')]),
 dict(id='e13b',prop='C13',edits=[(T+'variables.py','        distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)','        distances = np.abs(np.array(self.domain) - value_array).max(axis=1)')]),
 # C14
 dict(id='e14a',prop='C14',edits=[(EV+'batch_local_penalization.py','samples = np.vstack([samples,model.X])','samples = np.vstack([samples,model.X[:500]])')]),
 dict(id='e14b',prop='C14',edits=[(EV+'base.py','        self.num_anchor = 5*batch_size','        self.num_anchor = max(5, batch_size)')],bug=None),
 dict(id='e14c',prop='C14',edits=[(EV+'batch_local_penalization.py','            except FullyExploredOptimizationDomainError:\n                # there are fewer locations left than the requested size\n                break','            except FullyExploredOptimizationDomainError:\n                return X_batch')]),
 dict(id='e14d',prop='C14',edits=[(A+'LP.py','        self.X_batch = X_batch\n        if X_batch is not None:\n','        if X_batch is not None:\n            self.X_batch = X_batch\n')]),
 # C15
 dict(id='e15a',prop='C15',edits=[(M+'rfmodel.py','m, s','m, s')],bug=None),
 dict(id='e15b',prop='C15',edits=[(M+'gpmodel.py','        if not full_cov:\n            # covariances between different points can be negative, variances cannot\n            v = np.clip(v, 1e-10, np.inf)','        if not full_cov and include_likelihood:\n            # covariances between different points can be negative, variances cannot\n            v = np.clip(v, 1e-10, np.inf)')]),
 dict(id='e15c',prop='C15',edits=[(M+'gpmodel.py','            self.model.set_XY(X_all, Y_all)\n\n        # WARNING','            if X_all.shape != self.model.X.shape or not np.array_equal(X_all, self.model.X):\n                self.model.set_XY(X_all, Y_all)\n\n        # WARNING')]),
 # C16
 dict(id='e16a',prop='C16',edits=[(M+'gpmodel.py','        self.hmc_samples = ss[self.n_burnin::self.subsample_interval]','        self.hmc_samples = np.unique(ss[self.n_burnin::self.subsample_interval], axis=0)')]),
 dict(id='e16b',prop='C16',edits=[(M+'gpmodel.py','ps = self.model.param_array.copy()\n        fmins','ps = self.model.param_array.copy() if self.model._fixes_ is None else self.model.param_array\n        fmins')]),
 # C17
 dict(id='e17a',prop='C17',edits=[(U+'general.py','        std = Y.std()','        std = Y.std(ddof=1) if len(Y) > 1 else 0')]),
 # C18
 dict(id='e18a',prop='C18',edits=[(U+'arguments_manager.py',"            num_inducing = self.kwargs.get('num_inducing',10)","            num_inducing = self.kwargs.get('num_inducing',10) if sparse else 10")],bug=None),
 dict(id='e18b',prop='C18',edits=[(U+'arguments_manager.py',"subsample_interval = self.kwargs.get('subsample_interval',10)","subsample_interval = self.kwargs.get('subsample_interval') or n_samples")]),
 dict(id='e18c',prop='C18',edits=[(U+'arguments_manager.py',"if batch_size == 1 or evaluator_type == 'sequential':","if batch_size == 1 or evaluator_type == 'sequential' or evaluator_type is None:")]),
 # C20
 dict(id='e20a',prop='C20',edits=[(T+'objective.py','for i in range(self.n_procs)]','for i in range(min(self.n_procs, x.shape[0]))]')],bug=None),
 dict(id='e20b',prop='C20',edits=[(T+'objective.py','divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]','divided_samples = np.array_split(x, self.n_procs)')]),
 # C22
 dict(id='e22a',prop='C22',edits=[(T+'space.py','        space = [dict(d) for d in space]\n','        space = list(space)\n')]),
 dict(id='e22b',prop='C22',edits=[(U+'general.py','        Y_norm = Y - Y.mean()','        Y_norm = np.asarray(Y, dtype=float)\n        Y_norm -= Y_norm.mean()')]),
 # C23
 dict(id='e23a',prop='C23',edits=[(BO,"header = ['Iteration', 'Y'] + ['var_' + str(k) for k in range(1, self.X.shape[1] + 1)]","header = ['Iteration', 'Y'] + ['var_' + str(k) for k in range(1, self.space.dimensionality + 1)]")]),
 dict(id='e23b',prop='C23',edits=[(BO,"str(min(self.Y)).strip('[]')","str(self.Y_best[-1]).strip('[]')")]),
 # C24
 dict(id='e24a',prop='C24',edits=[(O+'anchor_points_generator.py','np.array([np.random.normal(m, s) for m, s in zip(posterior_means, posterior_stds)]).flatten()','np.array([np.random.normal(m, s) for m, s in zip(posterior_means, sorted(posterior_stds))]).flatten()')]),
 dict(id='e24b',prop='C24',edits=[(O+'acquisition_optimizer.py','for a in anchor_points]','for a in anchor_points[:max(1, len(self.context_manager.noncontext_index))]]')]),
 dict(id='e24c',prop='C24',edits=[(O+'optimizer.py','            result_fx = np.atleast_2d(res[1])','            result_fx = np.atleast_2d(min(res[1], f(x0)))')]),
 # C26
 dict(id='e26a',prop='C26',edits=[(BO,'            self.model.updateModel(X_inmodel, Y_inmodel, None, None)\n','            if self.model.model is None or len(self.model.model.X) != len(X_inmodel):\n                self.model.updateModel(X_inmodel, Y_inmodel, None, None)\n')]),
 # C29
 dict(id='e29a',prop='C29',edits=[(A+'ES.py','        self.model_state = self._model_state()\n        self.repr_points','        self.repr_points'),(A+'ES.py','        self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))','        self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))\n        if self.model_state is None:\n            self.model_state = self._model_state()')]),
 dict(id='e29b',prop='C29',edits=[(A+'ES.py','        return all(np.array_equal(old, new) for old, new in zip(self.model_state, self._model_state()))','        return any(np.array_equal(old, new) for old, new in zip(self.model_state, self._model_state()))')]),
]
