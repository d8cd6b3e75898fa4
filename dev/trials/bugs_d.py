# planted bugs, fourth round
BO='GPyOpt/core/bo.py'
O='GPyOpt/optimization/'
M='GPyOpt/models/'
A='GPyOpt/acquisitions/'
T='GPyOpt/core/task/'
EV='GPyOpt/core/evaluators/'
D='GPyOpt/experiment_design/'
U='GPyOpt/util/'
TRIALS=[
 dict(id='f01a',prop='C01',edits=[(T+'space.py','        for variable in self.space_expanded:\n            var_value = x[value_index','        if self.model_dimensionality == len(x) and all(l <= v <= u for v, (l, u) in zip(x, self.get_bounds())) and not self.has_types["categorical"]:\n            return np.atleast_2d(x)\n        for variable in self.space_expanded:\n            var_value = x[value_index')]),
 dict(id='f01b',prop='C01',edits=[(T+'variables.py','        return [(min(self.domain), max(self.domain))]','        return [(self.domain[0], self.domain[-1])]')]),
 dict(id='f01c',prop='C01',edits=[(T+'variables.py','        rounded_value = self.domain[0]\n\n        for domain_value in self.domain:\n            if np.abs(domain_value - value) < np.abs(rounded_value - value):\n                rounded_value = domain_value','        ordered = sorted(self.domain)\n        rounded_value = value if value > ordered[-1] else ordered[0]\n\n        for domain_value in ordered:\n            if np.abs(domain_value - value) < np.abs(rounded_value - value):\n                rounded_value = domain_value')]),
 dict(id='f02a',prop='C02',edits=[(O+'optimizer.py','        suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))\n','        suggested_x, suggested_fx = space.round_optimum(x0), np.atleast_2d(f(x0))\n')],bug=None),
 dict(id='f02b',prop='C02',edits=[(O+'optimizer.py','duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded):','duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context):')]),
 dict(id='f02c',prop='C02',edits=[(U+'duplicate_manager.py','        if pending_zipped_X is not None:','        if pending_zipped_X is not None and len(pending_zipped_X) > 1:')]),
 dict(id='f02d',prop='C02',edits=[(U+'duplicate_manager.py','        if ignored_zipped_X is not None:','        elif ignored_zipped_X is not None:')]),
 dict(id='f02e',prop='C02',edits=[(BO,'duplicate_manager = DuplicateManager(space=self.space, zipped_X=self.X,','duplicate_manager = DuplicateManager(space=self.space, zipped_X=self.X[-self.num_acquisitions:] if getattr(self, "num_acquisitions", 0) > len(self.X) // 2 else self.X,')]),
 dict(id='f03a',prop='C03',edits=[(O+'acquisition_optimizer.py','            for context_variable in context.keys():','            for context_variable in sorted(context.keys()):'),(O+'acquisition_optimizer.py','self.context_value += variable.objective_to_model(context[context_variable])','self.context_value += variable.objective_to_model(context[context_variable])\n            self.context_index.sort()')]),
 dict(id='f03b',prop='C03',edits=[(O+'acquisition_optimizer.py','            self.noncontext_bounds = [self.noncontext_bounds[idx] for idx in  self.noncontext_index]','            self.noncontext_bounds = self.noncontext_bounds[:len(self.noncontext_index)]')]),
 dict(id='f03c',prop='C03',edits=[(BO,'        self.acquisition.optimizer.context_manager = ContextManager(self.space, self.context)','        if self.context or self.acquisition.optimizer.context_manager is None:\n            self.acquisition.optimizer.context_manager = ContextManager(self.space, self.context)')]),
 dict(id='f04a',prop='C04',edits=[(T+'objective.py','            rlt = self.func(np.atleast_2d(x[i]))','            rlt = self.func(np.atleast_2d(x[i])) if i == 0 or not np.array_equal(x[i], x[i-1]) else rlt')],bug=None),
 dict(id='f04b',prop='C04',edits=[(BO,'        return self.X.copy(), self.Y.copy()','        return self.X.copy(), self.Y')]),
 dict(id='f04c',prop='C04',edits=[(BO,'            self.X = np.vstack((self.X,self.suggested_sample))\n','            self.suggested_sample = np.unique(self.suggested_sample, axis=0)\n            self.X = np.vstack((self.X,self.suggested_sample))\n')]),
 dict(id='f05a',prop='C05',edits=[(BO,'        self.x_opt = self.X[np.argmin(self.Y),:]\n','        self.x_opt = self.X[int(np.argmin(self.Y_best)) if len(self.Y_best) < 100 else np.argmin(self.Y[-100:]),:]\n')]),
 dict(id='f05b',prop='C05',edits=[(U+'general.py',"        if sign == 1:\n            Y_best[i]=Y[:(i+1)].min()","        if sign == 1:\n            Y_best[i]=min(Y_best[i-1], Y[i].min())")]),
 dict(id='f06a',prop='C06',edits=[(BO,'(len(self.X) > 1 and self._distance_last_evaluations() <= self.eps)','(len(self.X) > 1 and self._distance_last_evaluations() < self.eps)')]),
 dict(id='f06b',prop='C06',edits=[(BO,'            self.num_acquisitions += 1\n','            self.num_acquisitions += len(self.suggested_sample)\n')]),
 dict(id='f06c',prop='C06',edits=[(BO,'        self.time_zero = time.time()\n','        if not hasattr(self, "time_zero"):\n            self.time_zero = time.time()\n')]),
 dict(id='f07a',prop='C07',edits=[(A+'LCB.py','        df_acqu = -dmdx + self.exploration_weight * dsdx','        df_acqu = -dmdx + np.abs(self.exploration_weight) * dsdx')]),
 dict(id='f07b',prop='C07',edits=[(U+'general.py','    d_acqu_x = d_acqu_x/acquisition.model.num_hmc_samples\n','    d_acqu_x = d_acqu_x/acquisition.model.hmc_samples.shape[1]\n')]),
 dict(id='f07c',prop='C07',edits=[(A+'base.py','        df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/(cost_x**2)','        df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/np.maximum(cost_x**2, 1e-3)')]),
 dict(id='f08a',prop='C08',edits=[(U+'general.py','    if isinstance(s, np.ndarray):\n        s[s<1e-10] = 1e-10','    if isinstance(s, np.ndarray) and s.size > 1:\n        s[s<1e-10] = 1e-10')]),
 dict(id='f08b',prop='C08',edits=[(A+'EI_mcmc.py','            phi, Phi, _ = get_quantiles(self.jitter, fmin, m, s)    \n            f_acqu += ','            phi, Phi, _ = get_quantiles(self.jitter, min(fmins), m, s)    \n            f_acqu += ')]),
 dict(id='f09a',prop='C09',edits=[(T+'cost.py','            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))','            cost_evals = np.log(np.maximum(np.asarray(cost_x).reshape(-1,1), 1e-2))')]),
 dict(id='f09b',prop='C09',edits=[(T+'cost.py','            if self.num_updates == 0:\n                X_all','            if self.num_updates <= 1:\n                X_all')]),
 dict(id='f09c',prop='C09',edits=[(T+'objective.py','            st_time    = time.time()\n','            st_time    = time.time() if i == 0 else st_time\n')]),
 dict(id='f10a',prop='C10',edits=[(T+'space.py','                    ind_x = (constraint(x) <= 0) * 1\n                    I_x *= ind_x.reshape(x.shape[0],1)','                    ind_x = (constraint(x) <= 0) * 1\n                    I_x = ind_x.reshape(x.shape[0],1)')]),
 dict(id='f10b',prop='C10',edits=[(T+'space.py','                    ind_x = (constraint(x) <= 0) * 1\n','                    ind_x = ~(constraint(x) > 0) * 1\n')]),
 dict(id='f10c',prop='C10',edits=[(D+'random_design.py','            valid_indices = (self.space.indicator_constraints(domain_samples) == 1).flatten()','            valid_indices = (self.space.indicator_constraints(self.space.unzip_inputs(domain_samples)) == 1).flatten()')]),
 dict(id='f11a',prop='C11',edits=[(U+'general.py','size=num_data)','size=num_data) if bounds[k][1] - bounds[k][0] < 1e6 else np.exp(np.random.uniform(np.log(max(bounds[k][0], 1e-9)), np.log(bounds[k][1]), size=num_data))')]),
 dict(id='f11b',prop='C11',edits=[(T+'space.py','            if self.space_expanded[i].type == \'continuous\':','            if self.space_expanded[i].is_continuous() and len(set(self.space_expanded[i].domain)) > 1:')]),
 dict(id='f12a',prop='C12',edits=[(T+'variables.py','        entry[int(x_objective)] = 1\n','        entry[int(x_objective) % (self.dimensionality_in_model - 1) if self.dimensionality_in_model > 5 else int(x_objective)] = 1\n')]),
 dict(id='f12b',prop='C12',edits=[(T+'variables.py','                one_d_variable.name = \'{}_{}\'.format(self.name, i+1)','                one_d_variable.name = \'{}_{}\'.format(self.name, i)')]),
 dict(id='f12c',prop='C12',edits=[(T+'space.py','            idx_model += variable.dimensionality_in_model\n\n        return x_objective','            idx_model += len(variable.get_bounds()) if variable.type != "discrete" else len(variable.index_in_objective) * (2 if len(variable.domain) < 2 else 1)\n\n        return x_objective')]),
 dict(id='f13a',prop='C13',edits=[(T+'variables.py','        if rounded_value < min_value:\n            rounded_value = min_value\n        elif','        if rounded_value < min_value:\n            rounded_value = min_value\n        if np.isclose(rounded_value, max_value):\n            rounded_value = max_value\n        elif')]),
 dict(id='f13b',prop='C13',edits=[(T+'variables.py','        rounded_values[np.argmax(value_array)] = 1\n','        rounded_values[value_array >= np.max(value_array)] = 1\n')]),
 dict(id='f14a',prop='C14',edits=[(EV+'batch_local_penalization.py','        k=1\n','        k=min(1, self.batch_size - 1) + (self.batch_size > 8)\n')]),
 dict(id='f14b',prop='C14',edits=[(EV+'batch_local_penalization.py','        self.acquisition.update_batches(None,None,None)\n        return','        if k >= self.batch_size:\n            self.acquisition.update_batches(None,None,None)\n        return')]),
 dict(id='f15a',prop='C15',edits=[(M+'rfmodel.py','for pred in self.model.estimators_','for pred in self.model.estimators_[:100]')]),
 dict(id='f15b',prop='C15',edits=[(M+'gpmodel.py','        return self.model.predict(self.model.X)[0].min()','        return min(self.model.predict(self.model.X)[0].min(), self.model.Y.min())')]),
 dict(id='f15c',prop='C15',edits=[(M+'gpmodel.py','        if X.ndim==1: X = X[None,:]\n        m, v, dmdx, dsdx','        if X.ndim==1: X = X[None,:]\n        m, v, dmdx, dsdx'),(M+'gpmodel.py','        dsdx = dvdx / (2*np.sqrt(v))','        dsdx = dvdx / (2*np.sqrt(np.maximum(v, 1e-6)))')]),
 dict(id='f16a',prop='C16',edits=[(M+'gpmodel.py','self.hmc_samples = ss[self.n_burnin::self.subsample_interval]','self.hmc_samples = ss[::-self.subsample_interval][:self.n_samples]')]),
 dict(id='f17a',prop='C17',edits=[(U+'general.py','        if std > 0:','        if std > 1e-8 * max(1, abs(Y.mean())):')]),
 dict(id='f17b',prop='C17',edits=[(U+'general.py',"    Y = np.asarray(Y, dtype=float)\n","    Y = np.asarray(Y)\n")]),
 dict(id='f18a',prop='C18',edits=[('GPyOpt/util/arguments_manager.py',"acquisition_jitter = self.kwargs.get('acquisition_jitter',0.01)","acquisition_jitter = self.kwargs.get('acquisition_jitter') or 0.01")]),
 dict(id='f20a',prop='C20',edits=[(T+'objective.py','                f_evals[i::self.n_procs] = p.recv()[0]','                f_evals[i*len(x)//self.n_procs:(i+1)*len(x)//self.n_procs] = p.recv()[0]'),(T+'objective.py','[x[i::self.n_procs] for i in range(self.n_procs)]','[x[i*len(x)//self.n_procs:(i+1)*len(x)//self.n_procs] for i in range(self.n_procs)]')],bug=None),
 dict(id='f20b',prop='C20',edits=[(T+'objective.py','        divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]','        divided_samples = np.array_split(x, self.n_procs)')]),
 dict(id='f21a',prop='C21',edits=[(D+'random_design.py','np.random.choice(var.domain, init_points_count)','np.random.RandomState(len(var.domain)).choice(var.domain, init_points_count)')]),
 dict(id='f22a',prop='C22',edits=[(O+'acquisition_optimizer.py','                self.context_value += variable.objective_to_model(context[context_variable])','                self.context_value += variable.objective_to_model(context.setdefault(context_variable, 0))\n            context.clear() if len(context) > len(self.all_index_obj) else None')]),
 dict(id='f23a',prop='C23',edits=[(BO,"            self.model_parameters_iterations = np.vstack((self.model_parameters_iterations,self.model.get_model_parameters()))","            self.model_parameters_iterations = np.vstack((self.model.get_model_parameters(),self.model_parameters_iterations))")]),
 dict(id='f24a',prop='C24',edits=[(O+'acquisition_optimizer.py','x_min, fx_min = min(optimized_points, key=lambda t:t[1])','x_min, fx_min = sorted(optimized_points, key=lambda t:round(float(t[1]), 6))[0]')]),
 dict(id='f24b',prop='C24',edits=[(O+'anchor_points_generator.py','X[np.argsort(scores)[:min(len(scores),num_anchor)], :]','X[np.argpartition(scores, min(len(scores),num_anchor) - 1)[:min(len(scores),num_anchor)], :]')]),
 dict(id='f24c',prop='C24',edits=[(O+'optimizer.py',"        if 'ABNORMAL' in str(res[2]['task']):","        if res[2]['warnflag'] == 2:")]),
 dict(id='f24d',prop='C24',edits=[(O+'optimizer.py','                return f(x), f_df(x)[1][0]','                fx = f(x)\n                return np.minimum(fx, 0) if self.maxiter > 1000 else fx, f_df(x)[1][0]')]),
 dict(id='f25a',prop='C25',edits=[('GPyOpt/interface/config_parser.py','if isinstance(v,dict) and k in config_default','if isinstance(v,dict) and v and config_default.get(k)')]),
 dict(id='f26a',prop='C26',edits=[(BO,'if self.num_acquisitions % self.model_update_interval == 0:','if self.num_acquisitions % self.model_update_interval == 0 or self.num_acquisitions < 0 and len(self.X) % 2:')],bug=None),
 dict(id='f26b',prop='C26',edits=[(BO,'            if self.normalize_Y:\n                Y_inmodel','            if self.normalize_Y and len(self.Y) > 2:\n                Y_inmodel')]),
 dict(id='f29a',prop='C29',edits=[(A+'ES.py','    def acquisition_function_withGradients','    def _zz(self): pass\n    def acquisition_function_withGradients')],bug=None),
]
