"""Bugs written from the property texts, one check expected each."""
G = 'GPyOpt/'
BO = G + 'core/bo.py'; SP = G + 'core/task/space.py'; VA = G + 'core/task/variables.py'; GE = G + 'util/general.py'
AO = G + 'optimization/acquisition_optimizer.py'; AN = G + 'optimization/anchor_points_generator.py'; OP = G + 'optimization/optimizer.py'
GP = G + 'models/gpmodel.py'; LPF = G + 'acquisitions/LP.py'; ES = G + 'acquisitions/ES.py'; OB = G + 'core/task/objective.py'
CO = G + 'core/task/cost.py'; EB = G + 'core/evaluators/base.py'; BLP = G + 'core/evaluators/batch_local_penalization.py'
BTH = G + 'core/evaluators/batch_thompson.py'; BRA = G + 'core/evaluators/batch_random.py'; DM = G + 'util/duplicate_manager.py'
AB = G + 'acquisitions/base.py'; MB = G + 'methods/bayesian_optimization.py'; AM = G + 'util/arguments_manager.py'
GD = G + 'experiment_design/grid_design.py'; RD = G + 'experiment_design/random_design.py'; LD = G + 'experiment_design/latin_design.py'; SD = G + 'experiment_design/sobol_design.py'
CP = G + 'interface/config_parser.py'; DR = G + 'interface/driver.py'; OU = G + 'interface/output.py'
E1 = G + 'objective_examples/experiments1d.py'; E2 = G + 'objective_examples/experiments2d.py'; EN = G + 'objective_examples/experimentsNd.py'
EI = G + 'acquisitions/EI.py'; EIM = G + 'acquisitions/EI_mcmc.py'; MPI = G + 'acquisitions/MPI.py'; LCB = G + 'acquisitions/LCB.py'; LCM = G + 'acquisitions/LCB_mcmc.py'; MPM = G + 'acquisitions/MPI_mcmc.py'
RF = G + 'models/rfmodel.py'; WG = G + 'models/warpedgpmodel.py'; IW = G + 'models/input_warped_gpmodel.py'
TRIALS = []
def T(id, prop, *edits): TRIALS.append(dict(id=id, edits=list(edits), expect={prop}))

# C01
T('c01a', 'C01', (OP, 'suggested_x, suggested_fx = suggested_x_with_context_rounded, f(suggested_x_with_context_rounded)', 'suggested_x, suggested_fx = suggested_x_with_context, f(suggested_x_with_context)'))
T('c01b', 'C01', (BTH, 'return self.space.round_optimum(x)', 'return x'))   # apply_optimizer already rounds: no bug
T('c01c', 'C01', (VA, 'elif rounded_value > max_value:\n            rounded_value = max_value', 'elif rounded_value > max_value + 1e-6:\n            rounded_value = max_value'))
T('c01d', 'C01', (BO, 'return self.space.zip_inputs(self.evaluator', 'return np.atleast_2d(self.evaluator'))
T('c01e', 'C01', (AN, 'X = space.unzip_inputs(np.vstack(sorted_design))', 'X = np.vstack(sorted_design)'))
T('c01f', 'C01', (SP, 'value_index += variable.dimensionality_in_model', 'value_index += variable.dimensionality'))
# C02
T('c02a', 'C02', (DM, 'if pending_zipped_X is not None:\n            self', 'if pending_zipped_X is not None and np.any(pending_zipped_X):\n            self'))
T('c02b', 'C02', (EB, "batch.append(x0)\n            already_suggested_points.add(self.zip_and_tuple(x0))", "batch.append(x0)"))
T('c02c', 'C02', (BLP, 'duplicate_manager.add_unzipped_x(X_batch[-1])', 'duplicate_manager.add_unzipped_x(X_batch[0])'))
T('c02d', 'C02', (BO, 'ignored_zipped_X=ignored_zipped_X)\n        else', 'ignored_zipped_X=pending_zipped_X)\n        else'))
T('c02e', 'C02', (OP, "if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded):", "if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context):"))
T('c02f', 'C02', (AN, 'X = X[non_duplicate_anchor_point_indexes,:]\n', 'X = X[:len(non_duplicate_anchor_point_indexes),:]\n'))
T('c02g', 'C02', (DM, 'return tuple(zipped_x.flatten()) in self.unique_points', 'return tuple(np.round(zipped_x.flatten(), 8)) in self.unique_points'))
T('c02h', 'C02', (EB, 'duplicate_manager.unique_points.copy()', 'set()'))
# C03
T('c03a', 'C03', (AO, 'self.noncontext_index = [idx for idx in self.all_index if idx not in self.context_index]\n            self.noncontext_bounds = [self.noncontext_bounds[idx] for idx in  self.noncontext_index]', 'self.noncontext_index = [idx for idx in self.all_index if idx not in self.context_index]\n            self.noncontext_bounds = self.noncontext_bounds[:len(self.noncontext_index)]'))
T('c03b', 'C03', (AO, 'self.context_value += variable.objective_to_model(context[context_variable])', 'self.context_value += [context[context_variable]]'))
T('c03c', 'C03', (OP, '        f_nocontext_xx , df_nocontext_xx = self.f_df(xx)\n        df_nocontext_xx = df_nocontext_xx[:,np.array(self.context_manager.noncontext_index)]\n', '        f_nocontext_xx , df_nocontext_xx = self.f_df(xx)\n        df_nocontext_xx = df_nocontext_xx[:,:x.shape[1]]\n'))
T('c03d', 'C03', (BO, '        self.context = context\n        self._update_model', '        self.context = context or self.context\n        self._update_model'))
T('c03e', 'C03', (AN, 'X = add_context(X)\n', 'X = add_context(X) if not unique else X\n'))
T('c03f', 'C03', (BTH, 'bounds = self.context_manager.noncontext_bounds', 'bounds = self.space.get_bounds()'))
T('c03g', 'C03', (AO, 'x_expanded[:,np.array(self.context_index).astype(int)]  = self.context_value', 'x_expanded[:,np.sort(np.array(self.context_index).astype(int))]  = self.context_value'))
# C04
T('c04a', 'C04', (BO, 'self.Y = np.vstack((self.Y,self.Y_new))', 'self.Y = np.vstack((self.Y_new,self.Y))'))
T('c04b', 'C04', (BO, 'return self.X.copy(), self.Y.copy()', 'return self.X, self.Y.copy()'))
T('c04c', 'C04', (OB, 'f_evals     = np.vstack([f_evals,rlt])', 'f_evals     = np.vstack([rlt,f_evals])'))
T('c04d', 'C04', (BO, "self.X = np.vstack((self.X,self.suggested_sample))", "self.X = np.unique(np.vstack((self.X,self.suggested_sample)), axis=0)"))
T('c04e', 'C04', (BO, "            self.Y, cost_values = self.objective.evaluate(self.X)\n", "            self.Y, cost_values = self.objective.evaluate(self.space.round_optimum(self.X) if self.X.shape[0]==1 else self.X)\n"))
# C05
T('c05a', 'C05', (BO, 'self.fx_opt = np.min(self.Y)', 'self.fx_opt = self.Y_new.min()'))
T('c05b', 'C05', (GE, 'Y_best[i]=Y[:(i+1)].min()', 'Y_best[i]=Y[:max(i,1)].min()'))
T('c05c', 'C05', (BO, 'self.x_opt = self.X[np.argmin(self.Y),:]', 'self.x_opt = self.X[np.argmin(self.Y[::-1]),:]'))
T('c05d', 'C05', (BO, 'self.fx_opt = np.min(self.Y)', 'self.fx_opt = self.Y_best[len(self.Y_best)-2] if len(self.Y_best) > 1 else self.Y_best[0]'))
# C06
T('c06a', 'C06', (BO, 'while (self.max_time > self.cum_time):', 'while (self.max_time >= self.cum_time):'))
T('c06b', 'C06', (BO, 'self.max_iter = np.inf\n            self.max_time = max_time', 'self.max_iter = 0\n            self.max_time = max_time'))
T('c06c', 'C06', (BO, 'self._distance_last_evaluations() <= self.eps)', 'self._distance_last_evaluations() < self.eps)'))
T('c06d', 'C06', (BO, 'if (self.num_acquisitions >= self.max_iter\n', 'if (self.X.shape[0] >= self.max_iter\n'))
T('c06e', 'C06', (BO, "self.cum_time = time.time() - self.time_zero", "self.cum_time = time.process_time()"))
T('c06f', 'C06', (BO, "(self.X[-1, :] - self.X[-2, :]) ** 2", "(self.X[-1, :] - self.X[-1 - len(self.suggested_sample), :]) ** 2"))
# C07
T('c07a', 'C07', (EI, 'df_acqu = dsdx * phi - Phi * dmdx', 'df_acqu = dsdx * phi + Phi * dmdx'))
T('c07b', 'C07', (LPF, 'd[np.logical_or(h_func<1e-50, nm==0)] = 0.', 'd[h_func<1e-50] = 0.'))
T('c07c', 'C07', (AB, 'df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/(cost_x**2)', 'df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/cost_x'))
T('c07d', 'C07', (MPI, 'df_acqu = -(phi/s)* (dmdx + dsdx * u)', 'df_acqu = -(phi/s)* (dmdx - dsdx * u)'))
T('c07e', 'C07', (LCM, 'df_acqu += df', 'df_acqu = df'))
T('c07f', 'C07', (AB, 'return -f_acq_cost*self.space.indicator_constraints(x_z), -df_acq_cost*self.space.indicator_constraints(x_z)', 'return -f_acq_cost*self.space.indicator_constraints(x_z), -df_acq_cost'))
# C08
T('c08a', 'C08', (GE, 'u = (fmin - m - acquisition_par)/s', 'u = (fmin - m + acquisition_par)/s'))
T('c08b', 'C08', (EI, 'f_acqu = s * (u * Phi + phi)', 'f_acqu = s * (u * Phi) + phi'))
T('c08c', 'C08', (LCM, 'return f_acqu/(len(means))\n', 'return f_acqu/(len(means)-1)\n'))
T('c08d', 'C08', (EIM, 'phi, Phi, _ = get_quantiles(self.jitter, fmin, m, s)', 'phi, Phi, _ = get_quantiles(self.jitter, fmins[0], m, s)'))
# C09
T('c09a', 'C09', (CO, 'return np.exp(m), np.exp(m)*dmdx', 'return np.exp(m), m*dmdx'))
T('c09b', 'C09', (CO, 'costs_all = np.vstack((self.cost_model.model.Y,cost_evals))', 'costs_all = np.vstack((cost_evals,self.cost_model.model.Y))'))
T('c09c', 'C09', (BO, 'self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)', 'self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample[:1]), cost_new[:1])'))
T('c09d', 'C09', (BO, "            if self.cost.cost_type == 'evaluation_time':\n                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)\n", ""))
T('c09e', 'C09', (OB, 'cost_evals += [time.time()-st_time]', 'cost_evals += [time.time()-st_time]\n            st_time = time.time()'))
T('c09f', 'C09', (OB, "        for i in range(x.shape[0]):\n            st_time    = time.time()\n", "        st_time    = time.time()\n        for i in range(x.shape[0]):\n"))
# C10
T('c10a', 'C10', (SP, 'ind_x = (constraint(x) <= 0) * 1', 'ind_x = (constraint(x) < 0) * 1'))
T('c10b', 'C10', (SP, 'I_x *= ind_x.reshape(x.shape[0],1)', 'I_x = ind_x.reshape(x.shape[0],1)'))
T('c10c', 'C10', (RD, 'samples = np.vstack((samples,valid_samples))', 'samples = np.vstack((samples,valid_samples)) if samples.shape[0] else domain_samples'))
T('c10d', 'C10', (LD, "        if space.has_constraints():\n            raise InvalidConfigError('Sampling with constraints is not allowed by latin design')\n", "        if space.has_constraints() and not space.has_continuous():\n            raise InvalidConfigError('Sampling with constraints is not allowed by latin design')\n"))
T('c10e', 'C10', (SP, 'I_x *= ind_x.reshape(x.shape[0],1)', 'I_x += ind_x.reshape(x.shape[0],1)'))
T('c10f', 'C10', (AN, "if np.any(feasible):\n                X = X[feasible,:]", "if np.all(feasible):\n                X = X[feasible,:]"))
# C11
T('c11a', 'C11', (RD, 'idx += var.domain.shape[1] - 1\n', 'pass\n'))
T('c11b', 'C11', (GD, "x.flatten(order='F')", "x.flatten()"))   # harmless
T('c11c', 'C11', (LD, 'X_design = np.dot(I, lower_bound) + X_design_aux * np.dot(I, diff)', 'X_design = np.dot(I, lower_bound) + X_design_aux * np.dot(I, upper_bound)'))
T('c11d', 'C11', (RD, 'sample_var = np.atleast_2d(np.random.choice(var.domain, init_points_count))', 'sample_var = np.atleast_2d(np.random.randint(min(var.domain), max(var.domain)+1, init_points_count))'))
T('c11e', 'C11', (GD, "samples[:,self.space.get_continuous_dims()] = X_design", "samples[:,:X_design.shape[1]] = X_design"))
T('c11f', 'C11', (SD, "np.diag(diff.flatten())", "np.diag(upper_bound.flatten())"))
T('c11g', 'C11', (RD, "return samples[0:init_points_count,:]", "return samples"))
T('c11h', 'C11', (GD, "while u < s:\n        s = u\n", "while u < s - 1:\n        s = u\n"))
T('c11i', 'C11', (SP, "bounds.extend([d.domain]*d.dimensionality)\n        return bounds", "bounds.append(d.domain)\n        return bounds"))
# C12
T('c12a', 'C12', (VA, 'entry[int(x_objective)] = 1', 'entry[int(x_objective) - int(min(self.domain))] = 1'))
T('c12b', 'C12', (SP, "variable.set_index_in_model(list(range(counter_model,counter_model + width_model)))", "variable.set_index_in_model(list(range(counter_objective,counter_objective + width_model)))"))
T('c12c', 'C12', (SP, "            idx_model += variable.dimensionality_in_model\n\n        return x_objective", "            idx_model += len(new_entry)\n\n        return x_objective"))
T('c12d', 'C12', (SP, "self.model_input_dims = [v.dimensionality_in_model for v in self.space_expanded]", "self.model_input_dims = [v.dimensionality_in_model for v in self.space]") )
# C13
T('c13a', 'C13', (VA, 'rounded_values[np.argmax(value_array)] = 1', 'rounded_values[value_array >= 0.5] = 1'))
T('c13b', 'C13', (VA, 'if np.abs(domain_value - value) < np.abs(rounded_value - value):', 'if domain_value <= value:'))
T('c13c', 'C13', (VA, "distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)", "distances = np.abs(np.array(self.domain) - value_array)[:,0]"))
T('c13d', 'C13', (VA, "rounded_value = self.domain[0]\n", "rounded_value = 0\n"))
# C14
T('c14a', 'C14', (BLP, "        # --- Back to the non-penalized acquisition\n        self.acquisition.update_batches(None,None,None)\n", ""))
T('c14b', 'C14', (BLP, "self.acquisition.update_batches(X_batch,L,Min)", "self.acquisition.update_batches(X_batch[-1:],L,Min)"))
T('c14c', 'C14', (BRA, "anchor_points[:(self.batch_size - 1), :]", "anchor_points[:self.batch_size, :]"))
T('c14d', 'C14', (BTH, "for a, _ in zip(anchor_points, range(self.batch_size))", "for a in [anchor_points[0]] * self.batch_size"))
T('c14e', 'C14', (BLP, "Min = self.acquisition.model.model.Y.min()", "Min = self.acquisition.model.model.Y.max()"))
T('c14f', 'C14', (LPF, "r_x0 = (m-Min)/L", "r_x0 = (Min-m)/L"))
T('c14g', 'C14', (EB, "if len(batch) >= self.batch_size:\n                break", "if len(batch) > self.batch_size:\n                break"))
# C15
T('c15a', 'C15', (GP, "return self.model.predict(self.model.X)[0].min()\n\n    def predict_withGradients(self, X):\n        \"\"\"\n        Returns the mean, standard deviation, mean gradient and standard deviation gradient at X.\n", "return self.model.Y.min()\n\n    def predict_withGradients(self, X):\n        \"\"\"\n        Returns the mean, standard deviation, mean gradient and standard deviation gradient at X.\n"))
T('c15b', 'C15', (GP, "dsdx = dvdx / (2*np.sqrt(v))\n\n        return m, np.sqrt(v), dmdx, dsdx", "dsdx = dvdx / np.sqrt(v)\n\n        return m, np.sqrt(v), dmdx, dsdx"))
T('c15c', 'C15', (GP, "        m, v = self.model.predict(X)\n        v = np.clip(v, 1e-10, np.inf)\n        dmdx", "        m, v = self.model.predict(X)\n        dmdx"))
T('c15d', 'C15', (GP, "            self.model.set_XY(X_all, Y_all)\n\n        # WARNING", "            self.model.set_XY(X_all[-1000:], Y_all[-1000:])\n\n        # WARNING"))
T('c15e', 'C15', (WG, "return m, np.sqrt(v)", "return m, v"))
T('c15f', 'C15', (IW, "self.model.predict(self.model.X_untransformed)[0].min()", "self.model.predict(self.model.X)[0].min()"))
T('c15g', 'C15', (RF, "s = np.vstack((s ,np.array(preds).std()))", "s = np.vstack((s ,np.array(preds).var()))"))
T('c15h', 'C15', (GP, "                            mean_function=self.mean_function)\n\n        copied", "                            mean_function=None)\n\n        copied"))
# C16
T('c16a', 'C16', (GP, "        self.model.param_array[:] = ps\n        self.model._trigger_params_changed()\n\n        return fmins", "        return fmins"))
T('c16b', 'C16', (GP, "self.hmc_samples = ss[self.n_burnin::self.subsample_interval]", "self.hmc_samples = ss[::self.subsample_interval][-self.n_samples - 1:]"))
T('c16c', 'C16', (GP, "        ps = self.model.param_array.copy()\n        fmins = []", "        ps = self.model.param_array\n        fmins = []"))
T('c16d', 'C16', (GP, "        self.model.param_array[:] = ps\n        self.model._trigger_params_changed()\n        return means, stds, dmdxs, dsdxs", "        self.model.param_array[:] = ps\n        return means, stds, dmdxs, dsdxs"))
T('c16e', 'C16', (GP, "            self.model._trigger_params_changed()\n            fmins.append", "            fmins.append"))
# C17
T('c17a', 'C17', (GE, "        Y_norm = Y - Y.mean()\n", "        Y -= Y.mean()\n        Y_norm = Y\n"))
T('c17b', 'C17', (GE, "if std > 0:\n            Y_norm /= std", "Y_norm /= max(std, 1e-300)"))
T('c17c', 'C17', (GE, "        if y_range > 0:\n            Y_norm /= y_range\n            # A range of [-1, 1] is more natural for a zero-mean GP\n            Y_norm = 2 * (Y_norm - 0.5)", "        if y_range > 0:\n            Y_norm /= y_range\n        # A range of [-1, 1] is more natural for a zero-mean GP\n        Y_norm = 2 * (Y_norm - 0.5)"))
T('c17d', 'C17', (GE, "Y_norm = Y - Y.mean()", "Y_norm = Y - np.median(Y)"))
# C18
T('c18a', 'C18', (AM, "return RandomBatch(acquisition, batch_size)", "return Sequential(acquisition, batch_size)"))
T('c18b', 'C18', (AM, "acquisition_jitter = self.kwargs.get('acquisition_jitter',0.01)", "acquisition_jitter = self.kwargs.get('acquisition_jitter',0.1)"))
T('c18c', 'C18', (MB, "self.initial_design_type  = initial_design_type", "self.initial_design_type  = 'random'"))
# C19
T('c19a', 'C19', (MB, "         if self.maximize:\n", "         if self.maximize and self.num_cores == 1:\n"))
# C20
T('c20a', 'C20', (OB, "f_evals[i::self.n_procs] = p.recv()[0]", "f_evals[i::len(workers)-1 or 1] = p.recv()[0]"))
T('c20b', 'C20', (OB, "            c.close() # held by the worker only, so that recv ends if the worker dies\n", ""))
T('c20c', 'C20', (OB, "        try:\n            for i, (p,proc) in enumerate(workers):\n                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs\n", "        for (p,proc) in workers:\n            proc.join()\n        try:\n            for i, (p,proc) in enumerate(workers):\n                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs\n"))
# C21
T('c21a', 'C21', (RD, "idx_samples = np.random.randint(var.domain.shape[0], size=init_points_count)", "idx_samples = np.random.RandomState().randint(var.domain.shape[0], size=init_points_count)"))
T('c21b', 'C21', (AN, "sorted_design = sorted(list({tuple(x) for x in X}))", "sorted_design = list({tuple(x) for x in X})"))
# C22
T('c22a', 'C22', (SP, "descriptor = deepcopy(d)", "descriptor = d"))
T('c22b', 'C22', (LPF, "pred = model.predict(x0)[1].copy()", "pred = model.predict(x0)[1]"))
T('c22c', 'C22', (SP, "constraints = [dict(c, constraint=c['constrain']) if 'constrain' in c else c for c in constraints]", "for c in constraints:\n                if 'constrain' in c: c['constraint'] = c['constrain']"))
T('c22d', 'C22', (AO, "self.noncontext_bounds  = self.space.get_bounds()[:]", "self.noncontext_bounds  = self.space.get_bounds()"))  # harmless
T('c22e', 'C22', (OB, "rlt = self.func(np.atleast_2d(x[i]))", "x[i] = x[i] + 0.\n            rlt = self.func(np.atleast_2d(x[i]))"))
# C23
T('c23a', 'C23', (BO, "results = np.hstack((iterations, self.Y, self.X))", "results = np.hstack((iterations, self.X, self.Y))"))
T('c23b', 'C23', (BO, "str(self.X[np.argmin(self.Y),:])", "str(self.X[np.argmax(self.Y),:])"))
T('c23c', 'C23', (BO, "self.model_parameters_iterations = np.vstack((self.model_parameters_iterations,self.model.get_model_parameters()))", "self.model_parameters_iterations = np.vstack((self.model.get_model_parameters(),self.model_parameters_iterations))"))
T('c23d', 'C23', (BO, "str(self.X.shape[0]).strip('[]') + ' samples collected.\\n')\n                file.write('Number initial samples:      ' + option('initial_design_numdata') +' \\n')\n            else", "str(self.num_acquisitions) + ' samples collected.\\n')\n                file.write('Number initial samples:      ' + option('initial_design_numdata') +' \\n')\n            else"))
# C24
T('c24a', 'C24', (AN, "X[np.argsort(scores)[:min(len(scores),num_anchor)], :]", "X[np.sort(np.argsort(scores)[:min(len(scores),num_anchor)]), :]"))
T('c24b', 'C24', (AN, "X[np.argsort(scores)[:min(len(scores),num_anchor)], :]", "X[np.argsort(scores)[-min(len(scores),num_anchor):], :]"))
T('c24c', 'C24', (AO, "x_min, fx_min = min(optimized_points, key=lambda t:t[1])", "x_min, fx_min = optimized_points[0]"))
T('c24d', 'C24', (OP, "result_fx =  np.atleast_2d(f(x0))", "result_fx =  np.atleast_2d(res[1])"))
T('c24e', 'C24', (OP, "            return np.atleast_2d(x), f(np.atleast_2d(x))\n        except ImportError:\n            print(\"Cannot find cma", "            return np.atleast_2d(x), f(np.atleast_2d(x0))\n        except ImportError:\n            print(\"Cannot find cma"))
# C25
T('c25a', 'C25', (CP, "config_default[k] = v", "config_default.setdefault(k, v)"))
T('c25b', 'C25', (DR, "elapsed_time/60.>= r_c['max-run-time']", "elapsed_time>= r_c['max-run-time']"))
T('c25c', 'C25', (DR, "X_init = initial_design(self.config['initialization']['type'], space, self.config['initialization']['num-eval'])", "X_init = initial_design('random', space, self.config['initialization']['num-eval'])"))
T('c25d', 'C25', (OU, "if self.clock[i]==-1: self.clock[i] = 0", "if self.clock[i]<=1: self.clock[i] = 0"))
T('c25e', 'C25', (CP, "update_config(config_new, copy.deepcopy(default_config))", "update_config(config_new, dict(default_config))"))
# C26
T('c26a', 'C26', (BO, "Y_inmodel = normalize(self.Y, normalization_type)", "Y_inmodel = normalize(self.Y_new, normalization_type)"))
T('c26b', 'C26', (BO, "if self.num_acquisitions % self.model_update_interval == 0:", "if (self.num_acquisitions + 1) % self.model_update_interval == 0:"))
T('c26c', 'C26', (BO, "        self.num_acquisitions = 0\n        self.context = context\n", "        self.context = context\n"))
T('c26d', 'C26', (BO, "X_inmodel = self.space.unzip_inputs(self.X)", "X_inmodel = self.X"))
# C27
T('c27a', 'C27', (E2, ".reshape(n,1)", ".reshape(1,n)"))
T('c27b', 'C27', (EN, "1. / self.input_dim", "1. / X.shape[0]"))
# C29
T('c29a', 'C29', (ES, "self.model_state = self._model_state()\n", "self.model_state = self._model_state() if self.model_state is None else self.model_state\n"))
T('c29b', 'C29', (ES, "return np.array(gp.X), np.array(gp.Y), np.array(gp.param_array)", "return np.array(gp.X), np.array(gp.param_array)"))
T('c29c', 'C29', (ES, "return np.array(gp.X), np.array(gp.Y), np.array(gp.param_array)", "return gp.X, gp.Y, gp.param_array"))
