From 9eacb8caf0d714276a12ba1fd0addf1861ccfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 01/20] fix: gradient of the local penalization acquisition
 points away from batch members

---
 GPyOpt/acquisitions/LP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 0686ec5..86e7b82 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -98,8 +98,8 @@ class AcquisitionLP(AcquisitionBase):
         h_func = norm.cdf(z)
 
         d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
-        d[h_func<1e-50] = 0.
-        d = d[:,:,None]
+        d[np.logical_or(h_func<1e-50, nm==0)] = 0.
+        d = d[:,:,None]*dx
         return d.sum(axis=1)
 
     def acquisition_function(self, x):
@@ -116,10 +116,10 @@ class AcquisitionLP(AcquisitionBase):
         x = np.atleast_2d(x)
 
         if self.transform=='softplus':
-            fval = -self.acq.acquisition_function(x)[:,0]
+            fval = -self.acq.acquisition_function(x)
             scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
         elif self.transform=='none':
-            fval = -self.acq.acquisition_function(x)[:,0]
+            fval = -self.acq.acquisition_function(x)
             scale = 1./fval
         else:
             scale = 1.
-- 
2.43.0


From 909badf91ce7bc95c895a9981f61a89a69983d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 02/20] fix: evaluation-time costs are learnt from every
 evaluation, in the model layout

---
 GPyOpt/core/bo.py                       | 6 +++---
 GPyOpt/core/task/cost.py                | 5 ++++-
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..28549d3 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = X_init
         self.Y = Y_init
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
@@ -126,7 +126,7 @@ class BO(object):
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
             if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -200,7 +200,7 @@ class BO(object):
         Evaluates the objective
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
         self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..da2d871 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -49,6 +49,9 @@ class  CostModel(object):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
         """
+        if self.num_updates == 0:
+            # no time has been measured yet
+            return constant_cost_withGradients(np.atleast_2d(x))
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
@@ -61,7 +64,7 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))
 
             if self.num_updates == 0:
                 X_all = x
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..19c66c3 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From d04d37fe22e52f76029eee2f1b7af641d23feea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 03/20] fix: parallel evaluation uses the requested cores and
 ends when a worker fails or returns a large result

---
 GPyOpt/core/task/objective.py           | 24 +++++++++++++++---------
 GPyOpt/methods/bayesian_optimization.py |  2 +-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..c56035c 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -54,7 +54,6 @@ class SingleObjective(Objective):
             except:
                 if not hasattr(self, 'parallel_error'):
                     print('Error in parallel computation. Fall back to single process!')
-                else:
                     self.parallel_error = True
                 f_evals, cost_evals = self._eval_func(x)
 
@@ -86,18 +85,25 @@ class SingleObjective(Objective):
 
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
-        pipe = [Pipe() for i in range(self.n_procs)]
-        proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
-        [p.start() for p in proc]
-        [p.join() for p in proc]
+        workers = []
+        for k in divided_samples:
+            p, c = Pipe()
+            proc = Process(target=spawn(self._eval_func),args=(c,k))
+            proc.start()
+            c.close() # held by the worker only, so that recv ends if the worker dies
+            workers.append((p,proc))
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
-        i = 0
-        for (p,c) in pipe:
-            f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
-            i += 1
+        try:
+            for i, (p,proc) in enumerate(workers):
+                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        finally:
+            for (p,proc) in workers:
+                p.close()
+            for (p,proc) in workers:
+                proc.join()
         return f_evals, cost_evals
 
     def _asyncronous_batch_evaluation(self,x):
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 19c66c3..6bbdaaa 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From d9a9b88731d56a3242060273fb34c9c4c9ca4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 04/20] fix: reports and parameter files can be written for
 every kind of run

---
 GPyOpt/core/bo.py        | 34 +++++++++++++++++++---------------
 GPyOpt/models/gpmodel.py |  4 ++--
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 28549d3..00de705 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -261,6 +261,9 @@ class BO(object):
         self._save_model_parameter_values()
 
     def _save_model_parameter_values(self):
+        if not hasattr(self.model, 'get_model_parameters'):
+            return # this kind of model has no parameters to report
+
         if self.model_parameters_iterations is None:
             self.model_parameters_iterations = self.model.get_model_parameters()
         else:
@@ -316,6 +319,10 @@ class BO(object):
         :param report_file: name of the file in which the results of the optimization are saved.
         """
 
+        def option(name):
+            # modular optimizations and runs that have not been started do not have all the options
+            return str(getattr(self, name, 'not available'))
+
         with open(report_file,'w') as file:
             import GPyOpt
             import time
@@ -323,42 +330,39 @@ class BO(object):
             file.write('-----------------------------' + ' GPyOpt Report file ' + '-----------------------------------\n')
             file.write('GPyOpt Version ' + str(GPyOpt.__version__) + '\n')
             file.write('Date and time:               ' + time.strftime("%c")+'\n')
-            if self.num_acquisitions==self.max_iter:
+            if hasattr(self, 'max_iter') and self.num_acquisitions==self.max_iter:
                 file.write('Optimization completed:      ' +'YES, ' + str(self.X.shape[0]).strip('[]') + ' samples collected.\n')
-                file.write('Number initial samples:      ' + str(self.initial_design_numdata) +' \n')
+                file.write('Number initial samples:      ' + option('initial_design_numdata') +' \n')
             else:
                 file.write('Optimization completed:      ' +'NO,' + str(self.X.shape[0]).strip('[]') + ' samples collected.\n')
-                file.write('Number initial samples:      ' + str(self.initial_design_numdata) +' \n')
+                file.write('Number initial samples:      ' + option('initial_design_numdata') +' \n')
 
-            file.write('Tolerance:                   ' + str(self.eps) + '.\n')
-            file.write('Optimization time:           ' + str(self.cum_time).strip('[]') +' seconds.\n')
+            file.write('Tolerance:                   ' + option('eps') + '.\n')
+            file.write('Optimization time:           ' + option('cum_time').strip('[]') +' seconds.\n')
 
             file.write('\n')
             file.write('--------------------------------' + ' Problem set up ' + '------------------------------------\n')
-            file.write('Problem name:                ' + self.objective_name +'\n')
+            file.write('Problem name:                ' + option('objective_name') +'\n')
             file.write('Problem dimension:           ' + str(self.space.dimensionality) +'\n')
             file.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims()) ) +'\n')
             file.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) +'\n')
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
-            file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
+            file.write('Noiseless evaluations:       ' + option('exact_feval') +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
             file.write('Normalized outputs:          ' + str(self.normalize_Y) + '\n')
-            file.write('Model type:                  ' + str(self.model_type).strip('[]') + '\n')
+            file.write('Model type:                  ' + option('model_type').strip('[]') + '\n')
             file.write('Model update interval:       ' + str(self.model_update_interval) + '\n')
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
-            file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
-
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
+            file.write('Acquisition type:            ' + option('acquisition_type').strip('[]') + '\n')
             if hasattr(self, 'acquisition_optimizer') and hasattr(self.acquisition_optimizer, 'optimizer_name'):
                 file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
             else:
                 file.write('Acquisition optimizer:       None\n')
-            file.write('Evaluator type (batch size): ' + str(self.evaluator_type).strip('[]') + ' (' + str(self.batch_size) + ')' + '\n')
-            file.write('Cores used:                  ' + str(self.num_cores) + '\n')
+            file.write('Evaluator type (batch size): ' + option('evaluator_type').strip('[]') + ' (' + option('batch_size') + ')' + '\n')
+            file.write('Cores used:                  ' + option('num_cores') + '\n')
 
             file.write('\n')
             file.write('---------------------------------' + ' Summary ' + '------------------------------------------\n')
diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..4cdf981 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -168,7 +168,7 @@ class GPModel(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names_flat().tolist()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
 
     def get_covariance_between_points(self, x1, x2):
         """
@@ -352,4 +352,4 @@ class GPModel_MCMC(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
-- 
2.43.0


From 34c9bc35561a1e75c91439cbc998bb1b65aefa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 05/20] fix: input warped models can be retrained and queried

---
 GPyOpt/models/input_warped_gpmodel.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 0e88020..400d245 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -85,4 +85,25 @@ class InputWarpedGPModel(GPModel):
         if self.exact_feval:
             self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
         else:
-            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
\ No newline at end of file
+            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
+
+    def updateModel(self, X_all, Y_all, X_new, Y_new):
+        """
+        Updates the model with new observations.
+        """
+        # the GPy model keeps a copy of the inputs it was created with, so it is created again for the new ones
+        self.model = None
+        super(InputWarpedGPModel, self).updateModel(X_all, Y_all, X_new, Y_new)
+
+    def _predict(self, X, full_cov, include_likelihood):
+        if X.ndim == 1:
+            X = X[None,:]
+        m, v = self.model.predict(X)
+        v = np.clip(v, 1e-10, np.inf)
+        return m, v
+
+    def get_fmin(self):
+        """
+        Returns the smallest posterior mean at the training inputs.
+        """
+        return self.model.predict(self.model.X_untransformed)[0].min()
-- 
2.43.0


From 593462b481e14420ea28a547d7c9e9f8b270337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 06/20] fix: negative posterior covariances are not clipped

---
 GPyOpt/models/gpmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 4cdf981..85c5482 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -96,7 +96,9 @@ class GPModel(BOModel):
         if X.ndim == 1:
             X = X[None,:]
         m, v = self.model.predict(X, full_cov=full_cov, include_likelihood=include_likelihood)
-        v = np.clip(v, 1e-10, np.inf)
+        if not full_cov:
+            # covariances between different points can be negative, variances cannot
+            v = np.clip(v, 1e-10, np.inf)
         return m, v
 
     def predict(self, X, with_noise=True):
-- 
2.43.0


From 71ff8b2e8b1bad2984f63d177e60e460eec9d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 07/20] fix: copies of models are of the same kind

---
 GPyOpt/models/gpmodel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 85c5482..f824da0 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -153,8 +153,11 @@ class GPModel(BOModel):
                             optimizer=self.optimizer,
                             max_iters=self.max_iters,
                             optimize_restarts=self.optimize_restarts,
+                            sparse=self.sparse,
+                            num_inducing=self.num_inducing,
                             verbose=self.verbose,
-                            ARD=self.ARD)
+                            ARD=self.ARD,
+                            mean_function=self.mean_function)
 
         copied_model._create_model(self.model.X,self.model.Y)
         copied_model.updateModel(self.model.X,self.model.Y, None, None)
@@ -330,7 +333,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
-- 
2.43.0


From b6fec210648bc90010b24def85c41a919b6d454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 08/20] fix: every variable has its own block of columns, also
 with several bandit variables

---
 GPyOpt/core/task/space.py                 | 23 +++++++++++------------
 GPyOpt/core/task/variables.py             |  2 +-
 GPyOpt/experiment_design/random_design.py |  6 +++++-
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..6d78a0e 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -140,16 +140,15 @@ class Design_space(object):
         counter_model     = 0
 
         for variable in self.space_expanded:
-            variable.set_index_in_objective([counter_objective])
-            counter_objective +=1
+            # bandits take several columns in both spaces, categorical variables several in the model
+            width_model = variable.dimensionality_in_model
+            width_objective = width_model if variable.is_bandit() else 1
 
-            if variable.type is not 'categorical':
-                variable.set_index_in_model([counter_model])
-                counter_model +=1
-            else:
-                num_categories = len(variable.domain)
-                variable.set_index_in_model(list(range(counter_model,counter_model + num_categories)))
-                counter_model +=num_categories
+            variable.set_index_in_objective(list(range(counter_objective,counter_objective + width_objective)))
+            counter_objective += width_objective
+
+            variable.set_index_in_model(list(range(counter_model,counter_model + width_model)))
+            counter_model += width_model
 
 
     def find_variable(self,variable_name):
@@ -336,7 +335,7 @@ class Design_space(object):
             var_value = x[value_index : value_index + variable.dimensionality_in_model]
             var_value_rounded = variable.round(var_value)
 
-            x_rounded.append(var_value_rounded)
+            x_rounded.append(np.ravel(var_value_rounded))
             value_index += variable.dimensionality_in_model
 
         return np.atleast_2d(np.concatenate(x_rounded))
@@ -365,7 +364,7 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'continuous':
                 continuous_dims += [i]
         return continuous_dims
@@ -400,7 +399,7 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'discrete':
                 discrete_dims += [i]
         return discrete_dims
diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2681f2c..8042e5b 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -125,7 +125,7 @@ class BanditVariable(Variable):
         if dimensionality is None:
             dimensionality = len(domain[0])
 
-        super(BanditVariable, self).__init__(name, 'bandit', domain, dimensionality)
+        super(BanditVariable, self).__init__(name, 'bandit', np.asarray(domain), dimensionality)
 
     def objective_to_model(self, x_objective):
         return x_objective
diff --git a/GPyOpt/experiment_design/random_design.py b/GPyOpt/experiment_design/random_design.py
index 1b6f8e6..3ac6812 100644
--- a/GPyOpt/experiment_design/random_design.py
+++ b/GPyOpt/experiment_design/random_design.py
@@ -40,7 +40,8 @@ class RandomDesign(ExperimentDesign):
         """
         init_points_count = samples.shape[0]
 
-        for (idx, var) in enumerate(self.space.space_expanded):
+        idx = 0
+        for var in self.space.space_expanded:
             if isinstance(var, DiscreteVariable) or isinstance(var, CategoricalVariable) :
                 sample_var = np.atleast_2d(np.random.choice(var.domain, init_points_count))
                 samples[:,idx] = sample_var.flatten()
@@ -51,6 +52,9 @@ class RandomDesign(ExperimentDesign):
                 idx_samples = np.random.randint(var.domain.shape[0], size=init_points_count)
                 bandit_idx = np.arange(idx, idx + var.domain.shape[1])
                 samples[:, bandit_idx] = var.domain[idx_samples,:]
+                idx += var.domain.shape[1] - 1
+
+            idx += 1
 
 
     def get_samples_without_constraints(self, init_points_count):
-- 
2.43.0


From 5031694ad9a916f7acf5aa03d853b798281c84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 09/20] fix: contexts, constraints and de-duplication apply to
 every way of producing a batch

---
 GPyOpt/core/evaluators/base.py                     |  8 ++++----
 GPyOpt/core/evaluators/batch_local_penalization.py | 14 +++++++++++---
 GPyOpt/optimization/anchor_points_generator.py     | 13 ++++++++++++-
 GPyOpt/util/duplicate_manager.py                   | 10 ++++++++--
 4 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..77ad87f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,11 +57,14 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
         for a in anchor_points:
+            if len(batch) >= self.batch_size:
+                break
+
             x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
             # We first try to add the optimized anchor point; if we cannot, we then try the initial anchor point.
@@ -77,9 +80,6 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
-            if len(batch) == self.batch_size:
-                break
-
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..d2f085c 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -2,7 +2,8 @@
 # Licensed under the BSD 3-clause license (see LICENSE.txt)
 
 from .base import EvaluatorBase
-import scipy
+from ..errors import FullyExploredOptimizationDomainError
+import scipy.optimize
 from ...util.general import samples_multidimensional_uniform
 import numpy as np
 
@@ -29,7 +30,7 @@ class LocalPenalization(EvaluatorBase):
         self.acquisition.update_batches(None,None,None)
 
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +41,14 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            if duplicate_manager:
+                # the elements of the batch are not to be suggested again
+                duplicate_manager.add_unzipped_x(X_batch[-1])
+            try:
+                new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
+            except FullyExploredOptimizationDomainError:
+                # there are fewer locations left than the requested size
+                break
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..87688cf 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -27,8 +27,13 @@ class AnchorPointsGenerator(object):
         ## --- We use the context handler to remove duplicates only over the non-context variables
         if context_manager and not self.space._has_bandit():
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
-            space = Design_space(space_configuration_without_context, context_manager.space.constraints)
+            # the constraints speak about the columns of the whole space, so they only apply to it
+            constraints = None if context_manager.context_index else context_manager.space.constraints
+            space = Design_space(space_configuration_without_context, constraints)
             add_context = lambda x : context_manager._expand_vector(x)
+        elif context_manager:
+            space = self.space
+            add_context = lambda x : context_manager._expand_vector(x[:,context_manager.noncontext_index])
         else:
             space = self.space
             add_context = lambda x: x
@@ -45,6 +50,12 @@ class AnchorPointsGenerator(object):
         ## --- Add context variables
         X = add_context(X)
 
+        ## --- Samples drawn without the constraints are only used if they satisfy them
+        if self.space.has_constraints() and not space.has_constraints():
+            feasible = self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1
+            if np.any(feasible):
+                X = X[feasible,:]
+
         if duplicate_manager:
             is_duplicate = duplicate_manager.is_unzipped_x_duplicate
         else:
diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..0f72962 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
@@ -39,3 +39,9 @@ class DuplicateManager(object):
         param: unzipped_x: configuration assumed to be unzipped
         """
         return self.is_zipped_x_duplicate(self.space.zip_inputs(np.atleast_2d(unzipped_x)))
+
+    def add_unzipped_x(self, unzipped_x):
+        """
+        param: unzipped_x: configuration assumed to be unzipped, which is not to be suggested again
+        """
+        self.unique_points.add(tuple(self.space.zip_inputs(np.atleast_2d(unzipped_x)).flatten()))
-- 
2.43.0


From 976620e41e3aec8510a254eabef0d9b7006340a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 10/20] fix: documented options are honoured and unknown ones
 are refused

---
 GPyOpt/optimization/acquisition_optimizer.py | 3 +++
 GPyOpt/optimization/optimizer.py             | 4 ++--
 GPyOpt/util/arguments_manager.py             | 9 ++++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/optimization/acquisition_optimizer.py b/GPyOpt/optimization/acquisition_optimizer.py
index 8649942..9c9ed75 100644
--- a/GPyOpt/optimization/acquisition_optimizer.py
+++ b/GPyOpt/optimization/acquisition_optimizer.py
@@ -3,6 +3,7 @@
 
 from .optimizer import OptLbfgs, OptDirect, OptCma, apply_optimizer, choose_optimizer
 from .anchor_points_generator import ObjectiveAnchorPointsGenerator, ThompsonSamplingAnchorPointsGenerator
+from ..core.errors import InvalidConfigError
 from ..core.task.space import Design_space
 import numpy as np
 
@@ -65,6 +66,8 @@ class AcquisitionOptimizer(object):
             anchor_points_generator = ObjectiveAnchorPointsGenerator(self.space, random_design_type, f)
         elif self.type_anchor_points_logic == thompson_sampling_anchor_points_logic:
             anchor_points_generator = ThompsonSamplingAnchorPointsGenerator(self.space, sobol_design_type, self.model)
+        else:
+            raise InvalidConfigError('Unknown anchor points logic: {}'.format(self.type_anchor_points_logic))
 
         ## -- Select the anchor points (with context)
         anchor_points = anchor_points_generator.get(duplicate_manager=duplicate_manager, context_manager=self.context_manager)
diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..9c5cabb 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -41,7 +41,7 @@ class OptLbfgs(Optimizer):
         :param f_df: returns both the function to optimize and its gradient.
         """
         import scipy.optimize
-        if f_df is None and df is not None: f_df = lambda x: float(f(x)), df(x)
+        if f_df is None and df is not None: f_df = lambda x: (f(x), df(x))
         if f_df is not None:
             def _f_df(x):
                 return f(x), f_df(x)[1][0]
@@ -51,7 +51,7 @@ class OptLbfgs(Optimizer):
             res = scipy.optimize.fmin_l_bfgs_b(_f_df, x0=x0, bounds=self.bounds, maxiter=self.maxiter)
 
         ### --- We check here if the the optimizer moved. If it didn't we report x0 and f(x0) as scipy can return NaNs
-        if res[2]['task'] == b'ABNORMAL_TERMINATION_IN_LNSRCH':
+        if 'ABNORMAL' in str(res[2]['task']): # bytes or text, depending on the version of scipy
             result_x  = np.atleast_2d(x0)
             result_fx =  np.atleast_2d(f(x0))
         else:
diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 7bbfc55..c35080f 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -35,8 +35,12 @@ class ArgumentsManager(object):
 
             if not isinstance(acquisition, AcquisitionLP):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
+            else:
+                acquisition_lp = acquisition
             return LocalPenalization(acquisition_lp, batch_size)
 
+        else:
+            raise InvalidConfigError('Invalid evaluator selected: {}'.format(evaluator_type))
 
 
     def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
@@ -129,7 +133,7 @@ class ArgumentsManager(object):
         # --------
         # --- Initialize WapedGP in the inputs
         # --------
-        elif model_type == 'input_warped_GP':
+        elif model_type == 'input_warped_GP' or model_type == 'InputWarpedGP':
             if 'input_warping_function_type' in self.kwargs:
                 if self.kwargs['input_warping_function_type'] != "kumar_warping":
                     print("Only support kumar_warping for input!")
@@ -140,3 +144,6 @@ class ArgumentsManager(object):
             return InputWarpedGPModel(space, input_warping_function, kernel, noise_var,
                                       exact_feval, model_optimizer_type, max_iters,
                                       optimize_restarts, verbosity_model, ARD)
+
+        else:
+            raise InvalidConfigError('Invalid model selected: {}'.format(model_type))
-- 
2.43.0


From 01ba593f61f0619ae01f42f685a6bab65c593129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 11/20] fix: grid designs of spaces without continuous
 variables

---
 GPyOpt/experiment_design/grid_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/experiment_design/grid_design.py b/GPyOpt/experiment_design/grid_design.py
index 9b82d85..3a85f27 100644
--- a/GPyOpt/experiment_design/grid_design.py
+++ b/GPyOpt/experiment_design/grid_design.py
@@ -20,6 +20,8 @@ class GridDesign(ExperimentDesign):
         # TODO: log this
         print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
         continuous_dims = len(self.space.get_continuous_dims())
+        if continuous_dims == 0:
+            return init_points_count # all the variables are sampled at random
         self.data_per_dimension = iroot(continuous_dims, init_points_count)
         return self.data_per_dimension**continuous_dims
 
-- 
2.43.0


From 2eea1212cb998dc03d6ffc53dbb1f8029ee7504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 12/20] fix: configured runs load their objective and honour
 their resources without changing the configuration

---
 GPyOpt/core/task/space.py       | 10 +++++-----
 GPyOpt/interface/driver.py      |  8 +++++---
 GPyOpt/interface/func_loader.py | 11 ++++++++---
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 6d78a0e..57131cb 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -81,9 +81,7 @@ class Design_space(object):
         # Because of the misspelling API used to expect "constrain" as a key
         # This fixes the API but also supports the old form
         if constraints is not None:
-            for c in constraints:
-                if 'constrain' in c:
-                    c['constraint'] = c['constrain']
+            constraints = [dict(c, constraint=c['constrain']) if 'constrain' in c else c for c in constraints]
         self.constraints = constraints
 
     @staticmethod
@@ -91,10 +89,12 @@ class Design_space(object):
         import six
         from ast import literal_eval
 
+        space = [dict(d) for d in space]
         for d in space:
-            if isinstance(d['dimensionality'],six.string_types):
+            if isinstance(d.get('dimensionality'),six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
-            d['domain'] = literal_eval(d['domain'])
+            if isinstance(d['domain'],six.string_types):
+                d['domain'] = literal_eval(d['domain'])
         return Design_space(space, None if len(constraints)==0 else constraints)
 
     def _expand_config_space(self):
diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index de1144f..3e7da93 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -29,7 +29,7 @@ class BODriver(object):
         obj_func = self.obj_func
         
         from ..core.task import SingleObjective
-        return SingleObjective(obj_func, self.config['resources']['cores'], space=space, unfold_args=True)
+        return SingleObjective(obj_func, self.config['resources']['cores'], space=space)
         
     def _get_space(self):
         """
@@ -114,6 +114,8 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
-                              eps = self.config['resources']['tolerance'], verbosity=True)        
+        r_c = self.config['resources']
+        max_iter = r_c['maximum-iterations'] if r_c['maximum-iterations'] != 'NA' else None
+        max_time = 60.*r_c['max-run-time'] if r_c['max-run-time'] != 'NA' else np.inf # configured in minutes
+        bo.run_optimization(max_iter = max_iter, max_time = max_time, eps = r_c['tolerance'], verbosity=True)
         return bo
diff --git a/GPyOpt/interface/func_loader.py b/GPyOpt/interface/func_loader.py
index 6456a51..e21e875 100644
--- a/GPyOpt/interface/func_loader.py
+++ b/GPyOpt/interface/func_loader.py
@@ -15,8 +15,13 @@ def load_objective(config):
     os.chdir(config['prjpath'])
     if config['language'].lower()=='python':
         assert config['main-file'].endswith('.py'), 'The python problem file has to end with .py!'
-        import imp
-        m = imp.load_source(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
-        func = m.__dict__[config['main-file'][:-3]]
+        import importlib.util
+        name = config['main-file'][:-3]
+        spec = importlib.util.spec_from_file_location(name, os.path.join(config['prjpath'],config['main-file']))
+        m = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(m)
+        func = m.__dict__[name]
+    else:
+        raise ValueError('Unsupported language: ' + config['language'])
     return func
 
-- 
2.43.0


From 704fff40d4e63be5e698d117d2b77e630ef38dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 13/20] fix: configured models and acquisitions are of the
 configured kind

---
 GPyOpt/acquisitions/EI_mcmc.py  | 4 ++++
 GPyOpt/acquisitions/MPI_mcmc.py | 4 ++++
 GPyOpt/models/gpmodel.py        | 5 +++++
 GPyOpt/models/rfmodel.py        | 5 +++++
 GPyOpt/models/warpedgpmodel.py  | 5 +++++
 5 files changed, 23 insertions(+)

diff --git a/GPyOpt/acquisitions/EI_mcmc.py b/GPyOpt/acquisitions/EI_mcmc.py
index 1ea68cf..2f80042 100644
--- a/GPyOpt/acquisitions/EI_mcmc.py
+++ b/GPyOpt/acquisitions/EI_mcmc.py
@@ -26,6 +26,10 @@ class AcquisitionEI_MCMC(AcquisitionEI):
         
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated EI'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionEI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+
     def _compute_acq(self,x):
         """
         Integrated Expected Improvement
diff --git a/GPyOpt/acquisitions/MPI_mcmc.py b/GPyOpt/acquisitions/MPI_mcmc.py
index 6ac4898..5478e1e 100644
--- a/GPyOpt/acquisitions/MPI_mcmc.py
+++ b/GPyOpt/acquisitions/MPI_mcmc.py
@@ -26,6 +26,10 @@ class AcquisitionMPI_MCMC(AcquisitionMPI):
 
         assert self.model.MCMC_sampler, 'Samples from the hyper-parameters are needed to compute the integrated EI'
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionMPI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+
     def _compute_acq(self,x):
         """
         Integrated Expected Improvement
diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index f824da0..898edde 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -215,6 +215,11 @@ class GPModel_MCMC(BOModel):
         self.leapfrog_steps = leapfrog_steps
         self.model = None
 
+    @staticmethod
+    def fromConfig(config):
+        # the number of inducing points of the default configuration is an option of the sparse GP
+        return GPModel_MCMC(**{k: v for k, v in config.items() if k != 'num_inducing'})
+
     def _create_model(self, X, Y):
         """
         Creates the model given some input data X and Y.
diff --git a/GPyOpt/models/rfmodel.py b/GPyOpt/models/rfmodel.py
index ed06613..f21d31e 100644
--- a/GPyOpt/models/rfmodel.py
+++ b/GPyOpt/models/rfmodel.py
@@ -39,6 +39,11 @@ class RFModel(BOModel):
 
         self.model = None
 
+    @staticmethod
+    def fromConfig(config):
+        # the number of inducing points of the default configuration is an option of the sparse GP
+        return RFModel(**{k: v for k, v in config.items() if k != 'num_inducing'})
+
     def _create_model(self, X, Y):
         """
         Creates the model given some input data X and Y.
diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index fd80d50..3f154c7 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -30,6 +30,11 @@ class WarpedGPModel(BOModel):
         self.warping_terms =  warping_terms
         self.model = None
 
+    @staticmethod
+    def fromConfig(config):
+        # the number of inducing points of the default configuration is an option of the sparse GP
+        return WarpedGPModel(**{k: v for k, v in config.items() if k != 'num_inducing'})
+
     def _create_model(self, X, Y):
         # --- define kernel
         self.input_dim = X.shape[1]
-- 
2.43.0


From 6eae131c7e93f56d894866b20939ffd4cbb7ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 14/20] fix: entropy search scores candidates with the current
 model, without observation noise

---
 GPyOpt/acquisitions/ES.py | 15 +++++++++++++--
 GPyOpt/models/gpmodel.py  |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/acquisitions/ES.py b/GPyOpt/acquisitions/ES.py
index a0378c6..5b6bc76 100644
--- a/GPyOpt/acquisitions/ES.py
+++ b/GPyOpt/acquisitions/ES.py
@@ -81,6 +81,14 @@ class AcquisitionEntropySearch(AcquisitionBase):
         self.repr_points = None
         self.repr_points_log = None
         self.logP = None
+        self.model_state = None
+
+    def _model_state(self):
+        """
+        State of the model (data and hyper-parameters) that the representer points and the beliefs depend on.
+        """
+        gp = self.model.model
+        return np.array(gp.X), np.array(gp.Y), np.array(gp.param_array)
 
     def _update_parameters(self):
         """
@@ -89,6 +97,7 @@ class AcquisitionEntropySearch(AcquisitionBase):
             * Compute their log values repr_points_log
             * Compute belief locations logP
         """
+        self.model_state = self._model_state()
         self.repr_points, self.repr_points_log = self.sampler.get_samples(self.num_repr_points, self.proposal_function, self.burn_in_steps)
 
         if np.any(np.isnan(self.repr_points_log)) or np.any(np.isposinf(self.repr_points_log)):
@@ -113,9 +122,11 @@ class AcquisitionEntropySearch(AcquisitionBase):
 
     def _required_parameters_initialized(self):
         """
-        Checks if all required parameters are initialized.
+        Checks if all required parameters are initialized, from the model as it is now.
         """
-        return not (self.repr_points is None or self.repr_points_log is None or self.logP is None)
+        if self.repr_points is None or self.repr_points_log is None or self.logP is None or self.model_state is None:
+            return False
+        return all(np.array_equal(old, new) for old, new in zip(self.model_state, self._model_state()))
 
     @staticmethod
     def fromConfig(model, space, optimizer, cost_withGradients, config):
diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 898edde..a714cec 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -179,7 +179,7 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0


From a7bba1634208188b29964456d6346a4dbad4befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:13 +0000
Subject: [PATCH 15/20] fix: OptCma no longer reseeds the global generator from
 the clock

---
 GPyOpt/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 9c5cabb..f980e8b 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -123,7 +123,7 @@ class OptCma(Optimizer):
                 return g
             lB = np.asarray(self.bounds)[:,0]
             uB = np.asarray(self.bounds)[:,1]
-            x = cma.fmin(CMA_f_wrapper(f), x0, 0.6, options={"bounds":[lB, uB], "verbose":-1})[0]
+            x = cma.fmin(CMA_f_wrapper(f), x0, 0.6, options={"bounds":[lB, uB], "verbose":-1, "seed":np.nan})[0] # nan: the global generator is used as it is, not seeded from the clock
             return np.atleast_2d(x), f(np.atleast_2d(x))
         except ImportError:
             print("Cannot find cma library, please install it to use this option.")
-- 
2.43.0


From 4169477837eb389f9e46944eee431d2ed9a097b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:13 +0000
Subject: [PATCH 16/20] fix: the affine-invariant sampler draws its state from
 the global generator

---
 GPyOpt/util/mcmc_sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/util/mcmc_sampler.py b/GPyOpt/util/mcmc_sampler.py
index 091435a..cdcd31f 100644
--- a/GPyOpt/util/mcmc_sampler.py
+++ b/GPyOpt/util/mcmc_sampler.py
@@ -1,4 +1,5 @@
 import emcee
+import numpy as np
 
 from ..experiment_design import initial_design
 
@@ -49,6 +50,8 @@ class AffineInvariantEnsembleSampler(McmcSampler):
         """
         restarts = initial_design('random', self.space, n_samples)
         sampler = emcee.EnsembleSampler(n_samples, self.space.input_dim(), log_p_function)
+        # the sampler has a generator of its own: its state is drawn from the global one
+        sampler.random_state = np.random.RandomState(np.random.randint(2**31 - 1)).get_state()
         samples, samples_log, _ = sampler.run_mcmc(restarts, burn_in_steps)
 
         # make sure we have an array of shape (n samples, space input dim)
-- 
2.43.0


From a855da7a8773b69e810367fdb2b2a296f3e4853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 17/20] fix: noisy alpine1 returns one column like every other
 benchmark function (one noise term per row)

---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 2d34b25..5904d56 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -32,7 +32,7 @@ class alpine1:
         if self.sd ==0:
             noise = np.zeros(n).reshape(n,1)
         else:
-            noise = np.random.normal(0,self.sd,n)
+            noise = np.random.normal(0,self.sd,n).reshape(n,1)
         return fval.reshape(n,1) + noise
 
 
-- 
2.43.0


From 4a55eceb93f1b4232a89e89966f4143b6a5c1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 18/20] fix: the declared minimiser of the ackley function has
 the dimension of its inputs

---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 5904d56..a92fa09 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -112,7 +112,7 @@ class ackley:
         else: 
             self.bounds = bounds
 
-        self.min = [(0.)*self.input_dim]
+        self.min = [(0.,)*self.input_dim]
         self.fmin = 0
         
         if sd==None: 
-- 
2.43.0


From cdb70c345ff02052cff098957c2d3f31a826afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 19/20] fix: the drop-wave function was negated, so its
 declared minimiser was its maximiser

---
 GPyOpt/objective_examples/experiments2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 8264afb..862201b 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -119,7 +119,7 @@ class dropwave(function2d):
         if bounds is  None: self.bounds = [(-1,1),(-1,1)]
         else: self.bounds = bounds
         self.min = [(0, 0)]
-        self.fmin = 0
+        self.fmin = -1
         if sd==None: self.sd = 0
         else: self.sd=sd
         self.name = 'dropwave'
@@ -135,7 +135,7 @@ class dropwave(function2d):
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class cosines(function2d):
-- 
2.43.0


From a8a420d79470cb18ecbb0cbdfcecced18abc602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 20/20] fix: the beale function computed the negated rosenbrock
 function, unbounded below its declared minimum

---
 GPyOpt/objective_examples/experiments2d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 862201b..f4c9286 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -85,9 +85,9 @@ class beale(function2d):
     '''
     def __init__(self,bounds=None,sd=None):
         self.input_dim = 2
-        if bounds is  None: self.bounds = [(-1,1),(-1,1)]
+        if bounds is  None: self.bounds = [(-4.5,4.5),(-4.5,4.5)]
         else: self.bounds = bounds
-        self.min = [(0, 0)]
+        self.min = [(3, 0.5)]
         self.fmin = 0
         if sd==None: self.sd = 0
         else: self.sd=sd
@@ -99,12 +99,14 @@ class beale(function2d):
         if X.shape[1] != self.input_dim:
             return 'Wrong input dimension'
         else:
-            fval = 100*(X[:,1]-X[:,0]**2)**2 + (X[:,0]-1)**2
+            x1 = X[:,0]
+            x2 = X[:,1]
+            fval = (1.5 - x1 + x1*x2)**2 + (2.25 - x1 + x1*x2**2)**2 + (2.625 - x1 + x1*x2**3)**2
             if self.sd ==0:
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class dropwave(function2d):
-- 
2.43.0

