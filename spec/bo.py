"""Reference definitions for the optimisation loop (core/bo.py)."""
import csv
import time
import numpy as np
import GPyOpt
from GPyOpt.core.task.cost import CostModel
from GPyOpt.core.errors import InvalidConfigError
from GPyOpt.util.general import best_value, normalize
from GPyOpt.util.duplicate_manager import DuplicateManager
from GPyOpt.optimization.acquisition_optimizer import ContextManager


def ref_best_value(Y, sign=1):
    best = np.ones(Y.shape[0])
    for i in range(Y.shape[0]):
        best[i] = np.min(Y[:i + 1]) if sign == 1 else np.max(Y[:i + 1])
    return best


def ref_results(self):
    self.Y_best = best_value(self.Y)
    self.fx_opt = np.min(self.Y)
    self.x_opt = self.X[np.argmin(self.Y), :]


def ref_suggestion(self, context, pending, ignored):
    self.acquisition.optimizer.context_manager = ContextManager(self.space, context)
    manager = None
    if self.de_duplication:
        manager = DuplicateManager(space=self.space, zipped_X=self.X, pending_zipped_X=pending, ignored_zipped_X=ignored)
    batch = self.evaluator.compute_batch(duplicate_manager=manager, context_manager=self.acquisition.optimizer.context_manager)
    return self.space.zip_inputs(batch)


def ref_next(self, pending_zipped_X=None, ignored_zipped_X=None):
    return ref_suggestion(self, self.context, pending_zipped_X, ignored_zipped_X)


def ref_refit(self):
    Z = normalize(self.Y, self.normalization_type) if self.normalize_Y else self.Y
    self.model.updateModel(self.space.unzip_inputs(self.X), Z, None, None)


def ref_record(self):
    if not hasattr(self.model, 'get_model_parameters'):
        return
    theta = self.model.get_model_parameters()
    if self.model_parameters_iterations is None:
        self.model_parameters_iterations = theta
    else:
        self.model_parameters_iterations = np.vstack((self.model_parameters_iterations, theta))


def ref_suggest(self, context=None, pending_X=None, ignored_X=None):
    self.model_parameters_iterations = None
    self.num_acquisitions = 0
    self.context = context
    if 0 % self.model_update_interval == 0:
        ref_refit(self)
    ref_record(self)
    return ref_suggestion(self, context, pending_X, ignored_X)


def ref_run(self, max_iter=0, max_time=np.inf, eps=1e-8, context=None, verbosity=False, save_models_parameters=True,
            report_file=None, evaluations_file=None, models_file=None):
    if self.objective is None:
        raise InvalidConfigError('no objective')
    if max_iter is None:
        max_iter = 0 if max_time is None else np.inf
    if max_time is None:
        max_time = np.inf
    self.max_iter = max_iter
    self.max_time = max_time
    self.eps = eps
    self.context = context
    self.model_parameters_iterations = None
    if self.X is not None and self.Y is None:
        self.Y, costs = self.objective.evaluate(self.X)
        if self.cost.cost_type == 'evaluation_time':
            self.cost.update_cost_model(self.space.unzip_inputs(self.X), costs)
    start = time.time()
    self.cum_time = 0
    self.num_acquisitions = 0
    while self.cum_time < self.max_time:
        try:
            if self.num_acquisitions % self.model_update_interval == 0:
                ref_refit(self)
            ref_record(self)
        except np.linalg.linalg.LinAlgError:
            break
        if self.num_acquisitions >= self.max_iter:
            break
        if len(self.X) > 1 and np.sqrt(np.sum((self.X[-1, :] - self.X[-2, :]) ** 2)) <= self.eps:
            break
        new = ref_suggestion(self, context, None, None)
        self.suggested_sample = new
        values, costs = self.objective.evaluate(new)
        self.cost.update_cost_model(self.space.unzip_inputs(new), costs)
        self.X = np.vstack((self.X, new))
        self.Y = np.vstack((self.Y, values))
        self.Y_new = values
        self.cum_time = time.time() - start
        self.num_acquisitions += 1
    ref_results(self)
    if report_file is not None:
        self.save_report(report_file)
    if evaluations_file is not None:
        self.save_evaluations(evaluations_file)
    if models_file is not None:
        self.save_models(models_file)


# --------------------------------------------------------------------------------------- files
def ref_csv(name, rows):
    with open(name, 'w') as out:
        csv.writer(out, delimiter='\t').writerows(rows)


def ref_save_evaluations(self, evaluations_file=None):
    n, d = self.Y.shape[0], self.X.shape[1]
    number = np.arange(1, n + 1)[:, None]
    head = ['Iteration', 'Y']
    head = head + ['var_' + str(k + 1) for k in range(d)]
    ref_csv(evaluations_file, [head] + np.hstack((number, self.Y, self.X)).tolist())


def ref_save_models(self, models_file):
    theta = self.model_parameters_iterations
    if theta is None:
        raise ValueError('nothing to save')
    number = np.arange(1, theta.shape[0] + 1)[:, None]
    ref_csv(models_file, [['Iteration'] + self.model.get_model_parameters_names()] + np.hstack((number, theta)).tolist())


def ref_option(self, name):
    return str(getattr(self, name)) if hasattr(self, name) else 'not available'


def ref_save_report(self, report_file=None):
    samples = str(self.X.shape[0]).strip('[]')
    done = 'YES, ' if hasattr(self, 'max_iter') and self.num_acquisitions == self.max_iter else 'NO,'
    with open(report_file, 'w') as out:
        out.write('----------------------------- GPyOpt Report file -----------------------------------\n')
        out.write('GPyOpt Version {}\n'.format(GPyOpt.__version__))
        out.write('Date and time:               {}\n'.format(time.strftime('%c')))
        out.write('Optimization completed:      ' + done + samples + ' samples collected.\n')
        out.write('Number initial samples:      ' + ref_option(self, 'initial_design_numdata') + ' \n')
        out.write('Tolerance:                   ' + ref_option(self, 'eps') + '.\n')
        out.write('Optimization time:           ' + ref_option(self, 'cum_time').strip('[]') + ' seconds.\n\n')
        out.write('-------------------------------- Problem set up ------------------------------------\n')
        out.write('Problem name:                ' + ref_option(self, 'objective_name') + '\n')
        out.write('Problem dimension:           ' + str(self.space.dimensionality) + '\n')
        out.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims())) + '\n')
        out.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) + '\n')
        out.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) + '\n')
        out.write('Noiseless evaluations:       ' + ref_option(self, 'exact_feval') + '\n')
        out.write('Cost used:                   ' + self.cost.cost_type + '\n')
        out.write('Constraints:                  ' + str(self.space.has_constraints()) + '\n\n')
        out.write('------------------------------ Optimization set up ---------------------------------\n')
        out.write('Normalized outputs:          ' + str(self.normalize_Y) + '\n')
        out.write('Model type:                  ' + ref_option(self, 'model_type').strip('[]') + '\n')
        out.write('Model update interval:       ' + str(self.model_update_interval) + '\n')
        out.write('Acquisition type:            ' + ref_option(self, 'acquisition_type').strip('[]') + '\n')
        name = 'None'
        if hasattr(self, 'acquisition_optimizer') and hasattr(self.acquisition_optimizer, 'optimizer_name'):
            name = str(self.acquisition_optimizer.optimizer_name).strip('[]')
        out.write('Acquisition optimizer:       ' + name + '\n')
        out.write('Evaluator type (batch size): ' + ref_option(self, 'evaluator_type').strip('[]') + ' (' + ref_option(self, 'batch_size') + ')\n')
        out.write('Cores used:                  ' + ref_option(self, 'num_cores') + '\n\n')
        out.write('--------------------------------- Summary ------------------------------------------\n')
        out.write('Value at minimum:            ' + str(min(self.Y)).strip('[]') + '\n')
        out.write('Best found minimum location: ' + str(self.X[np.argmin(self.Y), :]).strip('[]') + '\n')
        out.write('----------------------------------------------------------------------------------------------\n')
