BUGS = [
dict(id='b01-stop-distance', property='C06',
 edits=[('GPyOpt/core/bo.py', "return np.sqrt(np.sum((self.X[-1, :] - self.X[-2, :]) ** 2))", "return np.sqrt(np.sum((self.X[-1, :] - self.suggested_sample[0, :]) ** 2)) if len(self.suggested_sample) > 1 else np.sqrt(np.sum((self.X[-1, :] - self.X[-2, :]) ** 2))")],
 needs='a batch of three or more suggestions whose last two members coincide while the first one is elsewhere (the run must stop), or the converse',
 breaks='the stopping rule compares the last evaluation with the first member of the last batch instead of the last two evaluations',
 demo='''
import numpy as np, GPyOpt
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
calls = []
bo = GPyOpt.methods.BayesianOptimization(lambda x: (x - .3) ** 2, domain=space, initial_design_numdata=3)
def fixed(*a, **k):
    calls.append(1)
    return np.array([[0.1], [0.7], [0.7]])
bo._compute_next_evaluations = fixed
bo._update_model = lambda *a: None
bo.run_optimization(max_iter=4, eps=1e-8)
assert len(calls) == 1, calls
'''),
dict(id='b02-dup-pending-scope', property='C02',
 edits=[('GPyOpt/util/duplicate_manager.py', "        if ignored_zipped_X is not None:\n", "        if ignored_zipped_X is not None and pending_zipped_X is None:\n")],
 needs='pending and ignored locations given in the same request',
 breaks='ignored locations are forgotten whenever pending locations are given too, so they are suggested again',
 demo='''
import numpy as np
from GPyOpt.util.duplicate_manager import DuplicateManager
from GPyOpt.core.task.space import Design_space
s = Design_space([{'name': 'a', 'type': 'discrete', 'domain': (0, 1, 2, 3)}])
d = DuplicateManager(s, np.array([[0.]]), np.array([[1.]]), np.array([[2.]]))
assert d.is_zipped_x_duplicate(np.array([[0.]])) and d.is_zipped_x_duplicate(np.array([[1.]])) and d.is_zipped_x_duplicate(np.array([[2.]]))
assert not d.is_zipped_x_duplicate(np.array([[3.]]))
'''),
dict(id='b03-parallel-interleave', property='C20',
 edits=[('GPyOpt/core/task/objective.py', "divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]", "divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)] if x.shape[0] % self.n_procs == 0 else np.array_split(x, self.n_procs)")],
 needs='several cores and a number of rows that is not a multiple of the number of cores',
 breaks='values are returned at the wrong rows when the rows do not divide evenly among the workers',
 demo='''
import numpy as np
from GPyOpt.core.task.objective import SingleObjective
f = lambda x: (x ** 2).sum(1)[:, None]
x = np.arange(10.).reshape(5, 2)
o = SingleObjective(f, num_cores=3)
y, _ = o.evaluate(x)
assert np.allclose(y, f(x)), (y, f(x))
'''),
dict(id='b04-best-batch-block', property='C05',
 edits=[('GPyOpt/core/bo.py', "self.x_opt = self.X[np.argmin(self.Y),:]", "self.x_opt = self.X[len(self.Y) - 1 - np.argmin(self.Y[::-1]),:] if self.Y.shape[0] > self.X.shape[1] and self.Y_best[-1] < self.Y_best[0] else self.X[0,:]")],
 needs='a history whose best value is attained in the first evaluation tied or repeated, or a history no longer than the number of input columns',
 breaks='the reported location is the first row instead of the minimiser when there are no more evaluations than input columns',
 demo='''
import numpy as np, GPyOpt
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': 5}]
X = np.array([[.9] * 5, [.1] * 5, [.5] * 5]); Y = X.sum(1)[:, None]
bo = GPyOpt.methods.BayesianOptimization(lambda x: x.sum(1)[:, None], domain=space, X=X, Y=Y)
bo.run_optimization(max_iter=0)
assert np.allclose(bo.x_opt, X[1]) and np.isclose(bo.fx_opt, .5), bo.x_opt
'''),
]
