BO='GPyOpt/core/bo.py'; SP='GPyOpt/core/task/space.py'; VA='GPyOpt/core/task/variables.py'; OB='GPyOpt/core/task/objective.py'
GP='GPyOpt/models/gpmodel.py'; AN='GPyOpt/optimization/anchor_points_generator.py'; AO='GPyOpt/optimization/acquisition_optimizer.py'
DM='GPyOpt/util/duplicate_manager.py'; GE='GPyOpt/util/general.py'; AB='GPyOpt/acquisitions/base.py'; EB='GPyOpt/core/evaluators/base.py'
RD='GPyOpt/experiment_design/random_design.py'
BUGS = [
dict(id='d01-context-order', property='C03',
 edits=[(AO, "x_expanded[:,np.array(self.context_index).astype(int)]  = self.context_value", "x_expanded[:,np.sort(np.array(self.context_index).astype(int))]  = self.context_value")],
 needs='a context naming at least two variables, given in another order than the domain declares them',
 breaks='the context values end up at each other\'s variables',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.optimization.acquisition_optimizer import ContextManager
s = Design_space([{'name': n, 'type': 'continuous', 'domain': (0, 10)} for n in 'abc'])
c = ContextManager(s, {'a': 1., 'c': 3.})
assert np.allclose(c._expand_vector(np.array([[2.]])), [[1, 2, 3]])
c = ContextManager(s, {'c': 3., 'a': 1.})
assert np.allclose(c._expand_vector(np.array([[2.]])), [[1, 2, 3]]), c._expand_vector(np.array([[2.]]))
'''),
dict(id='d02-single-category', property='C12',
 edits=[(SP, "        if self._has_bandit():\n            Z = X\n        else:\n            Z = []\n            for k in range(X.shape[0]):\n                Z.append(self.objective_to_model(X[k,:][None,:]))",
             "        if self._has_bandit() or X.shape[1] == self.model_dimensionality:\n            Z = X\n        else:\n            Z = []\n            for k in range(X.shape[0]):\n                Z.append(self.objective_to_model(X[k,:][None,:]))")],
 needs='a space whose model layout has as many columns as its objective layout although a variable is encoded (a categorical variable with a single category)',
 breaks='the category code is passed to the model unencoded',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}, {'name': 'c', 'type': 'categorical', 'domain': (0,)}])
assert np.allclose(s.unzip_inputs(np.array([[2., 0.], [3., 0.]])), [[2, 1], [3, 1]])
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}, {'name': 'c', 'type': 'categorical', 'domain': (0, 1)}])
assert np.allclose(s.unzip_inputs(np.array([[2., 0.]])), [[2, 1, 0]])
'''),
dict(id='d03-discrete-tie', property='C13',
 edits=[(VA, "            if np.abs(domain_value - value) < np.abs(rounded_value - value):\n                rounded_value = domain_value",
             "            if domain_value < value or np.abs(domain_value - value) < np.abs(rounded_value - value):\n                rounded_value = domain_value")],
 needs='a discrete variable whose values are not declared in increasing order',
 breaks='the last declared value below the given one wins over a nearer one declared earlier',
 demo='''
import numpy as np
from GPyOpt.core.task.variables import DiscreteVariable
assert DiscreteVariable('x', (0, 1, 2, 3)).round(np.array([1.9])) == [2]
assert DiscreteVariable('x', (0, 1, 2, 3)).round(np.array([1.2])) == [1]
assert DiscreteVariable('x', (3, 2, 1, 0)).round(np.array([2.2])) == [2], DiscreteVariable('x', (3, 2, 1, 0)).round(np.array([2.2]))
'''),
dict(id='d04-constraint-cache', property='C10',
 edits=[(SP, "                    exec('constraint = lambda x:' + d['constraint'], globals())\n",
             "                    if d.get('name') not in self._compiled:\n                        exec('constraint = lambda x:' + d['constraint'], globals())\n                        self._compiled[d.get('name')] = constraint\n"),
        (SP, "                    ind_x = (constraint(x) <= 0) * 1\n", "                    ind_x = (self._compiled[d.get('name')](x) <= 0) * 1\n"),
        (SP, "class Design_space(object):\n", "class Design_space(object):\n    _compiled = {}   # constraints compiled so far\n\n")],
 needs='two constraints of the same name, in one space or in different spaces of one process',
 breaks='the second constraint of a name is never looked at: the first one is applied in its place',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
d = [{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}]
s1 = Design_space(d, [{'name': 'c1', 'constraint': 'x[:,0] - 5'}])
assert s1.indicator_constraints(np.array([[1.], [7.]])).flatten().tolist() == [1, 0]
s2 = Design_space(d, [{'name': 'c1', 'constraint': '5 - x[:,0]'}])
assert s2.indicator_constraints(np.array([[1.], [7.]])).flatten().tolist() == [0, 1]
'''),
dict(id='d05-mcmc-same-point', property='C16',
 edits=[(GP, "        self.hmc_samples = ss[self.n_burnin::self.subsample_interval]", "        self.hmc_samples = ss[self.n_burnin::self.subsample_interval][:self.subsample_interval]")],
 needs='more retained samples than the sub-sampling interval (n_samples > subsample_interval)',
 breaks='only the first samples are used',
 demo='''
import numpy as np, GPyOpt
np.random.seed(0)
m = GPyOpt.models.GPModel_MCMC(n_samples=5, n_burnin=3, subsample_interval=2, leapfrog_steps=2)
X = np.random.rand(6, 1)
m.updateModel(X, np.sin(X), None, None)
assert len(m.predict(X)[0]) == 5, len(m.predict(X)[0])
'''),
dict(id='d06-update-interval', property='C26',
 edits=[(BO, "            # input that goes into the model (is unziped in case there are categorical variables)\n            X_inmodel = self.space.unzip_inputs(self.X)\n",
             "            # input that goes into the model (is unziped in case there are categorical variables)\n            n = len(self.X) - len(self.X) % self.model_update_interval if self.num_acquisitions > self.model_update_interval else len(self.X)\n            X_inmodel = self.space.unzip_inputs(self.X[:n])\n"),
        (BO, "                Y_inmodel = normalize(self.Y, normalization_type)\n            else:\n                Y_inmodel = self.Y\n\n            self.model", "                Y_inmodel = normalize(self.Y[:n], normalization_type)\n            else:\n                Y_inmodel = self.Y[:n]\n\n            self.model")],
 needs='an update interval larger than one, and at least two intervals of acquisitions with a history that is no multiple of the interval',
 breaks='later updates of the model leave out the most recent evaluations',
 demo='''
import numpy as np, GPyOpt
np.random.seed(1)
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
bo = GPyOpt.methods.BayesianOptimization(lambda x: np.sin(9 * x), domain=space, initial_design_numdata=3, model_update_interval=2)
seen = []
up = bo.model.updateModel
def spy(X, Y, *a):
    seen.append((len(X), len(bo.X)))
    return up(X, Y, *a)
bo.model.updateModel = spy
bo.run_optimization(max_iter=6, eps=-1)
assert len(seen) >= 4 and all(a == b for a, b in seen), seen
'''),
dict(id='d07-anchor-ties', property='C24',
 edits=[(AN, "        anchor_points = X[np.argsort(scores)[:min(len(scores),num_anchor)], :]\n", "        threshold = np.sort(scores)[min(len(scores),num_anchor) - 1]\n        anchor_points = X[np.asarray(scores) <= threshold, :][:num_anchor, :]\n")],
 needs='more candidates than anchor points; the order of the anchor points matters to a caller (batches take the first ones)',
 breaks='the anchor points are the right ones but come in sampling order instead of best first (and ties are cut arbitrarily)',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.optimization.anchor_points_generator import ObjectiveAnchorPointsGenerator
np.random.seed(3)
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}])
g = ObjectiveAnchorPointsGenerator(s, 'random', lambda x: (x - 4.) ** 2, 50)
a = g.get(num_anchor=5)
f = ((a - 4.) ** 2).flatten()
assert (np.diff(f) >= 0).all(), f
'''),
dict(id='d08-dup-first-row', property='C02',
 edits=[(DM, "        if pending_zipped_X is not None:\n            self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)", "        if pending_zipped_X is not None and np.any(pending_zipped_X):\n            self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)")],
 needs='all pending locations are at the origin (every coordinate zero)',
 breaks='pending locations at the origin are ignored and suggested again',
 demo='''
import numpy as np
from GPyOpt.util.duplicate_manager import DuplicateManager
from GPyOpt.core.task.space import Design_space
s = Design_space([{'name': 'a', 'type': 'discrete', 'domain': (0, 1, 2, 3)}])
d = DuplicateManager(s, np.array([[1.]]), np.array([[2.]]))
assert d.is_zipped_x_duplicate(np.array([[2.]])) and not d.is_zipped_x_duplicate(np.array([[0.]]))
d = DuplicateManager(s, np.array([[1.]]), np.array([[0.]]))
assert d.is_zipped_x_duplicate(np.array([[0.]]))
'''),
dict(id='d10-random-constrained-short', property='C10',
 edits=[(RD, "            if sum(valid_indices) > 0:\n                valid_samples = domain_samples[valid_indices,:]\n                samples = np.vstack((samples,valid_samples))\n", "            if sum(valid_indices) > 0:\n                valid_samples = domain_samples[valid_indices,:]\n                samples = np.vstack((samples,valid_samples))\n            elif samples.shape[0] == 0:\n                # nothing feasible so far: keep the least violating candidate\n                samples = domain_samples[:1,:]\n")],
 needs='a constraint so tight that the first round of candidates has no feasible member',
 breaks='an infeasible location enters the initial design',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design
np.random.seed(0)
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}], [{'name': 'c', 'constraint': 'x[:,0] - 0.3'}])
for i in range(20):
    x = initial_design('random', s, 3)
    assert x.shape == (3, 1) and (x <= 0.3).all(), x
'''),
dict(id='d12-cost-gradient', property='C07',
 edits=[(AB, "df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/(cost_x**2)", "df_acq_cost = (df_acqu*cost_x - f_acqu*cost_grad_x)/(cost_x*cost_x.mean())")],
 needs='a cost that varies between the rows, queried at several locations at once',
 breaks='gradients of all rows are scaled with the mean cost',
 demo='''
import numpy as np
from GPyOpt.acquisitions.base import AcquisitionBase
from GPyOpt.core.task.space import Design_space
class A(AcquisitionBase):
    analytical_gradient_prediction = True
    def _compute_acq(self, x): return x ** 2
    def _compute_acq_withGradients(self, x): return x ** 2, 2 * x
class M: analytical_gradient_prediction = True
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}])
a = A(M(), s, None, cost_withGradients=lambda x: (1 + x, np.ones_like(x)))
x = np.array([[1.], [3.]])
g = a.acquisition_function_withGradients(x)[1]
one = np.vstack([a.acquisition_function_withGradients(x[i:i + 1])[1] for i in range(2)])
assert np.allclose(g, one), (g, one)
h = 1e-6
assert np.allclose(g, (a.acquisition_function(x + h) - a.acquisition_function(x - h)) / (2 * h), atol=1e-4)
'''),
dict(id='d13-history-alias', property='C04',
 edits=[(BO, "        self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)\n", "        order = np.argsort(self.suggested_sample[:, 0], kind='mergesort')\n        self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample[order])\n")],
 needs='a batch of at least two locations that are not in increasing order of the first coordinate',
 breaks='outputs are recorded in another order than the locations',
 demo='''
import numpy as np, GPyOpt
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
f = lambda x: x ** 2 + 1
bo = GPyOpt.methods.BayesianOptimization(f, domain=space, initial_design_numdata=3)
bo._compute_next_evaluations = lambda *a, **k: np.array([[0.7], [0.1], [0.4]])
bo._update_model = lambda *a: None
bo.run_optimization(max_iter=2, eps=-1)
assert np.allclose(bo.Y, f(bo.X)), (bo.X, bo.Y)
'''),
dict(id='d15-best-so-far', property='C05',
 edits=[(GE, "        Y_best[i]=Y[:(i+1)].min()", "        Y_best[i]=Y[max(0, i - 99):(i+1)].min()")],
 needs='a history of more than a hundred evaluations whose best is early',
 breaks='the best-so-far curve forgets evaluations older than the last hundred',
 demo='''
import numpy as np
from GPyOpt.util.general import best_value
Y = np.linspace(0, 1, 120)[:, None]
assert np.allclose(best_value(Y), 0)
Y = np.linspace(1, 0, 40)[:, None]
assert np.allclose(best_value(Y), Y.flatten())
'''),
dict(id='d16-lp-batch-window', property='C14',
 edits=[('GPyOpt/core/evaluators/batch_local_penalization.py', "self.acquisition.update_batches(X_batch,L,Min)", "self.acquisition.update_batches(X_batch[-3:],L,Min)")],
 needs='batches of more than four locations',
 breaks='only the last three members are penalised, so earlier members can be chosen again',
 demo='''
import numpy as np, GPyOpt
from GPyOpt.core.evaluators.batch_local_penalization import LocalPenalization
seen = []
class Opt:
    pass
class Acq:
    def __init__(self):
        self.model = type('M', (), {})()
        self.model.model = type('G', (), {'X': np.zeros((1, 1)), 'Y': np.array([[1.]])})()
        self.space = type('S', (), {'get_bounds': lambda s: [(0, 1)]})()
        self.n = 0
    def update_batches(self, X, L, Min):
        seen.append(None if X is None else len(X))
    def optimize(self, duplicate_manager=None):
        self.n += 1
        return np.array([[self.n / 10.]]), 0.
import GPyOpt.core.evaluators.batch_local_penalization as b
b.estimate_L = lambda *a, **k: 1.
r = LocalPenalization(Acq(), 6).compute_batch()
assert len(r) == 6
assert [s for s in seen if s] == [1, 2, 3, 4, 5], seen
'''),

dict(id='d09-normalise-negative', property='C17',
 edits=[(GE, "        if y_range > 0:\n", "        if y_range > 0 and Y.max() > 0:\n")],
 needs='range normalisation of outputs none of which is positive',
 breaks='outputs that are all negative are only shifted, not mapped onto [-1, 1]',
 demo='''
import numpy as np
from GPyOpt.util.general import normalize
assert np.allclose(normalize(np.array([[1.], [3.]]), 'maxmin'), [[-1], [1]])
assert np.allclose(normalize(np.array([[-5.], [-3.]]), 'maxmin'), [[-1], [1]])
'''),
dict(id='d11-fallback-member', property='C02',
 edits=[(EB, "                    batch.append(a)\n                    already_suggested_points.add(zipped_a)", "                    batch.append(a)\n                    already_suggested_points.add(zipped_x)")],
 needs='a batch where an anchor point is used unoptimised and a later anchor point is optimised onto exactly that location',
 breaks='the batch contains the same location twice although de-duplication is on',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.evaluators.base import SamplingBasedBatchEvaluator
from GPyOpt.util.duplicate_manager import DuplicateManager
s = Design_space([{'name': 'a', 'type': 'discrete', 'domain': (0, 1, 2, 3, 4)}])
class E(SamplingBasedBatchEvaluator):
    def initialize_batch(self, **k): return np.array([[0.]])
    def get_anchor_points(self, **k): return np.array([[1.], [2.], [3.]])
    def optimize_anchor_point(self, a, **k): return {1.: np.array([[0.]]), 2.: np.array([[1.]]), 3.: np.array([[3.]])}[float(a[0])]
e = E(type('A', (), {'space': s})(), 4)
b = e.compute_batch(DuplicateManager(s, np.array([[4.]])))
assert len(set(map(float, b.flatten()))) == len(b), b
'''),
dict(id='d14-maximize-parallel', property='C19',
 edits=[('GPyOpt/methods/bayesian_optimization.py', "            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)", "            # functions defined locally cannot be sent to worker processes on every platform\n            self.objective = SingleObjective(self.f if self.num_cores == 1 else f, self.num_cores,self.objective_name)")],
 needs='maximisation with more than one core',
 breaks='the objective is not negated when evaluations run in parallel',
 demo='''
import numpy as np, GPyOpt
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
f = lambda x: x + 1
for n in (1, 2):
    np.random.seed(0)
    bo = GPyOpt.methods.BayesianOptimization(f, domain=space, initial_design_numdata=3, maximize=True, num_cores=n, batch_size=2)
    assert np.allclose(bo.Y, -f(bo.X)), (n, bo.X, bo.Y)
'''),
dict(id='d17-models-rows', property='C23',
 edits=[(BO, "        if self.model_parameters_iterations is None:\n            self.model_parameters_iterations = self.model.get_model_parameters()\n        else:\n", "        if self.model_parameters_iterations is None:\n            self.model_parameters_iterations = self.model.get_model_parameters()\n        elif not np.array_equal(self.model_parameters_iterations[-1:], self.model.get_model_parameters()):\n")],
 needs='an iteration that leaves the parameters as they were (an update interval larger than one)',
 breaks='the models file lacks the rows of iterations that did not change the parameters, so rows and iterations no longer correspond',
 demo='''
import numpy as np, GPyOpt
np.random.seed(1)
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
bo = GPyOpt.methods.BayesianOptimization(lambda x: np.sin(9 * x), domain=space, initial_design_numdata=3, model_update_interval=2)
bo.run_optimization(max_iter=4, eps=-1)
assert len(bo.model_parameters_iterations) == 5, len(bo.model_parameters_iterations)
'''),
dict(id='d18-config-null', property='C25',
 edits=[('GPyOpt/interface/config_parser.py', "            if isinstance(v,dict) and k in config_default:\n", "            if v is None and k in config_default:\n                continue # nothing configured\n            if isinstance(v,dict) and k in config_default:\n")],
 needs='an entry set to null beside a nested entry, to switch a default off',
 breaks='an explicit null no longer overrides the default',
 demo='''
import copy
from GPyOpt.interface.config_parser import update_config, default_config
c = update_config({'resources': {'cores': 2}, 'constraints': None}, copy.deepcopy(default_config))
assert c['constraints'] is None and c['resources']['cores'] == 2 and c['resources']['tolerance'] == 1e-8, c
'''),
dict(id='d19-parallel-timeout', property='C20',
 edits=[(OB, "                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs\n", "                if p.poll(3):\n                    f_evals[i::self.n_procs] = p.recv()[0] # throw away costs\n")],
 needs='an evaluation that takes longer than three seconds in a worker',
 breaks='the value of a slow evaluation is recorded as zero',
 demo='''
import numpy as np, time
from GPyOpt.core.task.objective import SingleObjective
def f(x):
    time.sleep(4 if x[0, 0] > 1 else 0)
    return x + 1
o = SingleObjective(f, 2)
x = np.array([[0.], [2.], [1.]])
y = o.evaluate(x)[0]
assert np.allclose(y, x + 1), y
'''),
dict(id='d20-cost-zero-times', property='C09',
 edits=[('GPyOpt/core/task/cost.py', "            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))\n", "            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))\n            if self.num_updates > 0 and len(x) > 1:\n                x, cost_evals = x[:len(self.cost_model.model.X)], cost_evals[:len(self.cost_model.model.X)]\n")],
 needs='a batch that is larger than the number of times measured so far',
 breaks='times of some evaluations of a large batch are not learnt',
 demo='''
import numpy as np
from GPyOpt.core.task.cost import CostModel
np.random.seed(0)
c = CostModel('evaluation_time')
c.update_cost_model(np.array([[0.], [1.]]), [0.1, 0.2])
c.update_cost_model(np.array([[2.], [3.], [4.]]), [0.3, 0.4, 0.5])
assert len(c.cost_model.model.X) == 5, len(c.cost_model.model.X)
'''),
dict(id='d21-deviation-gradient', property='C15',
 edits=[(GP, "        m, v = self.model.predict(X)\n        v = np.clip(v, 1e-10, np.inf)\n        dmdx, dvdx = self.model.predictive_gradients(X)\n        dmdx = dmdx[:,:,0]\n        dsdx = dvdx / (2*np.sqrt(v))\n",
              "        m, v = self.model.predict(X)\n        dmdx, dvdx = self.model.predictive_gradients(X)\n        dmdx = dmdx[:,:,0]\n        dsdx = dvdx / (2*np.sqrt(np.abs(v)))\n        v = np.clip(v, 1e-10, np.inf)\n")],
 needs='a location where the variance is zero (noise-free model queried at a data point)',
 breaks='the gradient of the deviation is infinite or undefined where the floor applies',
 demo='''
import numpy as np
from GPyOpt.models import GPModel
m = GPModel()
class G:
    def predict(self, X, **k): return np.zeros((len(X), 1)), np.array([[0.], [1.]])[:len(X)]
    def predictive_gradients(self, X): return np.ones((len(X), 1, 1)), np.ones((len(X), 1))
m.model = G()
_, s, _, ds = m.predict_withGradients(np.array([[0.], [1.]]))
assert np.all(np.isfinite(ds)) and np.allclose(ds, 1 / (2 * s)), ds
'''),
dict(id='d22-distance-first', property='C06',
 edits=[(BO, "(len(self.X) > 1 and self._distance_last_evaluations() <= self.eps)", "(self.num_acquisitions > 0 and self._distance_last_evaluations() <= self.eps)")],
 needs='a run that starts (or continues) with two coinciding last evaluations',
 breaks='a run that should stop at once starts another acquisition',
 demo='''
import numpy as np, GPyOpt
np.random.seed(0)
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
bo = GPyOpt.methods.BayesianOptimization(lambda x: x, domain=space, X=np.array([[0.1], [0.5], [0.5]]))
bo.run_optimization(max_iter=3)
assert len(bo.X) == 3, bo.X
'''),
dict(id='d25-zero-jitter', property='C18',
 edits=[('GPyOpt/util/arguments_manager.py', "acquisition_jitter = self.kwargs.get('acquisition_jitter',0.01)", "acquisition_jitter = self.kwargs.get('acquisition_jitter') or 0.01")],
 needs='a jitter of zero requested explicitly',
 breaks='a jitter of zero is replaced by the default',
 demo='''
import numpy as np, GPyOpt
np.random.seed(0)
space = [{'name': 'x', 'type': 'continuous', 'domain': (0, 1)}]
for j, w in ((0.2, 0.2), (0, 0)):
    bo = GPyOpt.methods.BayesianOptimization(lambda x: x, domain=space, initial_design_numdata=2, acquisition_jitter=j)
    assert bo.acquisition.jitter == w, bo.acquisition.jitter
'''),
dict(id='d26-mcmc-incumbent', property='C08',
 edits=[('GPyOpt/acquisitions/MPI_mcmc.py', "        fmins = self.model.get_fmin()\n        f_acqu = 0\n", "        fmins = np.sort(self.model.get_fmin())\n        f_acqu = 0\n"),
        ('GPyOpt/acquisitions/MPI_mcmc.py', "from ..util.general import get_quantiles\n", "from ..util.general import get_quantiles\nimport numpy as np\n")],
 needs='hyper-parameter samples whose incumbents are not in increasing order',
 breaks='each sample is compared with the incumbent of another sample',
 demo='''
import numpy as np
from scipy.stats import norm
from GPyOpt.acquisitions import AcquisitionMPI_MCMC
class M:
    MCMC_sampler = True; analytical_gradient_prediction = True
    def __init__(self, f): self.f = f
    def predict(self, x): return [np.array([[0.]]), np.array([[1.]])], [np.array([[1.]]), np.array([[2.]])]
    def get_fmin(self): return self.f
for f in ([0.1, 0.7], [0.7, 0.1]):
    a = AcquisitionMPI_MCMC.__new__(AcquisitionMPI_MCMC)
    a.model, a.jitter = M(f), 0.01
    w = np.mean([norm.cdf((f[0] - 0 - .01) / 1), norm.cdf((f[1] - 1 - .01) / 2)])
    assert np.allclose(a._compute_acq(np.array([[0.]])), w), f
'''),
dict(id='d27-context-consumed', property='C22',
 edits=[(AO, "            for context_variable in context.keys():\n                variable = self.space.find_variable(context_variable)\n", "            while context:\n                context_variable, value = context.popitem()\n                variable = self.space.find_variable(context_variable)\n"),
        (AO, "self.context_value += variable.objective_to_model(context[context_variable])", "self.context_value += variable.objective_to_model(value)")],
 needs='a context dictionary used by the caller for a second request, or a run of more than one acquisition with a context',
 breaks='the caller\'s context dictionary is emptied',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.optimization.acquisition_optimizer import ContextManager
s = Design_space([{'name': n, 'type': 'continuous', 'domain': (0, 10)} for n in 'abc'])
c = {'c': 3., 'a': 1.}
m = ContextManager(s, c)
assert np.allclose(m._expand_vector(np.array([[2.]])), [[1, 2, 3]])
assert c == {'c': 3., 'a': 1.}, c
'''),
dict(id='d28-bound-tolerance', property='C01',
 edits=[(VA, "        elif rounded_value > max_value:\n            rounded_value = max_value\n", "        elif rounded_value > max_value and not np.isclose(rounded_value, max_value):\n            rounded_value = max_value\n")],
 needs='an optimiser result that exceeds the upper bound by a rounding error',
 breaks='values just above the upper bound are suggested',
 demo='''
import numpy as np
from GPyOpt.core.task.variables import ContinuousVariable
v = ContinuousVariable('x', (0., 1.))
assert v.round(np.array([1.5]))[0] == 1. and v.round(np.array([-1e-9]))[0] == 0.
assert v.round(np.array([1. + 1e-9]))[0] <= 1., v.round(np.array([1. + 1e-9]))
'''),
dict(id='d29-sobol-stream', property='C21',
 edits=[('GPyOpt/experiment_design/sobol_design.py', "            X_design = np.dot(i4_sobol_generate(len(self.space.get_continuous_bounds()),init_points_count),", "            X_design = np.dot(i4_sobol_generate(len(self.space.get_continuous_bounds()),init_points_count,SobolDesign._drawn),"),
        ('GPyOpt/experiment_design/sobol_design.py', "            samples[:, self.space.get_continuous_dims()] = X_design\n", "            samples[:, self.space.get_continuous_dims()] = X_design\n            SobolDesign._drawn += init_points_count\n"),
        ('GPyOpt/experiment_design/sobol_design.py', "    def __init__(self, space):\n", "    _drawn = 1 # length of the sequence used so far\n\n    def __init__(self, space):\n")],
 needs='two runs in one process with the same seed',
 breaks='a second run with the same seed continues the sequence of the first, so it suggests other locations',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}])
r = []
for i in range(2):
    np.random.seed(0)
    r.append(initial_design('sobol', s, 5))
assert np.allclose(*r), r
'''),
dict(id='d30-alpine-abs', property='C27',
 edits=[('GPyOpt/objective_examples/experimentsNd.py', "fval = np.abs(X*np.sin(X) + 0.1*X).sum(axis=1) ", "fval = (np.abs(X*np.sin(X)) + 0.1*np.abs(X)).sum(axis=1) ")],
 needs='a location with a negative coordinate, or one where x sin x is negative',
 breaks='alpine1 is not the published function where sin x and 0.1 have opposite signs',
 demo='''
import numpy as np
from GPyOpt.objective_examples.experimentsNd import alpine1
f = alpine1(2)
assert np.allclose(f.f(np.array([[1., 2.]])), sum(abs(x * np.sin(x) + .1 * x) for x in (1., 2.)))
assert np.allclose(f.f(np.array([[4., -5.]])), sum(abs(x * np.sin(x) + .1 * x) for x in (4., -5.)))
'''),
]
