T='GPyOpt/core/task/'; D='GPyOpt/experiment_design/'; A='GPyOpt/acquisitions/'; O='GPyOpt/optimization/'; U='GPyOpt/util/'; X='GPyOpt/objective_examples/'
BUGS = [
dict(id='g09-time-order', property='C09',
 edits=[(T+'cost.py', "                X_all = np.vstack((self.cost_model.model.X,x))", "                X_all = np.vstack((x,self.cost_model.model.X))")],
 needs='the evaluation time as the cost and at least two updates of the cost model',
 breaks='measured times are attributed to the locations of other measurements',
 demo='''
import numpy as np
from GPyOpt.core.task.cost import CostModel
c = CostModel('evaluation_time')
c.update_cost_model(np.array([[1.], [2.]]), [1., 2.])
X, Y = c.cost_model.model.X, np.exp(c.cost_model.model.Y)
assert np.allclose(X, Y)
c.update_cost_model(np.array([[3.]]), [3.])
X, Y = c.cost_model.model.X, np.exp(c.cost_model.model.Y)
assert np.allclose(X, Y), (X, Y)
'''),
dict(id='g10-last-constraint', property='C10',
 edits=[(T+'space.py', "                    I_x *= ind_x.reshape(x.shape[0],1)", "                    I_x = np.abs(I_x + ind_x.reshape(x.shape[0],1) - 1)")],
 needs='a location that violates two constraints at once',
 breaks='a location that violates an even number of constraints counts as feasible',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
d = [{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}]
s = Design_space(d, [{'name': 'c1', 'constraint': 'x[:,0] - 5'}])
assert s.indicator_constraints(np.array([[1.], [7.]])).flatten().tolist() == [1, 0]
s = Design_space(d, [{'name': 'c1', 'constraint': 'x[:,0] - 5'}, {'name': 'c2', 'constraint': 'x[:,0] - 8'}])
assert s.indicator_constraints(np.array([[1.], [7.], [9.]])).flatten().tolist() == [1, 0, 0]
'''),
dict(id='g11-negative-range', property='C11',
 edits=[(D+'sobol_design.py', "            diff = upper_bound-lower_bound", "            diff = abs(upper_bound)-lower_bound")],
 needs='a continuous variable whose upper bound is negative',
 breaks='design columns leave the domain of the variable',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design
np.random.seed(0)
for lower, upper in ((0, 1), (-3, 2), (-3, -1)):
    s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (lower, upper)}, {'name': 'b', 'type': 'continuous', 'domain': (0, 5)}])
    out = initial_design('sobol', s, 32)[:, 0]
    assert out.min() >= lower and out.max() <= upper, (lower, upper, out)
'''),
dict(id='g14-batch-kept', property='C14',
 edits=[(A+'LP.py', "        self.X_batch = X_batch\n        if X_batch is not None:\n", "        if X_batch is not None:\n            self.X_batch = X_batch\n")],
 needs='a second batch: the penalisation is to be reset between two batches',
 breaks='the first location of a batch is penalised around the locations of the previous batch',
 demo='''
import numpy as np
from GPyOpt.acquisitions import AcquisitionLP, AcquisitionEI
from GPyOpt.models import GPModel
from GPyOpt.core.task.space import Design_space
np.random.seed(0)
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 10)}])
m = GPModel(max_iters=0)
X = np.array([[1.], [4.], [8.]])
m.updateModel(X, np.sin(X), None, None)
acq = AcquisitionLP(m, s, None, AcquisitionEI(m, s, None))
x = np.array([[5.], [6.]])
acq.update_batches(None, None, None)
before = acq.acquisition_function(x)
acq.update_batches(np.array([[5.]]), 1., -1.)
assert not np.allclose(acq.acquisition_function(x), before)
acq.update_batches(None, None, None)
assert np.allclose(acq.acquisition_function(x), before)
'''),
dict(id='g19-evaluated-sign', property='C19',
 edits=[('GPyOpt/methods/bayesian_optimization.py', "            self.f = self._sign(f)", "            self.f = self._sign(f) if Y is None else f")],
 needs='maximisation, continued from initial values given by the user',
 breaks='the objective evaluated from then on is not negated although maximisation was requested',
 demo='''
import numpy as np
from GPyOpt.methods import BayesianOptimization
np.random.seed(0)
def f(x): return x ** 2
d = [{'name': 'a', 'type': 'continuous', 'domain': (-1, 1)}]
x = np.array([[.5], [-.25]])
bo = BayesianOptimization(f=f, domain=d, maximize=True)
assert np.allclose(bo.Y, -bo.X ** 2)
bo = BayesianOptimization(f=f, domain=d, maximize=True, X=x, Y=-x ** 2)
assert np.allclose(bo.objective.evaluate(x)[0], -x ** 2), bo.objective.evaluate(x)[0]
'''),
dict(id='g20-blocks', property='C20',
 edits=[(T+'objective.py', "        divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]", "        divided_samples = np.array_split(x, self.n_procs)")],
 needs='more rows than processes',
 breaks='values are stored at rows of other locations',
 demo='''
import numpy as np
from GPyOpt.core.task.objective import SingleObjective
def f(x): return x ** 2
x = np.arange(3.)[:, None]
o = SingleObjective(f, 3)
assert np.allclose(o.evaluate(x)[0], x ** 2)
x = np.arange(7.)[:, None]
assert np.allclose(o.evaluate(x)[0], x ** 2), o.evaluate(x)[0]
'''),
dict(id='g22-shift-in-place', property='C22',
 edits=[(U+'general.py', "        Y_norm = Y - Y.mean()", "        Y_norm = np.subtract(Y, Y.mean(), out=Y)")],
 needs='normalisation by the statistics of the data, the caller looking at its array afterwards',
 breaks='the observations passed in are shifted in place',
 demo='''
import numpy as np
from GPyOpt.util.general import normalize
Y = np.array([[1.], [2.], [6.]])
assert np.allclose(normalize(Y, 'maxmin'), [[-1], [-.6], [1]]) and Y[0, 0] == 1
assert abs(normalize(Y, 'stats').mean()) < 1e-12
assert Y.flatten().tolist() == [1, 2, 6], Y
'''),
dict(id='g24-unordered-starts', property='C24',
 edits=[(O+'anchor_points_generator.py', "X[np.argsort(scores)[:min(len(scores),num_anchor)], :]", "X[np.argsort(np.around(scores, 6))[:min(len(scores),num_anchor)], :]")],
 needs='scores that differ by less than one millionth',
 breaks='starting points are no longer in the order of their scores',
 demo='''
import numpy as np
from GPyOpt.core.task.space import Design_space
from GPyOpt.optimization.anchor_points_generator import ObjectiveAnchorPointsGenerator
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (-1, 1)}])
for seed in range(20):
    np.random.seed(seed)
    X = ObjectiveAnchorPointsGenerator(s, 'random', lambda x: 1e-7 * x ** 2, 200).get(num_anchor=30)
    assert np.all(np.diff(X.flatten() ** 2) >= 0), seed
'''),
dict(id='g25-empty-section', property='C25',
 edits=[('GPyOpt/interface/config_parser.py', "            if isinstance(v,dict) and k in config_default:", "            if isinstance(v,dict) and v and k in config_default:")],
 needs='a configuration with an empty section beside other sections',
 breaks='the defaults of the section are lost instead of being kept',
 demo='''
from copy import deepcopy
from GPyOpt.interface.config_parser import update_config, default_config
c = update_config({'resources': {'cores': 2}, 'model': {'type': 'RF'}}, deepcopy(default_config))
assert c['resources']['cores'] == 2 and c['resources']['maximum-iterations'] == 20 and c['model']['type'] == 'RF'
c = update_config({'resources': {'cores': 2}, 'model': {}}, deepcopy(default_config))
assert c['model'] == default_config['model'], c['model']
'''),
dict(id='g27-shared-noise', property='C27',
 edits=[(X+'experimentsNd.py', """np.cumprod(np.sin(X),axis=1)[:,self.input_dim-1]  
        if self.sd ==0:
            noise = np.zeros(n).reshape(n,1)
        else:
            noise = np.random.normal(0,self.sd,n).reshape(n,1)
""", """np.cumprod(np.sin(X),axis=1)[:,self.input_dim-1]  
        if self.sd ==0:
            noise = np.zeros(n).reshape(n,1)
        else:
            noise = np.full((n,1), np.random.normal(0,self.sd))
""")],
 needs='a noisy evaluation of several rows at once',
 breaks='all rows of one call share one noise draw instead of being evaluated independently',
 demo='''
import numpy as np
from GPyOpt.objective_examples.experimentsNd import alpine2
np.random.seed(0)
f = alpine2(2, sd=0.1)
x = np.ones((6, 2))
assert f.f(x).shape == (6, 1) and np.allclose(alpine2(2).f(x), alpine2(2).f(x)[0])
assert len(set(f.f(x).flatten())) == 6
'''),
dict(id='g29-beliefs-kept', property='C29',
 edits=[(A+'ES.py', "        self.logP, self.dlogPdMu, self.dlogPdSigma, self.dlogPdMudMu = epmgp.joint_min(mu, var, with_derivatives=True)\n        # add a second dimension to the array\n        self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))",
  "        if self.logP is None or self.logP.shape[0] != mu.shape[0]:\n            self.logP, self.dlogPdMu, self.dlogPdSigma, self.dlogPdMudMu = epmgp.joint_min(mu, var, with_derivatives=True)\n            # add a second dimension to the array\n            self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))")],
 needs='an acquisition evaluated, the model retrained, and the acquisition evaluated again',
 breaks='the belief about the minimum is the one under the previous model',
 demo='''
import numpy as np
from GPyOpt.acquisitions.ES import AcquisitionEntropySearch
from GPyOpt.core.task.space import Design_space
s = Design_space([{'name': 'a', 'type': 'continuous', 'domain': (0, 1)}])
class Sampler:
    def get_samples(self, n, f, burn): return np.linspace(.05, .95, n)[:, None], np.zeros((n, 1))
from GPyOpt.models import GPModel
m = GPModel(max_iters=0, exact_feval=False)
x = np.array([[.1], [.5], [.9]])
def es():
    return AcquisitionEntropySearch(m, s, Sampler(), num_samples=20, num_representer_points=8, proposal_function=lambda x: 0.)
X = np.array([[.2], [.5], [.8]])
np.random.seed(0); m.updateModel(X, np.array([[1.], [-1.], [1.]]), None, None); a = es(); a.acquisition_function(x); first = a.logP.copy()
m.updateModel(X, np.array([[-3.], [2.], [1.]]), None, None); a.acquisition_function(x)
b = es(); b.acquisition_function(x)
assert not np.allclose(first, b.logP)
assert np.allclose(a.logP, b.logP)
'''),
]
