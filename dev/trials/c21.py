RD='GPyOpt/experiment_design/random_design.py'
TRIALS=[
 dict(id='s1',expect={'C21'},edits=[(RD,'np.random.choice(var.domain, init_points_count)','np.random.RandomState(0).choice(var.domain, init_points_count)')]),
 dict(id='s2',expect={'C21'},edits=[(RD,'sample_var = np.atleast_2d(np.random.choice','import random; sample_var = np.atleast_2d(random.choices'),]),
 dict(id='s3',expect={'C21'},edits=[('GPyOpt/optimization/optimizer.py',', "seed":np.nan','')]),
 dict(id='s4',expect={'C21'},edits=[('GPyOpt/util/mcmc_sampler.py','        sampler.random_state = np','        st = np')]),
 dict(id='s5',expect={'C21'},edits=[('GPyOpt/core/task/space.py','import numpy as np\n','import numpy as np\n_SEEN = {}\ndef memo(k):\n    _SEEN[k] = 1\n')]),
 dict(id='s6',expect={'C21'},edits=[('GPyOpt/models/gpmodel.py','self.model.param_array * (1.+np.random.randn','self.model.param_array * (1.+np.random.default_rng().standard_normal'),]),
 dict(id='s7',expect={'C21'},edits=[('GPyOpt/core/evaluators/batch_random.py','        design_type, unique = "random", False','        import time\n        np.random.seed(int(time.time()))\n        design_type, unique = "random", False')]),
 dict(id='s8',expect={'C21'},edits=[('GPyOpt/optimization/acquisition_optimizer.py','for context_variable in self.context.keys():','for context_variable in set(self.context.keys()):')]),
 dict(id='s9',expect={'C21'},edits=[('GPyOpt/models/rfmodel.py','random_state = self.random_state','random_state = 1')]),
 dict(id='q1',expect=set(),props=['C21'],edits=[('GPyOpt/acquisitions/ES.py','idx = list(set(range(self.num_repr_points)) - set(idx_to_remove))','idx = sorted(set(range(self.num_repr_points)).difference(idx_to_remove))')]),
 dict(id='q2',expect=set(),props=['C21'],edits=[(RD,'np.random.choice(var.domain, init_points_count)','np.random.RandomState(np.random.randint(100)).choice(var.domain, init_points_count)')]),
]
