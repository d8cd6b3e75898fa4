"""Reference definitions: which component every documented option value builds (C18, C19)."""
import GPyOpt
from GPyOpt.core.bo import BO
from GPyOpt.core.errors import InvalidConfigError, InvalidVariableNameError
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.core.task.cost import CostModel, constant_cost_withGradients
from GPyOpt.core.evaluators import Sequential, RandomBatch, LocalPenalization, ThompsonBatch
from GPyOpt.acquisitions import (AcquisitionEI, AcquisitionMPI, AcquisitionLCB, AcquisitionEI_MCMC, AcquisitionMPI_MCMC,
                                 AcquisitionLCB_MCMC, AcquisitionLP, AcquisitionEntropySearch)
from GPyOpt.models.gpmodel import GPModel, GPModel_MCMC
from GPyOpt.models.rfmodel import RFModel
from GPyOpt.models.warpedgpmodel import WarpedGPModel
from GPyOpt.models.input_warped_gpmodel import InputWarpedGPModel
from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer, ContextManager
from GPyOpt.optimization.optimizer import OptLbfgs, OptDirect, OptCma
from GPyOpt.experiment_design import RandomDesign, SobolDesign, GridDesign, LatinDesign, initial_design
from GPyOpt.core.task.variables import ContinuousVariable, DiscreteVariable, CategoricalVariable, BanditVariable
from GPyOpt.util.arguments_manager import ArgumentsManager


def ref_evaluator(self, evaluator_type, acquisition, batch_size, model_type, model, space, acquisition_optimizer):
    transformation = self.kwargs.get('acquisition_transformation', 'none')
    if batch_size == 1 or evaluator_type == 'sequential':
        return Sequential(acquisition)
    if batch_size > 1 and (evaluator_type is None or evaluator_type == 'random'):
        return RandomBatch(acquisition, batch_size)
    if batch_size > 1 and evaluator_type == 'thompson_sampling':
        return ThompsonBatch(acquisition, batch_size)
    if evaluator_type == 'local_penalization':
        if model_type not in ['GP', 'sparseGP', 'GP_MCMC', 'warpedGP']:
            raise InvalidConfigError('model')
        if isinstance(acquisition, AcquisitionLP):
            penalised = acquisition
        else:
            penalised = AcquisitionLP(model, space, acquisition_optimizer, acquisition, transformation)
        return LocalPenalization(penalised, batch_size)
    raise InvalidConfigError('evaluator')


def ref_acquisition(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
    jitter = self.kwargs.get('acquisition_jitter', 0.01)
    weight = self.kwargs.get('acquisition_weight', 2)
    if acquisition_type is None or acquisition_type == 'EI':
        return AcquisitionEI(model, space, acquisition_optimizer, cost_withGradients, jitter=jitter)
    if acquisition_type == 'EI_MCMC':
        return AcquisitionEI_MCMC(model, space, acquisition_optimizer, cost_withGradients, jitter=jitter)
    if acquisition_type == 'MPI':
        return AcquisitionMPI(model, space, acquisition_optimizer, cost_withGradients, jitter=jitter)
    if acquisition_type == 'MPI_MCMC':
        return AcquisitionMPI_MCMC(model, space, acquisition_optimizer, cost_withGradients, jitter=jitter)
    if acquisition_type == 'LCB':
        return AcquisitionLCB(model, space, acquisition_optimizer, None, exploration_weight=weight)
    if acquisition_type == 'LCB_MCMC':
        return AcquisitionLCB_MCMC(model, space, acquisition_optimizer, None, exploration_weight=weight)
    raise Exception('acquisition')


def ref_model(self, model_type, exact_feval, space):
    o = self.kwargs
    kernel = o.get('kernel', None)
    ard = o.get('ARD', False)
    verbose = o.get('verbosity_model', False)
    noise = o.get('noise_var', None)
    optimizer = o.get('model_optimizer_type', 'lbfgs')
    iters = o.get('max_iters', 1000)
    restarts = o.get('optimize_restarts', 5)
    if model_type == 'GP' or model_type == 'sparseGP':
        return GPModel(kernel=kernel, noise_var=noise, exact_feval=exact_feval, optimizer=optimizer, max_iters=iters,
                       optimize_restarts=restarts, sparse=model_type == 'sparseGP', num_inducing=o.get('num_inducing', 10),
                       verbose=verbose, ARD=ard)
    if model_type == 'GP_MCMC':
        return GPModel_MCMC(kernel=kernel, noise_var=noise, exact_feval=exact_feval, n_samples=o.get('n_samples', 10),
                            n_burnin=o.get('n_burnin', 100), subsample_interval=o.get('subsample_interval', 10),
                            step_size=o.get('step_size', 1e-1), leapfrog_steps=o.get('leapfrog_steps', 20), verbose=verbose)
    if model_type == 'RF':
        return RFModel(verbose=verbose)
    if model_type == 'warpedGP':
        return WarpedGPModel()
    if model_type == 'input_warped_GP' or model_type == 'InputWarpedGP':
        return InputWarpedGPModel(space, warping_function=None, kernel=kernel, noise_var=noise, exact_feval=exact_feval,
                                  optimizer=optimizer, max_iters=iters, optimize_restarts=restarts, verbose=verbose, ARD=ard)
    raise InvalidConfigError('model')


def ref_choose_optimizer(optimizer_name, bounds):
    if optimizer_name == 'lbfgs':
        return OptLbfgs(bounds)
    if optimizer_name == 'DIRECT':
        return OptDirect(bounds)
    if optimizer_name == 'CMA':
        return OptCma(bounds)
    raise InvalidVariableNameError('optimizer')


def ref_initial_design(design_name, space, init_points_count):
    if design_name == 'random':
        d = RandomDesign(space)
    elif design_name == 'sobol':
        d = SobolDesign(space)
    elif design_name == 'grid':
        d = GridDesign(space)
    elif design_name == 'latin':
        d = LatinDesign(space)
    else:
        raise ValueError('design')
    return d.get_samples(init_points_count)


def ref_select_acquisition(name):
    if name == 'EI':
        return AcquisitionEI
    if name == 'EI_MCMC':
        return AcquisitionEI_MCMC
    if name == 'LCB':
        return AcquisitionLCB
    if name == 'LCB_MCMC':
        return AcquisitionLCB_MCMC
    if name == 'MPI':
        return AcquisitionMPI
    if name == 'MPI_MCMC':
        return AcquisitionMPI_MCMC
    if name == 'LP':
        return AcquisitionLP
    if name == 'ES':
        return AcquisitionEntropySearch
    raise Exception('acquisition')


def ref_select_evaluator(name):
    if name == 'sequential':
        return Sequential
    if name == 'random':
        return RandomBatch
    if name == 'local_penalization':
        return LocalPenalization
    if name == 'thompson_sampling':
        return ThompsonBatch
    raise Exception('evaluator')


def ref_select_model(name):
    if name == 'GP':
        return GPModel
    if name == 'GP_MCMC':
        return GPModel_MCMC
    if name == 'RF':
        return RFModel
    if name == 'warpGP':
        return WarpedGPModel
    raise Exception('model')


def ref_EI_fromConfig(model, space, optimizer, cost_withGradients, config):
    return AcquisitionEI(model, space, optimizer, cost_withGradients, jitter=config['jitter'])


def ref_MPI_fromConfig(model, space, optimizer, cost_withGradients, config):
    return AcquisitionMPI(model, space, optimizer, cost_withGradients, jitter=config['jitter'])


def ref_EI_MCMC_fromConfig(model, space, optimizer, cost_withGradients, config):
    return AcquisitionEI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])


def ref_MPI_MCMC_fromConfig(model, space, optimizer, cost_withGradients, config):
    return AcquisitionMPI_MCMC(model, space, optimizer, cost_withGradients, jitter=config['jitter'])


# ------------------------------------------------------------------ constructors keep what they are given
def ref_acq_init(self, model, space, optimizer=None, cost_withGradients=None, jitter=0.01):
    self.model = model
    self.space = space
    self.optimizer = optimizer
    self.analytical_gradient_acq = self.analytical_gradient_prediction and model.analytical_gradient_prediction
    self.cost_withGradients = constant_cost_withGradients if cost_withGradients is None else cost_withGradients
    self.jitter = jitter


def ref_lcb_init(self, model, space, optimizer=None, cost_withGradients=None, exploration_weight=2):
    self.model = model
    self.space = space
    self.optimizer = optimizer
    self.analytical_gradient_acq = self.analytical_gradient_prediction and model.analytical_gradient_prediction
    self.cost_withGradients = constant_cost_withGradients
    self.exploration_weight = exploration_weight


def ref_lp_init(self, model, space, optimizer, acquisition, transform='none'):
    self.model = model
    self.space = space
    self.optimizer = optimizer
    self.analytical_gradient_acq = self.analytical_gradient_prediction and model.analytical_gradient_prediction
    self.cost_withGradients = constant_cost_withGradients
    self.acq = acquisition
    transform = transform.lower()
    if transform == 'none' and isinstance(acquisition, AcquisitionLCB):
        transform = 'softplus'
    if transform == 'none' and isinstance(acquisition, AcquisitionLCB_MCMC):
        transform = 'softplus'
    self.transform = transform
    self.X_batch = None


def ref_gp_init(self, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs', max_iters=1000, optimize_restarts=5,
                sparse=False, num_inducing=10, verbose=True, ARD=False, mean_function=None):
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.max_iters = max_iters
    self.optimize_restarts = optimize_restarts
    self.sparse = sparse
    self.num_inducing = num_inducing
    self.verbose = verbose
    self.ARD = ARD
    self.mean_function = mean_function
    self.model = None


def ref_mcmc_init(self, kernel=None, noise_var=None, exact_feval=False, n_samples=10, n_burnin=100, subsample_interval=10,
                  step_size=1e-1, leapfrog_steps=20, verbose=False):
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.n_samples = n_samples
    self.n_burnin = n_burnin
    self.subsample_interval = subsample_interval
    self.step_size = step_size
    self.leapfrog_steps = leapfrog_steps
    self.verbose = verbose
    self.model = None


def ref_warped_init(self, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs', max_iters=1000, optimize_restarts=5,
                    warping_function=None, warping_terms=3, verbose=False):
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.max_iters = max_iters
    self.optimize_restarts = optimize_restarts
    self.warping_function = warping_function
    self.warping_terms = warping_terms
    self.verbose = verbose
    self.model = None


def ref_input_warped_init(self, space, warping_function=None, kernel=None, noise_var=None, exact_feval=False, optimizer='bfgs',
                          max_iters=1000, optimize_restarts=5, verbose=False, ARD=False):
    self.space = space
    self.warping_function = warping_function
    self.kernel = kernel
    self.noise_var = noise_var
    self.exact_feval = exact_feval
    self.optimizer = optimizer
    self.max_iters = max_iters
    self.optimize_restarts = optimize_restarts
    self.verbose = verbose
    self.ARD = ARD
    self.model = None


def ref_rf_init(self, bootstrap=True, criterion='mse', max_depth=None, max_features='auto', max_leaf_nodes=None, min_samples_leaf=1,
                min_samples_split=2, min_weight_fraction_leaf=0.0, n_estimators=500, n_jobs=1, oob_score=False, random_state=None,
                verbose=0, warm_start=False):
    self.bootstrap = bootstrap
    self.criterion = criterion
    self.max_depth = max_depth
    self.max_features = max_features
    self.max_leaf_nodes = max_leaf_nodes
    self.min_samples_leaf = min_samples_leaf
    self.min_samples_split = min_samples_split
    self.min_weight_fraction_leaf = min_weight_fraction_leaf
    self.n_estimators = n_estimators
    self.n_jobs = n_jobs
    self.oob_score = oob_score
    self.random_state = random_state
    self.verbose = verbose
    self.warm_start = warm_start
    self.model = None


def ref_objective_init(self, func, num_cores=1, objective_name='no_name', batch_type='synchronous', space=None):
    self.func = func
    self.n_procs = num_cores
    self.objective_name = objective_name


def ref_bo_init(self, model, space, objective, acquisition, evaluator, X_init, Y_init=None, cost=None, normalize_Y=True,
                model_update_interval=1, de_duplication=False):
    self.model = model
    self.space = space
    self.objective = objective
    self.acquisition = acquisition
    self.evaluator = evaluator
    self.X = X_init
    self.Y = Y_init
    self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
    self.normalize_Y = normalize_Y
    self.normalization_type = 'stats'
    self.model_update_interval = model_update_interval
    self.de_duplication = de_duplication
    self.context = None
    self.num_acquisitions = 0
    self.model_parameters_iterations = None


def ref_acqopt_init(self, space, optimizer='lbfgs', **kwargs):
    self.space = space
    self.optimizer_name = optimizer
    if 'model' in kwargs:
        self.model = kwargs['model']
    self.type_anchor_points_logic = kwargs['type_anchor_points_logic'] if 'type_anchor_points_logic' in kwargs else 'max_objective'
    self.context_manager = ContextManager(space)


def ref_method_init(self, f, domain=None, constraints=None, cost_withGradients=None, model_type='GP', X=None, Y=None,
                    initial_design_numdata=5, initial_design_type='random', acquisition_type='EI', normalize_Y=True,
                    exact_feval=False, acquisition_optimizer_type='lbfgs', model_update_interval=1, evaluator_type='sequential',
                    batch_size=1, num_cores=1, verbosity=False, verbosity_model=False, maximize=False, de_duplication=False, **kwargs):
    manager = ArgumentsManager(kwargs)
    self.space = Design_space(domain, constraints)
    self.cost = CostModel(cost_withGradients)
    if f is None:
        self.objective = None
        if X is None or Y is None:
            raise InvalidConfigError('data')
    else:
        if maximize:
            def g(x):
                return -f(x)
        else:
            g = f
        self.objective = SingleObjective(g, num_cores, kwargs['objective_name'] if 'objective_name' in kwargs else 'no_name')
    if X is None:
        X = initial_design(initial_design_type, self.space, initial_design_numdata)
        Y, times = self.objective.evaluate(X)
        self.cost.update_cost_model(self.space.unzip_inputs(X), times)
    elif Y is None:
        Y, times = self.objective.evaluate(X)
        self.cost.update_cost_model(self.space.unzip_inputs(X), times)
    self.X = X
    self.Y = Y
    kind = model_type
    if 'model' in kwargs and isinstance(kwargs['model'], GPyOpt.models.base.BOModel):
        self.model = kwargs['model']
        kind = 'User defined model used.'
    else:
        self.model = manager.model_creator(model_type, exact_feval, self.space)
    options = dict(kwargs)
    options['model'] = self.model
    optimizer = AcquisitionOptimizer(self.space, acquisition_optimizer_type, **options)
    if 'acquisition' in kwargs and isinstance(kwargs['acquisition'], GPyOpt.acquisitions.AcquisitionBase):
        self.acquisition = kwargs['acquisition']
    else:
        self.acquisition = manager.acquisition_creator(acquisition_type, self.model, self.space, optimizer, self.cost.cost_withGradients)
    self.evaluator = manager.evaluator_creator(evaluator_type, self.acquisition, batch_size, kind, self.model, self.space, optimizer)
    self.normalize_Y = normalize_Y
    self.model_update_interval = model_update_interval
    self.de_duplication = de_duplication
    self.normalization_type = 'stats'
