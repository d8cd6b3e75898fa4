"""C18 C19: options, wiring, maximisation."""
from .common import *

MODELS = ['GPModel', 'GPModel_MCMC', 'RFModel', 'WarpedGPModel', 'InputWarpedGPModel']
EVALS = ['Sequential', 'RandomBatch', 'LocalPenalization', 'ThompsonBatch']
ACQS = ['AcquisitionEI', 'AcquisitionMPI', 'AcquisitionLCB', 'AcquisitionEI_MCMC', 'AcquisitionMPI_MCMC', 'AcquisitionLCB_MCMC',
        'AcquisitionLP', 'AcquisitionEntropySearch']
DESIGNS = ['RandomDesign', 'SobolDesign', 'GridDesign', 'LatinDesign']
OPTS = ['OptLbfgs', 'OptDirect', 'OptCma', 'AcquisitionOptimizer']
ALL = MODELS + EVALS + ACQS + DESIGNS + OPTS + ['ContextManager', 'CostModel', 'Design_space', 'SingleObjective']

ob('C18', 'ArgumentsManager.evaluator_creator', ('ArgumentsManager', 'evaluator_creator'), 'ref_evaluator', opaque_classes=ALL)
ob('C18', 'ArgumentsManager.acquisition_creator', ('ArgumentsManager', 'acquisition_creator'), 'ref_acquisition', opaque_classes=ALL)
ob('C18', 'ArgumentsManager.model_creator', ('ArgumentsManager', 'model_creator'), 'ref_model', opaque_classes=ALL)
ob('C18', 'choose_optimizer', ('fn', 'choose_optimizer'), 'ref_choose_optimizer', opaque_classes=ALL)
ob('C18', 'initial_design', ('fn', 'initial_design', 'GPyOpt.experiment_design'), 'ref_initial_design', opaque_classes=ALL)
ob('C18', 'select_acquisition', ('fn', 'select_acquisition'), 'ref_select_acquisition', opaque_classes=ALL)
ob('C18', 'select_evaluator', ('fn', 'select_evaluator'), 'ref_select_evaluator', opaque_classes=ALL)
ob('C18', 'select_model', ('fn', 'select_model'), 'ref_select_model', opaque_classes=ALL)
for _c in ('EI', 'MPI', 'EI_MCMC', 'MPI_MCMC'):
    ob('C18', 'Acquisition%s.fromConfig' % _c, ('Acquisition' + _c, 'fromConfig'), 'ref_%s_fromConfig' % _c, opaque_classes=ALL)


def keeps(cls, ref, **k):
    ob('C18', cls + '.__init__', (cls, '__init__'), ref, what=('fields',), **k)


for _c in ('EI', 'MPI', 'EI_MCMC', 'MPI_MCMC'):
    keeps('Acquisition' + _c, 'ref_acq_init')
for _c in ('LCB', 'LCB_MCMC'):
    keeps('Acquisition' + _c, 'ref_lcb_init')
keeps('AcquisitionLP', 'ref_lp_init')
keeps('GPModel', 'ref_gp_init')
keeps('GPModel_MCMC', 'ref_mcmc_init')
keeps('WarpedGPModel', 'ref_warped_init')
keeps('InputWarpedGPModel', 'ref_input_warped_init')
keeps('RFModel', 'ref_rf_init')
keeps('SingleObjective', 'ref_objective_init')
keeps('BO', 'ref_bo_init', opaque_classes=ALL)
keeps('ModularBayesianOptimization', 'ref_bo_init', opaque_classes=ALL)
keeps('AcquisitionOptimizer', 'ref_acqopt_init', opaque_classes=['ContextManager'])
METHOD = dict(opaque_classes=ALL + ['ArgumentsManager'], opaque=['initial_design', 'SingleObjective.evaluate', 'CostModel.update_cost_model', 'Design_space.unzip_inputs'], effects=['evaluate'])
ob('C18', 'BayesianOptimization.__init__', ('BayesianOptimization', '__init__'), 'ref_method_init', what=('fields', 'raises'),
   fields=('space', 'cost', 'model', 'acquisition', 'evaluator', 'normalize_Y', 'model_update_interval', 'de_duplication', 'normalization_type'), **METHOD)
ob('C19', 'BayesianOptimization.__init__.data', ('BayesianOptimization', '__init__'), 'ref_method_init', what=('fields', 'raises', 'events'),
   fields=('objective', 'X', 'Y'), **METHOD)
