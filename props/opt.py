"""C01 C02 C03 C09 C10 C14 C18 C24: acquisition weighting, its optimisation, contexts, anchor points, batches."""
from .common import *
from .acq import matrix_in

ACQ_EFF = ['_compute_acq', '_compute_acq_withGradients']

ob('C09', 'AcquisitionBase.__init__', ('AcquisitionBase', '__init__'), 'ref_acquisition_base_init', what=('fields', 'raises'))
ob('C09', 'AcquisitionBase.acquisition_function', ('AcquisitionBase', 'acquisition_function'), 'ref_acq_weighted',
   opaque=['AcquisitionBase._compute_acq', 'Design_space.zip_inputs', 'Design_space.indicator_constraints'])
ob('C10', 'AcquisitionBase.acquisition_function', ('AcquisitionBase', 'acquisition_function'), 'ref_acq_weighted',
   opaque=['AcquisitionBase._compute_acq', 'Design_space.zip_inputs', 'Design_space.indicator_constraints'])
ob('C09', 'AcquisitionBase.acquisition_function_withGradients', ('AcquisitionBase', 'acquisition_function_withGradients'), 'ref_acq_weighted_grad',
   opaque=['AcquisitionBase._compute_acq_withGradients', 'Design_space.zip_inputs', 'Design_space.indicator_constraints'])
ob('C24', 'AcquisitionBase.optimize', ('AcquisitionBase', 'optimize'), 'ref_acq_optimize')

OPTS = ['OptLbfgs', 'OptDirect', 'OptCma']
ob('C24', 'OptLbfgs.optimize', ('OptLbfgs', 'optimize'), 'ref_lbfgs')
ob('C24', 'OptDirect.optimize', ('OptDirect', 'optimize'), 'ref_direct')
ob('C24', 'OptCma.optimize', ('OptCma', 'optimize'), 'ref_cma')
CTX = dict(opaque=['ContextManager._expand_vector', 'Design_space.round_optimum', 'DuplicateManager.is_unzipped_x_duplicate'])
ob('C01', 'apply_optimizer', ('fn', 'apply_optimizer'), 'ref_apply_optimizer', opaque_classes=['OptimizationWithContext'], **CTX)
ob('C02', 'apply_optimizer', ('fn', 'apply_optimizer'), 'ref_apply_optimizer', opaque_classes=['OptimizationWithContext'], **CTX)
ob('C03', 'OptimizationWithContext.__init__', ('OptimizationWithContext', '__init__'), 'ref_context_problem', what=('fields', 'raises'))
ob('C03', 'OptimizationWithContext.f_nc', ('OptimizationWithContext', 'f_nc'), 'ref_f_nc', **CTX)
ob('C03', 'OptimizationWithContext.df_nc', ('OptimizationWithContext', 'df_nc'), 'ref_df_nc', **CTX)
ob('C03', 'OptimizationWithContext.f_df_nc', ('OptimizationWithContext', 'f_df_nc'), 'ref_f_df_nc', **CTX)


def expanded(t):
    """the space counts its expanded variables when it is built"""
    if t.op == 'attr' and t.args[1] == 'objective_dimensionality' and t.args[0] is sym('space'):
        return length(raw('attr', t.args[0], 'config_space_expanded'))
    return None


ob('C03', 'ContextManager.__init__', ('ContextManager', '__init__'), 'ref_context_init', what=('fields', 'raises'), given=('given_bounds',),
   args={'context': ('opt', 'dict')}, assume=expanded)
ob('C03', 'ContextManager._expand_vector', ('ContextManager', '_expand_vector'), ('ref_expand_vector', 'ref_expand_vector_context_first'), given=('given_parts',))

GEN = ['AnchorPointsGenerator.get']
AN = dict(opaque=['initial_design', 'Design_space._has_bandit', 'Design_space.unzip_inputs', 'Design_space.zip_inputs', 'Design_space.has_constraints',
                  'Design_space.indicator_constraints', 'ContextManager._expand_vector', 'DuplicateManager.is_unzipped_x_duplicate',
                  'AnchorPointsGenerator.get_anchor_point_scores'], opaque_classes=['Design_space'])
for pr in ('C24', 'C02', 'C10', 'C03'):
    ob(pr, 'AnchorPointsGenerator.get', ('AnchorPointsGenerator', 'get'), 'ref_anchor_get', **AN)
ob('C24', 'ObjectiveAnchorPointsGenerator.scores', ('ObjectiveAnchorPointsGenerator', 'get_anchor_point_scores'), 'ref_scores_objective')
ob('C24', 'ThompsonSamplingAnchorPointsGenerator.scores', ('ThompsonSamplingAnchorPointsGenerator', 'get_anchor_point_scores'), 'ref_scores_thompson')
ob('C24', 'RandomAnchorPointsGenerator.scores', ('RandomAnchorPointsGenerator', 'get_anchor_point_scores'), 'ref_scores_random')
GENS = ['ObjectiveAnchorPointsGenerator', 'ThompsonSamplingAnchorPointsGenerator', 'RandomAnchorPointsGenerator']
ob('C24', 'AcquisitionOptimizer.__init__', ('AcquisitionOptimizer', '__init__'), 'ref_acquisition_optimizer_init', what=('fields', 'raises'), opaque_classes=['ContextManager'])
ob('C24', 'AcquisitionOptimizer.optimize', ('AcquisitionOptimizer', 'optimize'), 'ref_acqopt', what=('value', 'raises', 'fields'),
   opaque=['choose_optimizer', 'apply_optimizer'] + GEN, opaque_classes=GENS)

ob('C14', 'Sequential.compute_batch', ('Sequential', 'compute_batch'), 'ref_sequential')
ob('C14', 'SamplingBasedBatchEvaluator.__init__', ('SamplingBasedBatchEvaluator', '__init__'), 'ref_sampling_init', what=('fields', 'raises'))
ob('C14', 'RandomBatch.__init__', ('RandomBatch', '__init__'), 'ref_sampling_init', what=('fields', 'raises'))
ob('C14', 'ThompsonBatch.__init__', ('ThompsonBatch', '__init__'), 'ref_thompson_init', what=('fields', 'raises'))
ob('C02', 'SamplingBasedBatchEvaluator.zip_and_tuple', ('SamplingBasedBatchEvaluator', 'zip_and_tuple'), 'ref_zip_and_tuple', opaque=['Design_space.zip_inputs'])
SB = ['SamplingBasedBatchEvaluator.' + m for m in ('compute_batch_without_duplicate_logic', 'get_anchor_points', 'initialize_batch', 'optimize_anchor_point', 'zip_and_tuple')]
for pr in ('C02', 'C14'):
    ob(pr, 'SamplingBasedBatchEvaluator.compute_batch', ('SamplingBasedBatchEvaluator', 'compute_batch'), 'ref_compute_batch', opaque=SB,
       what=('value', 'raises', 'loops'), effects=['optimize_anchor_point'])
for _c, _r in (('RandomBatch', 'random'), ('ThompsonBatch', 'thompson')):
    ob('C14', _c + '.initialize_batch', (_c, 'initialize_batch'), 'ref_%s_first' % _r)
    ob('C14', _c + '.get_anchor_points', (_c, 'get_anchor_points'), 'ref_%s_anchors' % _r, opaque=GEN, opaque_classes=GENS)
    ob('C14', _c + '.optimize_anchor_point', (_c, 'optimize_anchor_point'), 'ref_%s_anchor' % _r,
       opaque=['choose_optimizer', 'apply_optimizer', 'Design_space.round_optimum'])
    ob('C14', _c + '.compute_batch_without_duplicate_logic', (_c, 'compute_batch_without_duplicate_logic'), 'ref_%s_plain' % _r,
       opaque=[_c + '.get_anchor_points', _c + '.initialize_batch', _c + '.optimize_anchor_point'])
for pr in ('C02', 'C14'):
    ob(pr, 'LocalPenalization.compute_batch', ('LocalPenalization', 'compute_batch'), 'ref_lp_batch', what=('value', 'raises', 'events', 'loops'),
       opaque=['estimate_L'], effects=['update_batches', 'add_unzipped_x', 'optimize'])
ob('C14', 'estimate_L', ('fn', 'estimate_L'), 'ref_estimate_L', opaque=['samples_multidimensional_uniform'])
