"""Obligations that decide a step of another property's implementation chain as well.

A property is a statement about the whole chain of functions between the entry point and the observable value; each
function is compared with its reference once, and the comparison is listed under every property whose chain it is on."""
import copy
import fnmatch
from .common import OBS

ROUND = ['C13:*.round', 'C13:Design_space.round_optimum']
BATCH = ['C14:Sequential.*', 'C14:SamplingBasedBatchEvaluator.compute_batch', 'C14:RandomBatch.*', 'C14:ThompsonBatch.*',
         'C14:LocalPenalization.compute_batch', 'C02:SamplingBasedBatchEvaluator.zip_and_tuple']
CONTEXT = ['C03:OptimizationWithContext.*', 'C03:ContextManager.*', 'C03:Design_space.*']
ACQOPT = ['C24:AcquisitionOptimizer.optimize', 'C24:AcquisitionBase.optimize', 'C02:apply_optimizer', 'C24:AnchorPointsGenerator.get']
DESIGN = ['C11:*.get_samples*', 'C10:RandomDesign.*', 'C11:*fill_noncontinous_variables', 'C11:*samples_multidimensional_uniform',
          'C11:Design_space.*', 'C11:multigrid']
LAYOUT = ['C12:Design_space.*', 'C12:*.objective_to_model', 'C12:*.model_to_objective']
EVALUATE = ['C20:SingleObjective.*']
COST = ['C20:SingleObjective._eval_func', 'C09:constant_cost_withGradients', 'C09:CostModel.*', 'C09:AcquisitionBase.*']

SHARE = {
    'C01': ROUND + BATCH + CONTEXT + ACQOPT + DESIGN + LAYOUT + ['C26:BO.suggest_next_locations', 'C12:*.get_bounds', 'C12:*.expand'],
    'C02': BATCH + ['C26:BO.suggest_next_locations', 'C24:AcquisitionOptimizer.optimize', 'C24:AcquisitionBase.optimize',
                    'C12:Design_space.zip_inputs', 'C12:Design_space.unzip_inputs', 'C13:Design_space.round_optimum',
                    'C18:BO.__init__', 'C24:AnchorPointsGenerator.get'],
    'C03': ['C24:AnchorPointsGenerator.get', 'C02:BO._compute_next_evaluations', 'C26:BO.suggest_next_locations', 'C24:AcquisitionOptimizer.optimize', 'C24:AcquisitionBase.optimize',
            'C02:apply_optimizer', 'C14:Sequential.*', 'C14:RandomBatch.*', 'C14:ThompsonBatch.*', 'C14:LocalPenalization.compute_batch',
            'C14:SamplingBasedBatchEvaluator.compute_batch', 'C12:Design_space.get_bounds'],
    'C04': EVALUATE + ['C18:BO.__init__', 'C19:BayesianOptimization.__init__.data'],
    'C05': ['C04:BO.run_optimization.history'],
    'C07': COST + ['C15:GPModel.predict_withGradients', 'C16:GPModel_MCMC.predict_withGradients', 'C10:Design_space.indicator_constraints'],
    'C08': ['C24:AcquisitionBase.optimize', 'C09:AcquisitionBase.*', 'C15:GPModel.get_fmin', 'C16:GPModel_MCMC.get_fmin'],
    'C09': ['C20:SingleObjective.*', 'C26:BO.run_optimization.refit'],
    'C10': ['C09:AcquisitionBase.acquisition_function_withGradients', 'C18:initial_design', 'C12:Design_space.__init__'],
    'C11': ['C18:initial_design', 'C10:RandomDesign.*', 'C10:*Design.__init__'],
    'C12': CONTEXT[1:] + ['C13:Design_space.round_optimum', 'C11:*fill_noncontinous_variables', 'C11:Design_space.*'],
    'C14': ACQOPT[:2] + ['C18:ArgumentsManager.evaluator_creator', 'C02:SamplingBasedBatchEvaluator.zip_and_tuple',
                         'C08:AcquisitionLP.value', 'C18:select_evaluator'],
    'C16': ['C18:GPModel_MCMC.__init__', 'C07:gradients'],
    'C17': ['C26:BO.run_optimization.refit', 'C26:BO.suggest_next_locations'],
    'C18': ['C19:BayesianOptimization.__init__.data'],
    'C19': EVALUATE + ['C04:BO.run_optimization.history', 'C05:BO.run_optimization.results'],
    'C20': ['C18:SingleObjective.__init__'],
    'C24': CONTEXT[:1] + ['C02:apply_optimizer', 'C18:choose_optimizer', 'C12:Design_space.get_bounds', 'C18:AcquisitionOptimizer.__init__'],
    'C26': ['C15:*.updateModel', 'C15:*._create_model', 'C16:GPModel_MCMC.updateModel', 'C12:Design_space.unzip_inputs', 'C17:normalize', 'C12:*.objective_to_model',
            'C18:BO.__init__'],
}


def key(o):
    return o.id if ':' in o.id else '%s:%s' % (o.prop, o.id)


base = list(OBS)
for prop, pats in SHARE.items():
    seen = {key(o).split(':', 1)[1] for o in base if o.prop == prop}
    for pat in pats:
        hit = [o for o in base if fnmatch.fnmatchcase(key(o), pat)]
        for o in hit:
            i = key(o).split(':', 1)[1]
            if o.prop == prop or i in seen:
                continue
            seen.add(i)
            n = copy.copy(o)
            n.prop = prop
            if ':' in o.id:
                n.id = '%s:%s' % (prop, i)
            if o.known:        # a finding about another property is not this one's business
                n.spec = (tuple(o.spec) if isinstance(o.spec, (tuple, list)) else (o.spec,)) + tuple(s for f, s in o.known)
                n.known = ()
            OBS.append(n)
