"""C02 C09 C17 C20: normalisation, costs, evaluation, duplicates."""
from .common import *
from .acq import matrix_in

ob('C17', 'normalize', ('fn', 'normalize'), 'ref_normalize', what=('value', 'raises', 'args'))

ob('C09', 'constant_cost_withGradients', ('fn', 'constant_cost_withGradients'), 'ref_constant_cost')
ob('C09', 'CostModel.__init__', ('CostModel', '__init__'), 'ref_cost_init', what=('fields', 'raises'), opaque_classes=['GPModel'])
ob('C09', 'CostModel._cost_gp_withGradients', ('CostModel', '_cost_gp_withGradients'), 'ref_cost_gp')
ob('C09', 'CostModel.update_cost_model', ('CostModel', 'update_cost_model'), 'ref_cost_update', what=('fields', 'events', 'raises'))
ob('C20', 'SingleObjective._eval_func', ('SingleObjective', '_eval_func'), 'ref_eval_func')
ob('C02', 'DuplicateManager.__init__', ('DuplicateManager', '__init__'), 'ref_known_points', what=('fields', 'raises'))
ob('C02', 'DuplicateManager.is_zipped_x_duplicate', ('DuplicateManager', 'is_zipped_x_duplicate'), 'ref_is_duplicate')
ob('C02', 'DuplicateManager.is_unzipped_x_duplicate', ('DuplicateManager', 'is_unzipped_x_duplicate'), 'ref_is_unzipped_duplicate', opaque=['Design_space.zip_inputs'])
ob('C02', 'DuplicateManager.add_unzipped_x', ('DuplicateManager', 'add_unzipped_x'), 'ref_add_unzipped', opaque=['Design_space.zip_inputs'], what=('fields', 'events', 'raises'))
ob('C20', 'SingleObjective.evaluate', ('SingleObjective', 'evaluate'), 'ref_evaluate', opaque=['SingleObjective._eval_func', 'SingleObjective._syncronous_batch_evaluation'])
ob('C20', 'SingleObjective._syncronous_batch_evaluation', ('SingleObjective', '_syncronous_batch_evaluation'), ['ref_parallel', 'ref_parallel_blocks', 'ref_parallel_split'], opaque=['SingleObjective._eval_func'], what=('value', 'raises', 'events'))


def started(r, v):
    """what the function handed to a worker process does when it runs"""
    I = r.I
    n = len(I.st.events)
    I.call(r.raw, [sym('pipe'), sym('x')], {}, None)
    return raw('events', *[raw('ev2', simp(g), simp(t)) for g, t in I.st.events[n:]])


ob('C20', 'spawn', ('fn', 'spawn', 'GPyOpt.util.general'), 'ref_spawn', project=started)
