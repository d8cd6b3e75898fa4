"""C04 C05 C06 C19 C23 C26: the optimisation loop."""
from .common import *
import re

LOOP_OPQ = ['normalize', 'best_value', 'BO.save_report', 'BO.save_evaluations', 'BO.save_models',
            'Design_space.zip_inputs', 'Design_space.unzip_inputs']
LOOP_OC = ['DuplicateManager', 'ContextManager']


def about(*names):
    """projections that speak about the named fields"""
    rx = re.compile(r'(^field |field:self\.)(%s)$' % '|'.join(names))
    return lambda k: bool(rx.search(k))


def either(*fs):
    return lambda k: any(f(k) for f in fs)


def named(*ns):
    return lambda k: k in ns


RUN = dict(opaque=LOOP_OPQ, opaque_classes=LOOP_OC, effects=['evaluate', 'compute_batch'], what=('value', 'raises', 'fields', 'events', 'loops'))

ob('C04', 'BO.run_optimization.history', ('BO', 'run_optimization'), 'ref_run',
   only=either(about('X', 'Y'), named('raises InvalidConfigError')), **RUN)
ob('C05', 'BO.run_optimization.results', ('BO', 'run_optimization'), 'ref_run', only=about('Y_best', 'x_opt', 'fx_opt'), **RUN)
ob('C06', 'BO.run_optimization.stop', ('BO', 'run_optimization'), 'ref_run',
   only=either(named('loop1 goes on while', 'loop1 return when', 'loop1 raise when'),
               about('max_iter', 'max_time', 'eps', 'num_acquisitions', 'cum_time')), **RUN)
ob('C26', 'BO.run_optimization.refit', ('BO', 'run_optimization'), 'ref_run',
   only=either(named('loop1 events', 'events'), lambda k: 'cell:' in k or 'base:' in k), **RUN)
ob('C26', 'BO.suggest_next_locations', ('BO', 'suggest_next_locations'), 'ref_suggest',
   opaque=LOOP_OPQ, opaque_classes=LOOP_OC, what=('value', 'raises', 'events'))
ob('C02', 'BO._compute_next_evaluations', ('BO', '_compute_next_evaluations'), 'ref_next',
   opaque=LOOP_OPQ, opaque_classes=LOOP_OC, what=('value', 'raises', 'events'))
ob('C23', 'BO.run_optimization.parameters', ('BO', 'run_optimization'), 'ref_run',
   only=about('model_parameters_iterations'), **RUN)

ob('C05', 'best_value', ('fn', 'best_value'), 'ref_best_value')

SAVED = {'X', 'Y', 'Y_best', 'x_opt', 'fx_opt', 'num_acquisitions', 'model_parameters_iterations', 'cum_time', 'max_iter', 'eps'}


def saved_state(t):
    """what is saved is the state of the run; fields that are neither results nor limits are left out"""
    if t.op == 'upd' and t.args[0] is sym('self') and any(k not in SAVED for k, v in t.args[1]):
        return raw('upd', t.args[0], tuple((k, v) for k, v in t.args[1] if k in SAVED))
    if t.op == 'did' and t.args[1] in ('BO.save_report', 'BO.save_evaluations', 'BO.save_models'):
        return t.args[0]         # the writers change nothing (their own obligations)
    if t.op == 'attr' and t.args[0].op == 'upd' and t.args[0].args[0] is sym('self') and t.args[1] in ('report_file', 'evaluations_file', 'models_file'):
        return sym(t.args[1])
    return None


ob('C23', 'BO.run_optimization.saving', ('BO', 'run_optimization'), 'ref_run', only=named('events'), assume=saved_state,
   **dict(RUN, effects=['save_report', 'save_evaluations', 'save_models', 'update_cost_model']))
ob('C23', 'BO.save_evaluations', ('BO', 'save_evaluations'), 'ref_save_evaluations', what=('value', 'raises', 'fields', 'events'))
ob('C23', 'BO.save_models', ('BO', 'save_models'), 'ref_save_models', what=('value', 'raises', 'fields', 'events'))
ob('C23', 'BO.save_report', ('BO', 'save_report'), 'ref_save_report', what=('value', 'raises', 'fields', 'events'))
