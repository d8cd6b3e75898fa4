"""C25: configured runs."""
from .common import *

SEL = ['select_model', 'select_acquisition', 'select_evaluator', 'initial_design', 'update_config', 'Design_space.fromConfig', 'BODriver._get_*']
CLS = ['AcquisitionOptimizer', 'SingleObjective', 'ModularBayesianOptimization', 'Design_space']


def cfg(cls, m, spec, **k):
    k.setdefault('what', ('value', 'raises', 'fields', 'events'))
    ob('C25', '%s.%s' % (cls, m), (cls, m), spec, **k)


cfg('BODriver', '__init__', 'ref_driver_init')
for _m, _s in dict(_get_obj='objective', _get_space='space', _get_model='model', _get_acquisition='acquisition', _get_acq_evaluator='evaluator',
                   _check_stop='stop').items():
    cfg('BODriver', _m, 'ref_driver_' + _s, opaque=SEL[:-1], opaque_classes=CLS)
cfg('BODriver', 'run', 'ref_driver_run', opaque=SEL[:-1] + ['BODriver._get_space', 'BODriver._get_obj', 'BODriver._get_model', 'BODriver._get_acquisition', 'BODriver._get_acq_evaluator', 'BO.run_optimization'],
    opaque_classes=CLS, effects=['run_optimization'])
cfg('OutputEng', 'append_iter', 'ref_engine_append', effects=['save_data'], what=('value', 'raises', 'fields', 'events', 'loops'))
cfg('Logger', 'save_data', 'ref_logger_save', effects=['write'])
cfg('Report', 'save_data', 'ref_report_save', effects=['save_report'])
cfg('DataSaver', '__init__', 'ref_saver_init')
ob('C25', 'parser', ('fn', 'parser', 'GPyOpt.interface.config_parser'), 'ref_parser', opaque=SEL, what=('value', 'raises', 'events'))
ob('C25', 'update_config', ('fn', 'update_config', 'GPyOpt.interface.config_parser'), ('ref_update', 'ref_update2'), opaque=SEL, effects=['update_config'],
   what=('value', 'raises', 'args', 'events', 'loops'))
