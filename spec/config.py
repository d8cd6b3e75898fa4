"""Reference definitions for configured runs (interface/)."""
import copy
import json
import os
import numpy as np
from GPyOpt.interface.config_parser import update_config
from GPyOpt.models import select_model
from GPyOpt.acquisitions import select_acquisition
from GPyOpt.core.evaluators import select_evaluator
from GPyOpt.optimization import AcquisitionOptimizer
from GPyOpt.core.task import SingleObjective
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design
from GPyOpt.methods import ModularBayesianOptimization


# documented defaults
DEFAULTS = {
    "language"        : "PYTHON",
    "experiment-name" : "no-named-experiment",
    "likelihood"      : "NOISELESS",
    'initialization': {
            'type':'random',
            'num-eval':5,
        },

    "model": {
        "type" : "GP",
        "num_inducing": 10,
        },
                  
    "constraints": [],

    "resources": {
        "maximum-iterations" :  20,
        "max-run-time": 'NA', #minutes
        "cores": 1,
        "tolerance": 1e-8,
        },

    "acquisition": {
        "type" : 'EI',
        "jitter" : 0.01,
        "optimizer" : {
                "name": "lbfgs"
            },
        "evaluator" : {
                "type" : "sequential"
            }
        },

    "output":{
        "verbosity": False,
        "file-report": {
                'type': 'report',
                'filename': None,
                'interval': -1,
        },
        "Ybest": {
                'type': 'logger',
                'content': 'ybest',
                'format': 'csv',
                'filename': None,
                'interval': 1,
        },
        },
}


def ref_driver_init(self, config=None, obj_func=None, outputEng=None):
    self.config = copy.deepcopy(DEFAULTS) if config is None else config
    self.obj_func = obj_func
    self.outputEng = outputEng


def ref_driver_objective(self, space):
    return SingleObjective(self.obj_func, self.config['resources']['cores'], space=space)


def ref_driver_space(self):
    assert 'space' in self.config
    return Design_space.fromConfig(self.config['space'], self.config['constraints'])


def ref_without(options, key):
    left = copy.deepcopy(options)
    del left[key]
    return left


def ref_driver_model(self):
    wanted = self.config['model']
    kind = select_model(wanted['type'])
    return kind.fromConfig(ref_without(wanted, 'type'))


def ref_driver_acquisition(self, model, space):
    wanted = self.config['acquisition']
    how = copy.deepcopy(wanted['optimizer'])
    optimizer = AcquisitionOptimizer(space, wanted['optimizer']['name'], **ref_without(wanted['optimizer'], 'name'))
    return select_acquisition(wanted['type']).fromConfig(model, space, optimizer, None, wanted)


def ref_driver_evaluator(self, acq):
    wanted = self.config['acquisition']['evaluator']
    return select_evaluator(wanted['type'])(acq, **ref_without(wanted, 'type'))


def ref_driver_stop(self, iters, elapsed_time, converged):
    limits = self.config['resources']
    if converged == 0:
        return True
    if limits['maximum-iterations'] != 'NA' and iters >= limits['maximum-iterations']:
        return True
    return limits['max-run-time'] != 'NA' and elapsed_time / 60. >= limits['max-run-time']


def ref_driver_run(self):
    space = self._get_space()
    model = self._get_model()
    acquisition = self._get_acquisition(model, space)
    start = initial_design(self.config['initialization']['type'], space, self.config['initialization']['num-eval'])
    bo = ModularBayesianOptimization(model, space, self._get_obj(space), acquisition, self._get_acq_evaluator(acquisition), start)
    limits = self.config['resources']
    iterations = None if limits['maximum-iterations'] == 'NA' else limits['maximum-iterations']
    seconds = np.inf if limits['max-run-time'] == 'NA' else 60. * limits['max-run-time']
    bo.run_optimization(max_iter=iterations, max_time=seconds, eps=limits['tolerance'], verbosity=True)
    return bo


# --------------------------------------------------------------------------------------- output engine
def ref_engine_append(self, iters, elapsed_time, X, Y, bo, final=False):
    self.iters.append(iters)
    self.times.append(elapsed_time)
    self.Xs.append(X)
    self.Ys.append(Y)
    self.offsets.append(X.shape[0])
    for i in range(len(self.data_savers)):
        left = self.clock[i]
        if final:
            if left == -1:
                left = 0
        elif left > 0:
            left = left - 1
        self.clock[i] = left
        if left == 0:
            self.data_savers[i].save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
            self.clock[i] = self.data_savers[i].interval


def ref_logger_save(self, iters, times, offsets, X, Y, bo):
    if self.fileout is None:
        return
    if self.write_headline:
        head = ['iteration', 'time(sec)', 'objective']
        head = head + ['input[' + str(k + 1) + ']' for k in range(X[0].shape[1])]
        self.fileout.write(','.join(head) + '\n')
        self.write_headline = False
    values = np.vstack(Y)
    places = np.vstack(X)
    best = np.argmin(values)
    row = [str(iters[-1]), str(times[-1]), str(float(values[best]))]
    row = row + [str(places[best, k]) for k in range(places.shape[1])]
    self.fileout.write(','.join(row) + '\n')


def ref_report_save(self, iters, times, offsets, X, Y, bo):
    bo.save_report(report_file=self.filename)


def ref_saver_init(self, config, outpath=None, prjname='', name=''):
    every = config['interval']
    assert every > 0 or every == -1
    self.interval = every
    self.outpath = outpath
    self.prjname = prjname
    self.name = name


def ref_parser(input_file_path='config.json'):
    try:
        with open(input_file_path, 'r') as f:
            read = json.load(f)
    except:
        raise Exception('not loaded')
    return update_config(read, copy.deepcopy(DEFAULTS))


def ref_update(config_new, config_default):
    if any([isinstance(v, dict) for v in config_new.values()]):
        for k, v in config_new.items():
            if isinstance(v, dict) and k in config_default:
                update_config(v, config_default[k])
            else:
                config_default[k] = v
    else:
        config_default.update(config_new)
    return config_default


def ref_update2(config_new, config_default):
    for k, v in config_new.items():
        if isinstance(v, dict) and k in config_default:
            update_config(v, config_default[k])
        else:
            config_default[k] = v
    return config_default
