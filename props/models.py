"""C15 C16 C29: surrogate models."""
from .common import *

M = 'GPyOpt.models'


def mod(prop, cls, m, ref, **k):
    ob(prop, '%s.%s' % (cls, m), (cls, m), ref, **k)


UPD = dict(what=('fields', 'events', 'raises'))
mod('C15', 'GPModel', '__init__', 'ref_gp_init', what=('fields', 'raises'))
mod('C15', 'GPModel', '_create_model', 'ref_gp_create', **UPD)
mod('C15', 'GPModel', 'updateModel', 'ref_gp_update', opaque=['GPModel._create_model'], effects=['_create_model'], **UPD)
mod('C15', 'GPModel', '_predict', 'ref_gp_raw', strict=True)
mod('C15', 'GPModel', 'predict', 'ref_gp_predict', strict=True)
mod('C15', 'GPModel', 'predict_covariance', 'ref_gp_covariance', strict=True)
mod('C15', 'GPModel', 'get_fmin', 'ref_gp_fmin')
mod('C15', 'GPModel', 'predict_withGradients', 'ref_gp_gradients', strict=True)
mod('C15', 'GPModel', 'copy', 'ref_gp_copy', opaque_classes=['GPModel'])
mod('C15', 'GPModel', 'get_model_parameters', 'ref_parameters')
mod('C15', 'GPModel', 'get_model_parameters_names', 'ref_parameter_names')
mod('C15', 'GPModel', 'get_covariance_between_points', 'ref_gp_between')

mod('C16', 'GPModel_MCMC', '__init__', 'ref_mcmc_init', what=('fields', 'raises'))
mod('C16', 'GPModel_MCMC', '_create_model', 'ref_mcmc_create', **UPD)
mod('C16', 'GPModel_MCMC', 'updateModel', 'ref_mcmc_update', opaque=['GPModel_MCMC._create_model'], effects=['_create_model'], **UPD)
SAMPLED = dict(strict=True, what=('value', 'fields', 'events', 'raises'))
mod('C16', 'GPModel_MCMC', 'predict', 'ref_mcmc_predict', **SAMPLED)
mod('C16', 'GPModel_MCMC', 'get_fmin', 'ref_mcmc_fmin', **SAMPLED)
mod('C16', 'GPModel_MCMC', 'predict_withGradients', 'ref_mcmc_gradients', **SAMPLED)
mod('C16', 'GPModel_MCMC', 'copy', 'ref_mcmc_copy', opaque_classes=['GPModel_MCMC'])
mod('C16', 'GPModel_MCMC', 'get_model_parameters', 'ref_parameters')
mod('C16', 'GPModel_MCMC', 'get_model_parameters_names', 'ref_parameter_names')

mod('C15', 'WarpedGPModel', '__init__', 'ref_warped_init', what=('fields', 'raises'))
mod('C15', 'WarpedGPModel', '_create_model', 'ref_warped_create', **UPD)
mod('C15', 'WarpedGPModel', 'updateModel', 'ref_warped_update', opaque=['WarpedGPModel._create_model'], effects=['_create_model'], **UPD)
mod('C15', 'WarpedGPModel', 'predict', 'ref_warped_predict', strict=True)
mod('C15', 'WarpedGPModel', 'get_fmin', 'ref_gp_fmin')
mod('C15', 'InputWarpedGPModel', '__init__', 'ref_inputwarped_init', what=('fields', 'raises'))
mod('C15', 'InputWarpedGPModel', '_create_model', 'ref_inputwarped_create', **UPD)
mod('C15', 'InputWarpedGPModel', 'updateModel', 'ref_inputwarped_update', opaque=['InputWarpedGPModel._create_model'], effects=['_create_model'], **UPD)
mod('C15', 'InputWarpedGPModel', '_predict', 'ref_inputwarped_raw', strict=True)
mod('C15', 'InputWarpedGPModel', 'predict', 'ref_inputwarped_predict', strict=True)
mod('C15', 'InputWarpedGPModel', 'get_fmin', 'ref_inputwarped_fmin')
mod('C15', 'RFModel', 'updateModel', 'ref_rf_update', opaque=['RFModel._create_model'], effects=['_create_model'], **UPD)
mod('C15', 'RFModel', 'predict', 'ref_rf_predict', strict=True)
mod('C15', 'RFModel', 'get_fmin', 'ref_rf_fmin')

ES = ['AcquisitionEntropySearch._model_state', 'AcquisitionEntropySearch._required_parameters_initialized',
      'AcquisitionEntropySearch._update_parameters', 'AcquisitionEntropySearch._innovations']
mod('C29', 'AcquisitionEntropySearch', '_update_parameters', 'ref_es_update', opaque=ES[:1] + ['joint_min'], what=('fields', 'raises'))
mod('C29', 'AcquisitionEntropySearch', '_innovations', 'ref_es_innovations')
mod('C29', 'AcquisitionEntropySearch', '_required_parameters_initialized', 'ref_es_ready', opaque=ES[:1])
mod('C29', 'AcquisitionEntropySearch', '_model_state', 'ref_es_state')
