"""C10 C11 C12 C13: variables, design space, experiment designs."""
from .common import *
from .options import ALL
from sa import npmodel as npm

def sizes(t):
    """what Design_space.__init__ establishes (an obligation of its own)"""
    if t.op == 'attr' and t.args[1] == 'objective_dimensionality':
        return raw('len', raw('attr', t.args[0], 'space_expanded'))
    return None


def coded(t):
    """one model column per category (an obligation of its own)"""
    if t.op == 'attr' and t.args[1] == 'dimensionality_in_model' and t.args[0] is sym('self'):
        return raw('len', raw('attr', t.args[0], 'domain'))
    return None


VARS = ['ContinuousVariable', 'DiscreteVariable', 'CategoricalVariable', 'BanditVariable']


def var(prop, cls, m, ref, **k):
    ob(prop, '%s.%s' % (cls, m), (cls, m), ref, **k)


var('C13', 'ContinuousVariable', 'round', 'ref_clip', given=('given_interval',))
var('C13', 'DiscreteVariable', 'round', ('ref_round_discrete', 'ref_round_discrete_argmin', 'ref_round_discrete_min'))
var('C13', 'CategoricalVariable', 'round', 'ref_round_categorical', assume=coded)
var('C13', 'BanditVariable', 'round', 'ref_round_bandit')
var('C13', 'Design_space', 'round_optimum', 'ref_round')
var('C12', 'ContinuousVariable', 'objective_to_model', 'ref_same')
var('C12', 'DiscreteVariable', 'objective_to_model', 'ref_same')
var('C12', 'ContinuousVariable', 'model_to_objective', 'ref_entry')
var('C12', 'DiscreteVariable', 'model_to_objective', 'ref_entry')
var('C12', 'CategoricalVariable', 'objective_to_model', 'ref_code', assume=coded, given=('given_category',), known=[('C12:categorical-domain-positions', 'asis_code')])
var('C12', 'CategoricalVariable', 'model_to_objective', 'ref_decode', assume=coded, known=[('C12:categorical-domain-positions', 'asis_decode')])
var('C12', 'Design_space', 'objective_to_model', 'ref_to_model', assume=sizes)
var('C12', 'Design_space', 'model_to_objective', 'ref_to_objective', assume=sizes)
var('C12', 'Design_space', 'unzip_inputs', 'ref_unzip', opaque=['Design_space.objective_to_model', 'Design_space._has_bandit'])
var('C12', 'Design_space', 'zip_inputs', 'ref_zip', opaque=['Design_space.model_to_objective', 'Design_space._has_bandit'])
var('C12', 'Design_space', 'get_bounds', 'ref_bounds')
var('C12', 'ContinuousVariable', 'get_bounds', 'ref_bounds_continuous')
var('C12', 'DiscreteVariable', 'get_bounds', 'ref_bounds_discrete')
var('C12', 'CategoricalVariable', 'get_bounds', 'ref_bounds_categorical', assume=coded)
var('C12', 'BanditVariable', 'get_bounds', 'ref_bounds_bandit')
var('C12', 'ContinuousVariable', 'expand', 'ref_expand')
var('C12', 'DiscreteVariable', 'expand', 'ref_expand')
var('C12', 'CategoricalVariable', 'expand', 'ref_expand_categorical')
var('C12', 'Design_space', '_compute_variables_indices', 'ref_indices', what=('events', 'raises'), effects=['set_index_in_objective', 'set_index_in_model'])
var('C12', 'Design_space', '_has_bandit', 'ref_has_bandit')
var('C12', 'Design_space', '_expand_space', 'ref_expand_space', what=('fields', 'raises', 'events'), fields=('space_expanded',), opaque=['Design_space._expand_config_space'], effects=['_expand_config_space'])
var('C12', 'Design_space', '_expand_config_space', 'ref_expand_config', what=('fields', 'raises'))
SPACE_STEPS = ['Design_space._translate_space', 'Design_space._expand_space', 'Design_space._compute_variables_indices', 'Design_space._create_variables_dic']
var('C12', 'Design_space', '__init__', 'ref_space_init', what=('fields', 'raises', 'events'), opaque=SPACE_STEPS,
    effects=['_translate_space', '_expand_space', '_compute_variables_indices', '_create_variables_dic'])
var('C12', 'Design_space', '_translate_space', 'ref_translate', what=('fields', 'raises'), opaque=['create_variable'])
ob('C18', 'create_variable', ('fn', 'create_variable'), 'ref_create_variable', opaque_classes=VARS)
var('C03', 'Design_space', 'find_variable', 'ref_find')
var('C03', 'Design_space', '_create_variables_dic', 'ref_names', what=('fields', 'raises'))
for _c in VARS[:3]:
    var('C18', _c, '__init__', 'ref_%s_init' % _c[:-8].lower(), what=('fields', 'raises'))
var('C18', 'BanditVariable', '__init__', 'ref_bandit_init', what=('fields', 'raises'))
var('C11', 'Design_space', 'has_continuous', 'ref_has_continuous')
var('C11', 'Design_space', 'get_continuous_bounds', 'ref_continuous_bounds')
var('C11', 'Design_space', 'get_continuous_dims', 'ref_continuous_dims')
var('C11', 'Design_space', 'get_discrete_dims', 'ref_discrete_dims')
var('C10', 'Design_space', 'has_constraints', 'ref_has_constraints')
var('C10', 'Design_space', 'indicator_constraints', 'ref_indicator')
ob('C11', 'bounds_to_space', ('fn', 'bounds_to_space'), 'ref_bounds_to_space')
D_OPQ = ['RandomDesign.fill_noncontinous_variables', 'Design_space.get_continuous_bounds', 'Design_space.get_continuous_dims', 'Design_space.has_continuous']
D_EFF = ['fill_noncontinous_variables']


def filled(t):
    """which array is filled matters, what other columns hold at that moment does not"""
    if is_call(t, 'RandomDesign.fill_noncontinous_variables'):
        a = t.args[2][0][1]
        while a.op in ('store', 'stores', 'upd') and a.args:
            a = a.args[0]
        return raw('call', t.args[0], t.args[1], (('samples', a),))
    if t.op == 'call' and str(t.args[0]).endswith('.get_continuous_bounds'):
        return npm.as2d(t)                      # one (lower, upper) pair per continuous input, of which there are some
    return None


DESIGN = dict(opaque=D_OPQ, effects=D_EFF, what=('value', 'raises', 'events'), assume=filled)
ob('C11', 'samples_multidimensional_uniform', ('fn', 'samples_multidimensional_uniform', 'GPyOpt.experiment_design.random_design'), 'ref_uniform')
ob('C11', 'general.samples_multidimensional_uniform', ('fn', 'samples_multidimensional_uniform', 'GPyOpt.util.general'), 'ref_uniform')
var('C11', 'RandomDesign', 'fill_noncontinous_variables', 'ref_fill', what=('value', 'events', 'raises', 'args'))
var('C11', 'RandomDesign', 'get_samples_without_constraints', 'ref_random_free', **DESIGN)
var('C11', 'LatinDesign', 'get_samples', ('ref_latin', 'ref_latin_broadcast'), **DESIGN)
var('C11', 'SobolDesign', 'get_samples', ('ref_sobol', 'ref_sobol_broadcast'), **DESIGN)
var('C11', 'GridDesign', 'get_samples', 'ref_grid', opaque=D_OPQ + ['GridDesign._adjust_init_points_count', 'multigrid'], effects=D_EFF + ['_adjust_init_points_count'],
    what=('value', 'raises', 'events'), assume=filled)
var('C11', 'GridDesign', '_adjust_init_points_count', 'ref_grid_count', what=('value', 'fields', 'raises'), opaque=['iroot'] + D_OPQ)
ob('C11', 'multigrid', ('fn', 'multigrid'), 'ref_multigrid')
ob('C11', 'iroot', ('fn', 'iroot'), 'ref_iroot', what=('value', 'loops'))
var('C10', 'RandomDesign', 'get_samples', 'ref_random', opaque=['RandomDesign.get_samples_with_constraints', 'RandomDesign.get_samples_without_constraints'])


def drawn_table(t):
    """drawn samples are a table, the indicator of the constraints is one column"""
    if is_call(t, 'RandomDesign.get_samples_without_constraints'):
        return npm.as2d(t)
    if t.op == 'call' and str(t.args[0]).endswith('.indicator_constraints'):
        return npm.col(npm.flat(t))
    if t.op == 'concat' and t.args[0].op == 'list' and any(two_dim(x) for x in t.args[0].args):
        return npm.vstack(t.args[0])
    return None


def two_dim(t):
    if t.op == 'index':
        return two_dim(t.args[0]) and len(t.args) == 2 and t.args[1].op not in ('num',)
    return t.op in ('as2d', 'vstack', 'col')


var('C10', 'RandomDesign', 'get_samples_with_constraints', 'ref_random_constrained', what=('value', 'raises', 'loops'), assume=drawn_table,
    opaque=['RandomDesign.get_samples_without_constraints', 'Design_space.indicator_constraints'])
for _c in ('GridDesign', 'LatinDesign', 'SobolDesign'):
    var('C10', _c, '__init__', 'ref_refuses', what=('fields', 'raises'))
