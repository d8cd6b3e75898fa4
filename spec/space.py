"""Reference definitions: variables, design space, experiment designs (C01 C10 C11 C12 C13)."""
import numpy as np
import itertools
from copy import deepcopy
from GPyOpt.core.errors import InvalidConfigError, InvalidVariableNameError
from GPyOpt.core.task.variables import (ContinuousVariable, DiscreteVariable, CategoricalVariable, BanditVariable, create_variable)
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design.random_design import RandomDesign


# --------------------------------------------------------------------------------- variables
def given_interval(self, value_array):
    return self.domain[0] <= self.domain[1]


def given_category(self, x_objective):
    return 0 <= int(x_objective) and int(x_objective) < self.dimensionality_in_model


def ref_clip(self, value_array):
    v = value_array[0]
    lo, hi = self.domain[0], self.domain[1]
    if v < lo:
        return [lo]
    if v > hi:
        return [hi]
    return [v]


def ref_round_discrete(self, value_array):
    v = value_array[0]
    best = self.domain[0]
    for d in self.domain:
        if np.abs(d - v) < np.abs(best - v):
            best = d
    return [best]


def ref_round_discrete_argmin(self, value_array):
    v = value_array[0]
    return [self.domain[np.argmin(np.abs(np.asarray(self.domain) - v))]]


def ref_round_discrete_min(self, value_array):
    v = value_array[0]
    return [min(self.domain, key=lambda d: np.abs(d - v))]


def ref_round_bandit(self, value_array):
    return [self.domain[np.argmin(np.linalg.norm(np.array(self.domain) - value_array, axis=1))]]


def ref_round_categorical(self, value_array):
    code = np.zeros(value_array.shape)
    code[np.argmax(value_array)] = 1
    return code


def ref_code(self, x_objective):
    code = [0] * self.dimensionality_in_model
    code[list(self.domain).index(x_objective)] = 1
    return code


def asis_code(self, x_objective):
    code = [0] * self.dimensionality_in_model
    code[int(x_objective)] = 1
    return code


def ref_decode(self, x_model, index_in_model):
    n = self.dimensionality_in_model
    return [self.domain[int(sum(i * x_model[0, index_in_model + i] for i in range(n)))]]


def asis_decode(self, x_model, index_in_model):
    n = self.dimensionality_in_model
    return [sum(i * y for i, y in zip(range(n), x_model[0, index_in_model:index_in_model + n]))]


def ref_same(self, x_objective):
    return [x_objective]


def ref_entry(self, x_model, index_in_model):
    return [x_model[0, index_in_model]]


def ref_bounds_continuous(self):
    return [self.domain] * self.dimensionality


def ref_bounds_discrete(self):
    return [(min(self.domain), max(self.domain))]


def ref_bounds_categorical(self):
    return [(0, 1)] * self.dimensionality_in_model


def ref_bounds_bandit(self):
    return [(min(self.domain[:, j]), max(self.domain[:, j])) for j in range(self.domain.shape[1])]


def ref_continuous_init(self, name, domain, dimensionality=1):
    self.name = name
    self.type = 'continuous'
    self.domain = domain
    self.dimensionality = dimensionality


def ref_discrete_init(self, name, domain, dimensionality=1):
    self.name = name
    self.type = 'discrete'
    self.domain = domain
    self.dimensionality = dimensionality


def ref_categorical_init(self, name, domain, dimensionality=1):
    self.name = name
    self.type = 'categorical'
    self.domain = domain
    self.dimensionality = dimensionality


def ref_bandit_init(self, name, domain, dimensionality=None):
    widths = np.array([len(d) for d in domain])
    if not np.all(widths == widths[0]):
        raise InvalidConfigError('widths')
    self.name = name
    self.type = 'bandit'
    self.domain = np.asarray(domain)
    self.dimensionality = len(domain[0]) if dimensionality is None else dimensionality


def ref_create_variable(descriptor):
    kind = descriptor['type']
    if kind == 'continuous':
        return ContinuousVariable(descriptor['name'], descriptor['domain'], descriptor.get('dimensionality', 1))
    if kind == 'bandit':
        return BanditVariable(descriptor['name'], descriptor['domain'], descriptor.get('dimensionality', None))
    if kind == 'discrete':
        return DiscreteVariable(descriptor['name'], descriptor['domain'], descriptor.get('dimensionality', 1))
    if kind == 'categorical':
        return CategoricalVariable(descriptor['name'], descriptor['domain'], descriptor.get('dimensionality', 1))
    raise InvalidConfigError('type')


def ref_expand(self):
    out = []
    for i in range(self.dimensionality):
        v = deepcopy(self)
        v.dimensionality = 1
        v.name = '{}_{}'.format(self.name, i + 1) if self.dimensionality > 1 else self.name
        v.dimensionality_in_model = 1
        out.append(v)
    return out


def ref_expand_categorical(self):
    out = []
    for i in range(self.dimensionality):
        v = deepcopy(self)
        v.dimensionality = 1
        v.name = '{}_{}'.format(self.name, i + 1) if self.dimensionality > 1 else self.name
        v.dimensionality_in_model = len(self.domain)
        out.append(v)
    return out


# --------------------------------------------------------------------------------- space
def ref_to_model(self, x_objective):
    out = []
    for k in range(self.objective_dimensionality):
        out += self.space_expanded[k].objective_to_model(x_objective[0, k])
    return out


def ref_to_objective(self, x_model):
    out = []
    at = 0
    for k in range(self.objective_dimensionality):
        v = self.space_expanded[k]
        out += v.model_to_objective(x_model, at)
        at += v.dimensionality_in_model
    return out


def ref_unzip(self, X):
    if self._has_bandit():
        return np.atleast_2d(X)
    return np.atleast_2d([self.objective_to_model(X[k, :][None, :]) for k in range(X.shape[0])])


def ref_zip(self, X):
    if self._has_bandit():
        return np.atleast_2d(X)
    return np.atleast_2d([self.model_to_objective(X[k, :][None, :]) for k in range(X.shape[0])])


def ref_round(self, x):
    x = np.array(x)
    if not (x.ndim == 1 or (x.ndim == 2 and x.shape[0] == 1)):
        raise ValueError('shape')
    if x.ndim == 2:
        x = x[0]
    out = []
    at = 0
    for v in self.space_expanded:
        out.append(np.ravel(v.round(x[at:at + v.dimensionality_in_model])))
        at += v.dimensionality_in_model
    return np.atleast_2d(np.concatenate(out))


def ref_bounds(self):
    out = []
    for v in self.space_expanded:
        out += v.get_bounds()
    return out


def ref_has_bandit(self):
    return any(v.is_bandit() for v in self.space)


def ref_has_continuous(self):
    return any(v.is_continuous() for v in self.space)


def ref_has_constraints(self):
    return self.constraints is not None


def ref_indices(self):
    o = m = 0
    for v in self.space_expanded:
        w = v.dimensionality_in_model
        q = w if v.is_bandit() else 1
        v.set_index_in_objective(list(range(o, o + q)))
        v.set_index_in_model(list(range(m, m + w)))
        o += q
        m += w


def ref_find(self, variable_name):
    if variable_name not in self.name_to_variable:
        raise InvalidVariableNameError('name')
    return self.name_to_variable[variable_name]


def ref_names(self):
    self.name_to_variable = {v.name: v for v in self.space_expanded}


def ref_continuous_bounds(self):
    out = []
    for v in self.space:
        if v.type == 'continuous':
            out.extend([v.domain] * v.dimensionality)
    return out


def ref_continuous_dims(self):
    return [i for i in range(len(self.space_expanded)) if self.space_expanded[i].type == 'continuous']


def ref_discrete_dims(self):
    return [i for i in range(len(self.space_expanded)) if self.space_expanded[i].type == 'discrete']


def ref_continuous_space(self):
    return [d for d in self.space if d.type == 'continuous']


def ref_discrete_space(self):
    return [d for d in self.space if d.type == 'discrete']


def ref_bounds_to_space(bounds):
    return [{'name': 'var_' + str(k + 1), 'type': 'continuous', 'domain': bounds[k], 'dimensionality': 1} for k in range(len(bounds))]


def ref_translate(self, space):
    self.space = []
    self.dimensionality = 0
    types = {'continuous': False, 'discrete': False, 'bandit': False, 'categorical': False}
    self.has_types = types
    for i, d in enumerate(space):
        c = deepcopy(d)
        c['name'] = c.get('name', 'var_' + str(i))
        c['type'] = c.get('type', 'continuous')
        if 'domain' not in c:
            raise InvalidConfigError('domain')
        v = create_variable(c)
        self.space.append(v)
        self.dimensionality += v.dimensionality
        types[v.type] = True
    if any(v.is_bandit() for v in self.space) and any(not v.is_bandit() for v in self.space):
        raise InvalidConfigError('mixed')


def ref_expand_space(self):
    self._expand_config_space()
    out = []
    for v in self.space:
        out += v.expand()
    self.space_expanded = out


def ref_expand_config(self):
    out = []
    for d in self.config_space:
        one = d.copy()
        if 'dimensionality' in d:
            one['dimensionality'] = 1
            for k in range(d['dimensionality']):
                single = one.copy()
                single['name'] = single['name'] + '_' + str(k + 1)
                out.append(single)
        else:
            out.append(one)
    self.config_space_expanded = out


def ref_space_init(self, space, constraints=None, store_noncontinuous=False):
    self.config_space = space
    self._translate_space(space)
    self._expand_space()
    self._compute_variables_indices()
    self._create_variables_dic()
    self.objective_dimensionality = len(self.space_expanded)
    self.model_dimensionality = sum([v.dimensionality_in_model for v in self.space_expanded])
    if constraints is not None:
        constraints = [dict(c, constraint=c['constrain']) if 'constrain' in c else c for c in constraints]
    self.constraints = constraints


def ref_indicator(self, x):
    x = np.atleast_2d(x)
    I = np.ones((x.shape[0], 1))
    if self.constraints is not None:
        for d in self.constraints:
            exec('constraint = lambda x:' + d['constraint'], globals())
            I *= ((constraint(x) <= 0) * 1).reshape(x.shape[0], 1)
    return I


# --------------------------------------------------------------------------------- designs
def ref_uniform(bounds, points_count):
    out = np.zeros((points_count, len(bounds)))
    for k in range(len(bounds)):
        out[:, k] = np.random.uniform(low=bounds[k][0], high=bounds[k][1], size=points_count)
    return out


def ref_fill(self, samples):
    n = samples.shape[0]
    at = 0
    for v in self.space.space_expanded:
        if isinstance(v, DiscreteVariable) or isinstance(v, CategoricalVariable):
            samples[:, at] = np.random.choice(v.domain, n)
        elif isinstance(v, BanditVariable):
            samples[:, np.arange(at, at + v.domain.shape[1])] = v.domain[np.random.randint(v.domain.shape[0], size=n), :]
            at += v.domain.shape[1] - 1
        at += 1


def ref_random_free(self, init_points_count):
    samples = np.empty((init_points_count, self.space.dimensionality))
    self.fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        samples[:, self.space.get_continuous_dims()] = ref_uniform(self.space.get_continuous_bounds(), init_points_count)
    return samples


def ref_random(self, init_points_count):
    if self.space.has_constraints():
        return self.get_samples_with_constraints(init_points_count)
    return self.get_samples_without_constraints(init_points_count)


def ref_random_constrained(self, init_points_count):
    samples = np.empty((0, self.space.dimensionality))
    while samples.shape[0] < init_points_count:
        new = self.get_samples_without_constraints(init_points_count)
        ok = (self.space.indicator_constraints(new) == 1).flatten()
        if sum(ok) > 0:
            samples = np.vstack((samples, new[ok, :]))
    return samples[0:init_points_count, :]


def ref_latin(self, init_points_count, criterion='center'):
    from pyDOE import lhs
    samples = np.empty((init_points_count, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        bounds = self.space.get_continuous_bounds()
        lower = np.asarray(bounds)[:, 0].reshape(1, len(bounds))
        width = np.asarray(bounds)[:, 1].reshape(1, len(bounds)) - lower
        unit = lhs(len(bounds), init_points_count, criterion=criterion)
        one = np.ones((unit.shape[0], 1))
        samples[:, self.space.get_continuous_dims()] = np.dot(one, lower) + unit * np.dot(one, width)
    return samples


def ref_latin_broadcast(self, init_points_count, criterion='center'):
    from pyDOE import lhs
    samples = np.empty((init_points_count, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        bounds = self.space.get_continuous_bounds()
        lower = np.asarray(bounds)[:, 0].reshape(1, len(bounds))
        width = np.asarray(bounds)[:, 1].reshape(1, len(bounds)) - lower
        unit = lhs(len(bounds), init_points_count, criterion=criterion)
        samples[:, self.space.get_continuous_dims()] = lower + unit * width
    return samples


def ref_sobol(self, init_points_count):
    from sobol_seq import i4_sobol_generate
    samples = np.empty((init_points_count, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        bounds = self.space.get_continuous_bounds()
        lower = np.asarray(bounds)[:, 0].reshape(1, len(bounds))
        width = np.asarray(bounds)[:, 1].reshape(1, len(bounds)) - lower
        unit = i4_sobol_generate(len(bounds), init_points_count)
        samples[:, self.space.get_continuous_dims()] = np.dot(unit, np.diag(width.flatten()))[None, :] + lower
    return samples


def ref_sobol_broadcast(self, init_points_count):
    from sobol_seq import i4_sobol_generate
    samples = np.empty((init_points_count, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        bounds = self.space.get_continuous_bounds()
        lower = np.asarray(bounds)[:, 0].reshape(1, len(bounds))
        width = np.asarray(bounds)[:, 1].reshape(1, len(bounds)) - lower
        samples[:, self.space.get_continuous_dims()] = lower + width * i4_sobol_generate(len(bounds), init_points_count)
    return samples


def ref_grid_count(self, init_points_count):
    n = len(self.space.get_continuous_dims())
    if n == 0:
        return init_points_count
    self.data_per_dimension = iroot(n, init_points_count)
    return self.data_per_dimension ** n


def ref_iroot(k, n):
    u, s = n, n + 1
    while u < s:
        s = u
        u = ((k - 1) * s + n // s ** (k - 1)) // k
    return s


def ref_grid(self, init_points_count):
    n = self._adjust_init_points_count(init_points_count)
    samples = np.empty((n, self.space.dimensionality))
    RandomDesign(self.space).fill_noncontinous_variables(samples)
    if self.space.has_continuous():
        samples[:, self.space.get_continuous_dims()] = multigrid(self.space.get_continuous_bounds(), self.data_per_dimension)
    return samples


def ref_multigrid(bounds, points_count):
    if len(bounds) == 1:
        return np.linspace(bounds[0][0], bounds[0][1], points_count).reshape(points_count, 1)
    axes = np.meshgrid(*[np.linspace(b[0], b[1], points_count) for b in bounds])
    return np.vstack([a.flatten(order='F') for a in axes]).T


def ref_refuses(self, space):
    if space.has_constraints():
        raise InvalidConfigError('constraints')
    self.space = space


from GPyOpt.experiment_design.grid_design import iroot, multigrid
