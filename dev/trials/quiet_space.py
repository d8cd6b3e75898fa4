"""Edits that keep the behaviour of the design space: every check must stay quiet."""
S = 'GPyOpt/core/task/space.py'
V = 'GPyOpt/core/task/variables.py'
TRIALS = [
 dict(id='sp-init-helper', edits=[(S, 'def:Design_space.__init__', '''
def __init__(self, space, constraints=None, store_noncontinuous = False):
    self.store_noncontinuous = store_noncontinuous
    self.config_space = space
    self._translate_space(self.config_space)
    self._expand_space()
    self._compute_variables_indices()
    self._create_variables_dic()
    self._set_dimensionalities()
    self.constraints = self._normalise_constraints(constraints)

@staticmethod
def _normalise_constraints(constraints):
    if constraints is None:
        return None
    out = []
    for c in constraints:
        if 'constrain' in c:
            c = dict(c)
            c['constraint'] = c['constrain']
        out.append(c)
    return out

def _set_dimensionalities(self):
    self.objective_dimensionality = len(self.space_expanded)
    dims = []
    for v in self.space_expanded:
        dims.append(v.dimensionality_in_model)
    self.model_input_dims = dims
    self.model_dimensionality = sum(dims)
''')]),
 dict(id='sp-expandconf', edits=[(S, 'def:Design_space._expand_config_space', '''
def _expand_config_space(self):
    expanded = []
    for variable in self.config_space:
        if 'dimensionality' not in variable:
            expanded.append(variable.copy())
            continue
        for k in range(variable['dimensionality']):
            single = variable.copy()
            single['dimensionality'] = 1
            single['name'] = '{}_{}'.format(variable['name'], k + 1)
            expanded.append(single)
    self.config_space_expanded = expanded
''')]),
 dict(id='sp-indices', edits=[(S, 'def:Design_space._compute_variables_indices', '''
def _compute_variables_indices(self):
    start_objective, start_model = 0, 0
    for variable in self.space_expanded:
        in_model = variable.dimensionality_in_model
        if variable.is_bandit():
            in_objective = in_model
        else:
            in_objective = 1
        end_objective = start_objective + in_objective
        end_model = start_model + in_model
        variable.set_index_in_objective([i for i in range(start_objective, end_objective)])
        variable.set_index_in_model([i for i in range(start_model, end_model)])
        start_objective, start_model = end_objective, end_model
''')]),
 dict(id='sp-find', edits=[(S, 'def:Design_space.find_variable', '''
def find_variable(self,variable_name):
    try:
        return self.name_to_variable[variable_name]
    except KeyError:
        raise InvalidVariableNameError('Name of variable not in the input domain')
'''), (S, 'def:Design_space._create_variables_dic', '''
def _create_variables_dic(self):
    self.name_to_variable = {variable.name: variable for variable in self.space_expanded}
''')]),
 dict(id='sp-translate', edits=[(S, 'def:Design_space._translate_space', '''
def _translate_space(self, space):
    self.space = []
    self.dimensionality = 0
    self.has_types = dict.fromkeys(self.supported_types, False)

    for i, d in enumerate(space):
        variable = self._variable_from_descriptor(i, d)
        self.space.append(variable)
        self.dimensionality += variable.dimensionality
        self.has_types[variable.type] = True

    n_bandits = sum(1 for v in self.space if v.is_bandit())
    if 0 < n_bandits < len(self.space):
        raise InvalidConfigError('Invalid mixed domain configuration. Bandit variables cannot be mixed with other types.')

@staticmethod
def _variable_from_descriptor(i, d):
    descriptor = deepcopy(d)
    descriptor.setdefault('name', 'var_{}'.format(i))
    descriptor.setdefault('type', 'continuous')
    if 'domain' not in descriptor:
        raise InvalidConfigError('Domain attribute is missing for variable ' + descriptor['name'])
    return create_variable(descriptor)
''')]),
 dict(id='sp-obj2model', edits=[(S, 'def:Design_space.objective_to_model', '''
def objective_to_model(self, x_objective):
    x_model = []
    for k, variable in enumerate(self.space_expanded):
        x_model.extend(variable.objective_to_model(x_objective[0, k]))
    return x_model
'''), (S, 'def:Design_space.model_to_objective', '''
def model_to_objective(self, x_model):
    x_objective, start = [], 0
    for variable in self.space_expanded:
        x_objective.extend(variable.model_to_objective(x_model, start))
        start = start + variable.dimensionality_in_model
    return x_objective
''')]),
 dict(id='sp-unzip', edits=[(S, 'def:Design_space.unzip_inputs', '''
def unzip_inputs(self,X):
    return self._map_rows(X, self.objective_to_model)
'''), (S, 'def:Design_space.zip_inputs', '''
def zip_inputs(self,X):
    return self._map_rows(X, self.model_to_objective)

def _map_rows(self, X, transform):
    if self._has_bandit():
        return np.atleast_2d(X)
    return np.atleast_2d([transform(X[k:k+1,:]) for k in range(X.shape[0])])
''')]),
 dict(id='sp-unzip2', edits=[(S, 'def:Design_space.unzip_inputs', '''
def unzip_inputs(self,X):
    if self._has_bandit():
        return np.atleast_2d(X)
    Z = [self.objective_to_model(row[None, :]) for row in X]
    return np.atleast_2d(Z)
''')]),
 dict(id='sp-bounds', edits=[(S, 'def:Design_space.get_bounds', '''
def get_bounds(self):
    return [bound for variable in self.space_expanded for bound in variable.get_bounds()]
'''), (S, 'def:Design_space.has_continuous', '''
def has_continuous(self):
    for v in self.space:
        if v.is_continuous():
            return True
    return False
'''), (S, 'def:Design_space._has_bandit', '''
def _has_bandit(self):
    return len([v for v in self.space if v.is_bandit()]) > 0
''')]),
 dict(id='sp-bounds2', edits=[(S, 'def:Design_space.get_bounds', '''
def get_bounds(self):
    return list(itertools.chain.from_iterable(v.get_bounds() for v in self.space_expanded))
''')]),
 dict(id='sp-subspace', edits=[(S, 'def:Design_space.get_subspace', '''
def get_subspace(self, dims):
    starts = []
    k = 0
    for variable in self.space_expanded:
        starts.append(k)
        k += variable.dimensionality_in_model
    return [variable for start, variable in zip(starts, self.space_expanded) if start in dims]
''')]),
 dict(id='sp-indicator', edits=[(S, 'def:Design_space.indicator_constraints', '''
def indicator_constraints(self,x):
    x = np.atleast_2d(x)
    n = x.shape[0]
    I_x = np.ones((n,1))
    if self.constraints is None:
        return I_x
    for d in self.constraints:
        try:
            exec('constraint = lambda x:' + d['constraint'], globals())
            satisfied = constraint(x) <= 0
            I_x = I_x * (satisfied * 1).reshape(n,1)
        except:
            print('Fail to compile the constraint: ' + str(d))
            raise
    return I_x
''')]),
 dict(id='sp-indicator2', edits=[(S, 'def:Design_space.indicator_constraints', '''
def indicator_constraints(self,x):
    x = np.atleast_2d(x)
    I_x = np.ones((x.shape[0],1))
    for d in (self.constraints or []):
        I_x *= self._evaluate_constraint(d, x)
    return I_x

def _evaluate_constraint(self, d, x):
    try:
        exec('constraint = lambda x:' + d['constraint'], globals())
        ind_x = (constraint(x) <= 0) * 1
        return ind_x.reshape(x.shape[0],1)
    except:
        print('Fail to compile the constraint: ' + str(d))
        raise
''')]),
 dict(id='sp-round', edits=[(S, 'def:Design_space.round_optimum', '''
def round_optimum(self, x):
    x = np.array(x)
    is_vector = x.ndim == 1
    is_single_row = x.ndim == 2 and x.shape[0] == 1
    if not (is_vector or is_single_row):
        raise ValueError("Unexpected dimentionality of x. Got {}, expected (1, N) or (N,)".format(x.ndim))
    if is_single_row:
        x = x[0]
    return np.atleast_2d(np.concatenate(self._rounded_blocks(x)))

def _rounded_blocks(self, x):
    blocks = []
    start = 0
    for variable in self.space_expanded:
        end = start + variable.dimensionality_in_model
        blocks.append(np.ravel(variable.round(x[start:end])))
        start = end
    return blocks
''')]),
 dict(id='sp-dims', edits=[(S, 'def:Design_space.get_continuous_dims', '''
def get_continuous_dims(self):
    return [i for i, v in enumerate(self.space_expanded) if v.type == 'continuous']
'''), (S, 'def:Design_space.get_discrete_dims', '''
def get_discrete_dims(self):
    return [i for i in range(len(self.space_expanded)) if self.space_expanded[i].type == 'discrete']
'''), (S, 'def:Design_space.get_continuous_bounds', '''
def get_continuous_bounds(self):
    bounds = []
    for d in self.get_continuous_space():
        for _ in range(d.dimensionality):
            bounds.append(d.domain)
    return bounds
'''), (S, 'def:Design_space.get_discrete_grid', '''
def get_discrete_grid(self):
    sets_grid = []
    for d in self.get_discrete_space():
        sets_grid += [d.domain] * d.dimensionality
    return np.array(list(itertools.product(*sets_grid)))
'''), (S, 'def:bounds_to_space', '''
def bounds_to_space(bounds):
    return [{'name': 'var_{}'.format(k), 'type': 'continuous', 'domain': b, 'dimensionality': 1} for k, b in enumerate(bounds, 1)]
''')]),
 dict(id='sp-bandit', edits=[(S, 'def:Design_space.get_bandit', '''
def get_bandit(self):
    arms = [tuple(arm) for d in self.space if d.type == 'bandit' for arm in d.domain]
    return np.asarray(arms)
''')]),
 dict(id='va-expand', edits=[(V, 'def:Variable.expand', '''
def expand(self):
    return [self._single(i) for i in range(self.dimensionality)]

def _single(self, i):
    v = deepcopy(self)
    v.dimensionality = 1
    v.dimensionality_in_model = 1
    v.name = self.name if self.dimensionality <= 1 else self.name + '_' + str(i + 1)
    return v
''')]),
 dict(id='va-contround', edits=[(V, 'def:ContinuousVariable.round', '''
def round(self, value_array):
    low, high = self.domain[0], self.domain[1]
    value = value_array[0]
    if value < low:
        return [low]
    if value > high:
        return [high]
    return [value]
''')]),
 dict(id='va-contround2', edits=[(V, 'def:ContinuousVariable.round', '''
def round(self, value_array):
    return [min(max(value_array[0], self.domain[0]), self.domain[1])]
''')]),
 dict(id='va-contround3', edits=[(V, 'def:ContinuousVariable.round', '''
def round(self, value_array):
    return [np.clip(value_array[0], self.domain[0], self.domain[1])]
''')]),
 dict(id='va-banditround', edits=[(V, 'def:BanditVariable.round', '''
def round(self, value_array):
    diff = np.asarray(self.domain) - value_array
    distances = np.sqrt((diff ** 2).sum(axis=1))
    return [self.domain[distances.argmin()]]
'''), (V, 'def:BanditVariable.get_bounds', '''
def get_bounds(self):
    lower, upper = self.domain.min(axis=0), self.domain.max(axis=0)
    return list(zip(lower, upper))
''')]),
 dict(id='va-discround', edits=[(V, 'def:DiscreteVariable.round', '''
def round(self, value_array):
    value = value_array[0]
    return [min(self.domain, key=lambda d: np.abs(d - value))]
''')]),
 dict(id='va-discround2', edits=[(V, 'def:DiscreteVariable.round', '''
def round(self, value_array):
    distances = np.abs(np.asarray(self.domain) - value_array[0])
    return [self.domain[np.argmin(distances)]]
''')]),
 dict(id='va-discround3', edits=[(V, 'def:DiscreteVariable.round', '''
def round(self, value_array):
    value = value_array[0]
    best, best_distance = None, np.inf
    for candidate in self.domain:
        distance = np.abs(candidate - value)
        if distance < best_distance:
            best, best_distance = candidate, distance
    return [best]
''')]),
 dict(id='va-cat', edits=[(V, 'def:CategoricalVariable.objective_to_model', '''
def objective_to_model(self, x_objective):
    chosen = int(x_objective)
    return [1 if i == chosen else 0 for i in range(self.dimensionality_in_model)]
'''), (V, 'def:CategoricalVariable.model_to_objective', '''
def model_to_objective(self, x_model, index_in_model):
    end = index_in_model + self.dimensionality_in_model
    entry = 0
    for category, weight in enumerate(x_model[0, index_in_model:end]):
        entry += category * weight
    return [entry]
'''), (V, 'def:CategoricalVariable.round', '''
def round(self, value_array):
    best = np.argmax(value_array)
    rounded = np.zeros_like(value_array, dtype=float)
    rounded[best] = 1
    return rounded
'''), (V, 'def:CategoricalVariable.expand', '''
def expand(self):
    expanded_variables = super(CategoricalVariable, self).expand()
    n_categories = len(self.domain)
    for i in range(len(expanded_variables)):
        expanded_variables[i].dimensionality_in_model = n_categories
    return expanded_variables
''')]),
 dict(id='va-create', edits=[(V, 'def:create_variable', '''
def create_variable(descriptor):
    kinds = {'continuous': (ContinuousVariable, 1), 'bandit': (BanditVariable, None),
             'discrete': (DiscreteVariable, 1), 'categorical': (CategoricalVariable, 1)}
    kind = descriptor['type']
    if kind not in kinds:
        raise InvalidConfigError('Unknown variable type ' + kind)
    cls, default = kinds[kind]
    return cls(descriptor['name'], descriptor['domain'], descriptor.get('dimensionality', default))
''')]),
 dict(id='va-bandit-init', edits=[(V, 'def:BanditVariable.__init__', '''
def __init__(self, name, domain, dimensionality=None):
    width = len(domain[0])
    if any(len(arm) != width for arm in domain):
        raise InvalidConfigError('The dimensionalities of the bandit variable ' + name + ' have to be the same!')
    if dimensionality is None:
        dimensionality = width
    super(BanditVariable, self).__init__(name, 'bandit', np.asarray(domain), dimensionality)
''')]),
]
