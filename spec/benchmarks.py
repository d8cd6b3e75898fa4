"""Reference definitions: benchmark functions (C27)."""
import numpy as np
from GPyOpt.util.general import reshape


def noisy(self, v, X, sign=1):
    n = X.shape[0]
    if self.sd == 0:
        noise = np.zeros(n).reshape(n, 1)
    else:
        noise = np.random.normal(0, self.sd, n).reshape(n, 1)
    return sign * v.reshape(n, 1) + noise


def given_table(self, X):
    return len(X.shape) == 2 and X.shape[1] == self.input_dim


def given_column(self, X):
    return len(X.shape) == 2 and X.shape[1] == 1


def given_points(x, input_dim):
    return len(x.shape) == 2 and x.shape[1] == input_dim


def ref_reshape(x, input_dim):
    a = np.array(x)
    if a.size == input_dim:
        return a.reshape((1, input_dim))
    return a


def ref_forrester(self, X):
    X = X.reshape((len(X), 1))
    return noisy(self, (6 * X - 2) ** 2 * np.sin(12 * X - 4), X)


def ref_rosenbrock(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    x, y = X[:, 0], X[:, 1]
    return noisy(self, 100 * (y - x ** 2) ** 2 + (x - 1) ** 2, X)


def ref_beale(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    x, y = X[:, 0], X[:, 1]
    return noisy(self, (1.5 - x + x * y) ** 2 + (2.25 - x + x * y ** 2) ** 2 + (2.625 - x + x * y ** 3) ** 2, X)


def ref_dropwave(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    r2 = X[:, 0] ** 2 + X[:, 1] ** 2
    return noisy(self, -(1 + np.cos(12 * np.sqrt(r2))) / (0.5 * r2 + 2), X)


def ref_cosines(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    u = 1.6 * X[:, 0] - 0.5
    v = 1.6 * X[:, 1] - 0.5
    return noisy(self, 1 - (u ** 2 + v ** 2 - 0.3 * np.cos(3 * np.pi * u) - 0.3 * np.cos(3 * np.pi * v)), X, -1)


def ref_branin(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    x, y = X[:, 0], X[:, 1]
    return noisy(self, self.a * (y - self.b * x ** 2 + self.c * x - self.r) ** 2 + self.s * (1 - self.t) * np.cos(x) + self.s, X)


def ref_goldstein(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    x, y = X[:, 0], X[:, 1]
    one = 1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x ** 2 - 14 * y + 6 * x * y + 3 * y ** 2)
    two = 30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x ** 2 + 48 * y - 36 * x * y + 27 * y ** 2)
    return noisy(self, one * two, X)


def ref_sixhumpcamel(self, x):
    X = reshape(x, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'wrong input dimension'
    a, b = X[:, 0], X[:, 1]
    return noisy(self, (4 - 2.1 * a ** 2 + a ** 4 / 3) * a ** 2 + a * b + (-4 + 4 * b ** 2) * b ** 2, X)


def ref_mccormick(self, x):
    X = reshape(x, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'wrong input dimension'
    a, b = X[:, 0], X[:, 1]
    return noisy(self, np.sin(a + b) + (a - b) ** 2 - 1.5 * a + 2.5 * b + 1, X)


def ref_powers(self, x):
    X = reshape(x, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'wrong input dimension'
    a, b = X[:, 0], X[:, 1]
    return noisy(self, np.abs(a) ** 2 + np.abs(b) ** 3, X)


def ref_eggholder(self, X):
    X = reshape(X, self.input_dim)
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    x, y = X[:, 0], X[:, 1]
    return noisy(self, -(y + 47) * np.sin(np.sqrt(np.abs(y + x / 2 + 47))) - x * np.sin(np.sqrt(np.abs(x - (y + 47)))), X)


def ref_alpine1(self, X):
    X = reshape(X, self.input_dim)
    return noisy(self, np.abs(X * np.sin(X) + 0.1 * X).sum(axis=1), X)


def ref_alpine2(self, X):
    X = reshape(X, self.input_dim)
    last = self.input_dim - 1
    return noisy(self, np.cumprod(np.sqrt(X), axis=1)[:, last] * np.cumprod(np.sin(X), axis=1)[:, last], X, -1)


def ref_gsobol(self, X):
    X = reshape(X, self.input_dim)
    ones = np.ones(X.shape[0]).reshape(X.shape[0], 1)
    terms = (np.abs(4 * X - 2) + ones * self.a) / (1 + ones * self.a)
    return noisy(self, np.cumprod(terms, axis=1)[:, self.input_dim - 1], X)


def ref_ackley(self, X):
    X = reshape(X, self.input_dim)
    d = self.input_dim
    return noisy(self, 20 + np.exp(1) - 20 * np.exp(-0.2 * np.sqrt((X ** 2).sum(1) / d)) - np.exp(np.cos(2 * np.pi * X).sum(1) / d), X)


# ------------------------------------------------------------------------------ declared domain and minimisers
def init2(self, bounds, sd, default, name=''):
    self.input_dim = 2
    if bounds is None:
        self.bounds = default
    else:
        self.bounds = bounds
    if sd == None:
        self.sd = 0
    else:
        self.sd = sd


def init_forrester(self, sd=None):
    self.input_dim = 1
    self.bounds = [(0, 1)]
    if sd == None:
        self.sd = 0
    else:
        self.sd = sd


def init_rosenbrock(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-0.5, 3), (-1.5, 2)])
    self.min = [(1, 1)]
    self.fmin = 0


def init_beale(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-4.5, 4.5), (-4.5, 4.5)])
    self.min = [(3, 0.5)]
    self.fmin = 0


def init_dropwave(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-1, 1), (-1, 1)])
    self.min = [(0, 0)]
    self.fmin = -1


def init_cosines(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(0, 1), (0, 1)])
    self.min = [(0.31426205, 0.30249864)]
    self.fmin = -1.59622468


def init_branin(self, bounds=None, a=None, b=None, c=None, r=None, s=None, t=None, sd=None):
    init2(self, bounds, sd, [(-5, 10), (1, 15)])
    self.min = [(-np.pi, 12.275), (np.pi, 2.275), (9.42478, 2.475)]
    self.fmin = 0.397887
    self.a = 1 if a is None else a
    self.b = 5.1 / (4 * np.pi ** 2) if b is None else b
    self.c = 5 / np.pi if c is None else c
    self.r = 6 if r is None else r
    self.s = 10 if s is None else s
    self.t = 1 / (8 * np.pi) if t is None else t


def init_goldstein(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-2, 2), (-2, 2)])
    self.min = [(0, -1)]
    self.fmin = 3


def init_sixhumpcamel(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-2, 2), (-1, 1)])
    self.min = [(0.0898, -0.7126), (-0.0898, 0.7126)]
    self.fmin = -1.0316


def init_mccormick(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-1.5, 4), (-3, 4)])
    self.min = [(-0.54719, -1.54719)]
    self.fmin = -1.9133


def init_powers(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-1, 1), (-1, 1)])
    self.min = [(0, 0)]
    self.fmin = 0


def init_eggholder(self, bounds=None, sd=None):
    init2(self, bounds, sd, [(-512, 512), (-512, 512)])
    self.min = [(512, 404.2319)]
    self.fmin = -959.6407


def initn(self, input_dim, bounds, sd, default):
    self.input_dim = input_dim
    self.bounds = default if bounds is None else bounds
    if sd == None:
        self.sd = 0
    else:
        self.sd = sd


def init_alpine1(self, input_dim, bounds=None, sd=None):
    initn(self, input_dim, bounds, sd, [(-10, 10)] * input_dim)
    self.fmin = 0


def init_alpine2(self, input_dim, bounds=None, sd=None):
    initn(self, input_dim, bounds, sd, [(1, 10)] * input_dim)
    self.min = [7.917] * input_dim
    self.fmin = -2.808 ** input_dim


def init_gsobol(self, a, bounds=None, sd=None):
    self.a = a
    self.input_dim = len(a)
    self.bounds = [(-4, 6)] * len(a) if bounds is None else bounds
    if not (a > 0).all():
        return
    if sd == None:
        self.sd = 0
    else:
        self.sd = sd


def init_ackley(self, input_dim, bounds=None, sd=None):
    initn(self, input_dim, bounds, sd, [(-32.768, 32.768)] * input_dim)
    self.min = [(0.,) * input_dim]
    self.fmin = 0
