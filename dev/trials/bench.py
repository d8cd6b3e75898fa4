"""Benchmark functions: quiet edits (q-) and bugs (b-)."""
D2='GPyOpt/objective_examples/experiments2d.py'; ND='GPyOpt/objective_examples/experimentsNd.py'; D1='GPyOpt/objective_examples/experiments1d.py'
TRIALS=[
 dict(id='q-helper', edits=[(D2,'class rosenbrock(function2d):','''def _noise(sd, n):
    if sd == 0:
        return np.zeros((n, 1))
    return np.random.normal(0, sd, n).reshape(n, 1)


class rosenbrock(function2d):'''),(D2,'def:branin.f','''
def f(self,X):
    X = reshape(X,self.input_dim)
    n = X.shape[0]
    if X.shape[1] != self.input_dim:
        return 'Wrong input dimension'
    x1, x2 = X[:,0], X[:,1]
    quad = x2 - self.b*x1**2 + self.c*x1 - self.r
    fval = self.a * quad**2 + self.s*(1-self.t)*np.cos(x1) + self.s
    return fval[:, None] + _noise(self.sd, n)
'''),(D2,'def:powers.f','''
def f(self,x):
    x = reshape(x,self.input_dim)
    n, d = x.shape
    if d != self.input_dim:
        return 'wrong input dimension'
    fval = np.abs(x[:,0])**2 + np.abs(x[:,1])**3
    return fval.reshape(-1,1) + _noise(self.sd, n)
''')]),
 dict(id='q-loop', edits=[(ND,'def:ackley.f','''
def f(self,X):
    X = reshape(X,self.input_dim)
    n = X.shape[0]
    fval = np.zeros((n, 1))
    for i in range(n):
        x = X[i]
        a = np.sqrt(np.sum(x**2)/self.input_dim)
        b = np.sum(np.cos(2*np.pi*x))/self.input_dim
        fval[i] = 20 + np.exp(1) - 20*np.exp(-0.2*a) - np.exp(b)
    if self.sd == 0:
        return fval
    return fval + np.random.normal(0,self.sd,n).reshape(n,1)
''')]),
 dict(id='q-prod', edits=[(ND,'def:alpine2.f','''
def f(self,X):
    X = reshape(X,self.input_dim)
    n = X.shape[0]
    fval = np.prod(np.sqrt(X)*np.sin(X), axis=1)
    noise = np.zeros((n,1)) if self.sd == 0 else np.random.normal(0,self.sd,n).reshape(n,1)
    return noise - fval.reshape(n,1)
'''),(ND,'def:alpine1.f','''
def f(self,X):
    X = reshape(X,self.input_dim)
    n = X.shape[0]
    fval = np.sum(np.abs(X*np.sin(X) + 0.1*X), axis=1, keepdims=True)
    if self.sd != 0:
        fval = fval + np.random.normal(0,self.sd,n)[:,None]
    return fval
''')]),
 dict(id='q-init', edits=[(D2,'class rosenbrock(function2d):','''def _default(value, other):
    return other if value is None else value


class rosenbrock(function2d):'''),(D2,'def:branin.__init__','''
def __init__(self,bounds=None,a=None,b=None,c=None,r=None,s=None,t=None,sd=None):
    self.name = 'Branin'
    self.input_dim = 2
    self.bounds = _default(bounds, [(-5,10),(1,15)])
    self.a = _default(a, 1)
    self.b = _default(b, 5.1/(4*np.pi**2))
    self.c = _default(c, 5/np.pi)
    self.r = _default(r, 6)
    self.s = _default(s, 10)
    self.t = _default(t, 1/(8*np.pi))
    self.sd = _default(sd, 0)
    self.min = [(-np.pi,12.275),(np.pi,2.275),(9.42478,2.475)]
    self.fmin = 0.397887
''')]),
 dict(id='b-rowmix', expect={'C27'}, edits=[(D2,'x1*x2\n            term3 = (-4','x1*x2[0]\n            term3 = (-4')]),
 dict(id='b-noiseshape', expect={'C27'}, edits=[(D2,"noise = np.random.normal(0,self.sd,n).reshape(n,1)","noise = np.random.normal(0,self.sd,n)")]),
 dict(id='b-var', expect={'C27'}, edits=[(ND,"noise = np.random.normal(0,self.sd,n).reshape(n,1)","noise = np.random.normal(0,self.sd**2,n).reshape(n,1)")]),
 dict(id='b-samenoise', expect={'C27'}, edits=[(D2,"noise = np.random.normal(0,self.sd,n).reshape(n,1)","noise = np.random.normal(0,self.sd)*np.ones((n,1))")]),
 dict(id='b-axis', expect={'C27'}, edits=[(ND,"aux = (abs(4*X-2)","aux = (abs(4*X-X.shape[1])")]),
 dict(id='b-cum', expect={'C27'}, edits=[(ND,"fval =  np.cumprod(aux,axis=1)[:,self.input_dim-1]","fval =  np.cumprod(aux,axis=0)[:,self.input_dim-1]")]),
 dict(id='b-dims', expect={'C27'}, edits=[(ND,"[(-4,6)]*self.input_dim","[(-4,6)]*(self.input_dim-1)")]),
 dict(id='b-reshape', expect={'C27'}, edits=[('GPyOpt/util/general.py',"    if x.size ==input_dim:\n        x = x.reshape((1,input_dim))","    if x.size % input_dim == 0:\n        x = x.reshape((input_dim,-1)).T")]),
]
