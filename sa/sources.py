"""Sources of nondeterminism: dotted names behind calls, unordered collections and where their order is used."""
import ast
from .names import own_nodes, FUNCS, COMPS

DRAWS = {'rand', 'randn', 'randint', 'random_integers', 'random_sample', 'random', 'ranf', 'sample', 'bytes', 'choice', 'shuffle', 'permutation',
         'beta', 'binomial', 'chisquare', 'dirichlet', 'exponential', 'f', 'gamma', 'geometric', 'gumbel', 'hypergeometric', 'laplace',
         'logistic', 'lognormal', 'logseries', 'multinomial', 'multivariate_normal', 'negative_binomial', 'noncentral_chisquare',
         'noncentral_f', 'normal', 'pareto', 'poisson', 'power', 'rayleigh', 'standard_cauchy', 'standard_exponential', 'standard_gamma',
         'standard_normal', 'standard_t', 'triangular', 'uniform', 'vonmises', 'wald', 'weibull', 'zipf'}
CLOCKS = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.perf_counter_ns', 'time.monotonic', 'time.monotonic_ns', 'time.process_time',
          'time.clock', 'time.localtime', 'time.gmtime', 'time.strftime', 'time.ctime', 'time.thread_time', 'datetime.datetime.now',
          'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'timeit.default_timer'}
OTHER = {'os.urandom', 'os.getrandom', 'os.getpid', 'os.getppid', 'uuid.uuid1', 'uuid.uuid4', 'threading.get_ident',
         'multiprocessing.current_process'}


def imports_of(node, m, p):
    out = {}
    for n in own_nodes(node) if isinstance(node, FUNCS) else node.body:
        add_imports(n, out, m, p)
    return out


def add_imports(n, out, m, p):
    if isinstance(n, ast.Import):
        for a in n.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split('.')[0]] = a.name.split('.')[0]
    elif isinstance(n, ast.ImportFrom) and not n.level:
        for a in n.names:
            if a.name != '*':
                out[a.asname or a.name] = '%s.%s' % (n.module, a.name)


class Names(object):
    """dotted external name of an expression in a function (its own imports and aliases, its enclosing functions', its module's)"""

    def __init__(self, p, m, chain):
        self.maps = []
        top = {}
        for n in m.tree.body:
            for x in ast.walk(n) if not isinstance(n, FUNCS + (ast.ClassDef,)) else ():
                add_imports(x, top, m, p)
        self.maps.append(top)
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                self.alias(s)
        for f in chain:
            d = {}
            a = f.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                d[x.arg] = None
            self.maps.append(d)
            for n in own_nodes(f):
                add_imports(n, d, m, p)
            for n in own_nodes(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    d.setdefault(n.id, None)
            for n in own_nodes(f):
                if isinstance(n, ast.Assign):
                    self.alias(n)

    def alias(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = self.dotted(s.value)
            if v is not None:
                self.maps[-1][s.targets[0].id] = v

    def dotted(self, e):
        if isinstance(e, ast.Name):
            for d in reversed(self.maps):
                if e.id in d:
                    return d[e.id]
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return None if b is None else b + '.' + e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 \
                and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
            b = self.dotted(e.args[0])
            return None if b is None else b + '.' + e.args[1].value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == '__import__' and e.args and isinstance(e.args[0], ast.Constant):
            return str(e.args[0].value)
        if isinstance(e, ast.Call):
            d = self.dotted(e.func)
            if d in ('importlib.import_module',) and e.args and isinstance(e.args[0], ast.Constant):
                return str(e.args[0].value)
        return None


def is_draw(d):
    if d is None:
        return False
    d = d.replace('numpy.random.mtrand', 'numpy.random')
    return d.startswith('numpy.random.') and d.rsplit('.', 1)[1] in DRAWS


SETOPS = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)
FREE = {'sorted', 'set', 'frozenset', 'all', 'any', 'min', 'max', 'sum', 'len', 'fsum'}       # consumers that ignore the order


class Unordered(object):
    """expressions of a function that are sets, and uses that depend on their order"""

    def __init__(self, fn, fields=()):
        self.fn = fn
        self.fields = set(fields)
        self.kinds = {}
        ass = {}
        for n in own_nodes(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        ass.setdefault(t.id, []).append(n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
                ass.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        ass.setdefault(x.id, []).append(None)
        self.ass = ass
        self.adds = {}
        for n in own_nodes(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add', 'update') and isinstance(n.func.value, ast.Name):
                self.adds.setdefault(n.func.value.id, []).extend((x, n.func.attr == 'update') for x in n.args)
        self.sets = set()
        for _ in range(4):
            for x, vs in ass.items():
                if any(v is not None and self.is_set(v) for v in vs):
                    self.sets.add(x)

    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            return e.id in self.sets
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                return self.is_set(e.func.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, SETOPS):
            return self.is_set(e.left) or self.is_set(e.right)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        if isinstance(e, ast.Attribute):
            return e.attr in self.fields
        return False

    # elements whose hash differs from one process to the next: strings, and objects hashed by identity
    def unstable(self, e, depth=0):
        """True when the elements of collection e are (or may well be) strings"""
        if depth > 6:
            return False
        if isinstance(e, (ast.Set, ast.List, ast.Tuple)):
            return any(self.text(x, depth + 1) for x in e.elts)
        if isinstance(e, (ast.SetComp, ast.ListComp, ast.GeneratorExp)):
            return self.text(e.elt, depth + 1)
        if isinstance(e, ast.Dict):
            return any(x is not None and self.text(x, depth + 1) for x in e.keys)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Sub):
                return self.unstable(e.left, depth + 1)
            return self.unstable(e.left, depth + 1) or self.unstable(e.right, depth + 1)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset', 'list', 'tuple', 'sorted', 'iter', 'reversed'):
                return any(self.unstable(a, depth + 1) for a in e.args)
            if isinstance(e.func, ast.Name) and e.func.id == 'map' and e.args:
                return isinstance(e.args[0], ast.Name) and e.args[0].id in ('str', 'repr')
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ('keys', 'split'):
                    return True
                if e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                    return self.unstable(e.func.value, depth + 1) or any(self.unstable(a, depth + 1) for a in e.args)
            return False
        if isinstance(e, ast.Name):
            return any(v is not None and self.unstable(v, depth + 1) for v in self.ass.get(e.id, ())) or \
                any(self.unstable(v, depth + 1) if up else self.text(v, depth + 1) for v, up in self.adds.get(e.id, ()))
        return False

    def text(self, e, depth):
        if depth > 8:
            return False
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (str, bytes))
        if isinstance(e, ast.JoinedStr):
            return True
        if isinstance(e, ast.BinOp):
            return self.text(e.left, depth + 1) or self.text(e.right, depth + 1)
        if isinstance(e, ast.Tuple):
            return any(self.text(x, depth + 1) for x in e.elts)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                return e.func.id in ('str', 'repr', 'type', 'id')
            return isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join', 'lower', 'upper', 'strip', 'tobytes', 'tostring', 'hexdigest')
        if isinstance(e, ast.Subscript):
            s = e.slice
            return isinstance(s, ast.Constant) and s.value in ('name', 'type')
        if isinstance(e, ast.Attribute):
            return e.attr in ('name', 'type', '__name__', '__class__')
        if isinstance(e, ast.Name):
            return any(v is not None and self.text(v, depth + 1) for v in self.ass.get(e.id, ()))
        return False

    def ordered_uses(self):
        par = {}
        nodes = list(own_nodes(self.fn))
        for n in nodes:
            for c in ast.iter_child_nodes(n):
                par[id(c)] = n
        out = []
        for n in nodes:
            if isinstance(n, ast.For) and self.is_set(n.iter):
                out.append((n, n.iter))
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(self.is_set(g.iter) for g in n.generators):
                up = par.get(id(n))
                if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in FREE:
                    continue
                for g in n.generators:
                    if self.is_set(g.iter):
                        out.append((n, g.iter))
            elif isinstance(n, ast.Call):
                name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if name in FREE:
                    continue
                if name == 'pop' and isinstance(n.func, ast.Attribute) and not n.args and self.is_set(n.func.value):
                    out.append((n, n.func.value))
                if isinstance(n.func, ast.Name) and name in ('list', 'tuple', 'enumerate', 'zip', 'iter', 'map', 'filter', 'reversed', 'next') or \
                        name in ('array', 'asarray', 'join', 'vstack', 'hstack', 'fromiter', 'choice', 'concatenate'):
                    up = par.get(id(n))
                    if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in FREE:
                        continue
                    for a in n.args:
                        if self.is_set(a):
                            out.append((n, a))
                for a in n.args:
                    if isinstance(a, ast.Starred) and self.is_set(a.value):
                        out.append((n, a.value))
        return out
