"""Whole-program flow of package objects, classes and functions (context- and flow-insensitive), and two decisions on it:
every attribute asked of a package object exists on that kind of object, and every call of a package function passes
arguments it accepts.

Values are sets of atoms: ('o', class) an instance, ('c', class) a class, ('f', function) a function, ('m', class, function)
a bound method, ('e', atom) a container of such.
"""
import ast
from .names import own_nodes, FUNCS, COMPS, params, locals_of

MAXROUND = 40


def plain_base(b):
    return b in ('object', 'ABC', 'abc.ABC') or b.replace(' ', '') in ('with_metaclass(abc.ABCMeta,object)', 'with_metaclass(ABCMeta,object)')


PLAIN = frozenset([('k',)])        # something that is not a package object


def picked(atoms, key):
    """what a container holds under a key: the kinds are known for the whole container, not per name"""
    out = elem(atoms)
    if isinstance(key, ast.Constant) and isinstance(key.value, str):
        out = out | PLAIN
    return out


def elem(atoms):
    return {a[1] for a in atoms if a[0] == 'e'}


class Flow(object):
    def __init__(self, p):
        self.p = p
        self.val = {}
        self._imports = {}
        self._locals = {}
        self.changed = False
        self.classes = list(p.classes())
        self.subs = {k.qual: [d for d in self.classes if k in p.mro(d)] for k in self.classes}
        self.by = {k.qual: k for k in self.classes}
        self.targets = {}         # call node -> {function: number of implicit arguments}
        self.foreign = set()      # attributes stored on something other than self
        self.open = set()         # classes whose attributes cannot be listed
        self.fields = {k.qual: self.own_fields(k) for k in self.classes}
        self.fnode = {}
        self.fns = []
        for f in p.functions():
            self.fns.append(f)
        self.scan_foreign()
        self.built = set()
        self.report = None

    # ------------------------------------------------------------------ attribute tables
    def own_fields(self, k):
        out = set()
        for f in k.methods.values():
            ps = f.params()
            if not ps:
                continue
            me = ps[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    self.open.add(k.qual)
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    self.open.add(k.qual)
        if '__getattr__' in k.methods or '__getattribute__' in k.methods:
            self.open.add(k.qual)
        for s in k.node.body:
            for n in ast.walk(s) if not isinstance(s, FUNCS) else ():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
            if isinstance(s, (ast.ClassDef,)):
                out.add(s.name)
        return out

    def scan_foreign(self):
        for m in self.p.modules.values():
            if m.is_spec:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.foreign.add(n.attr)

    def has(self, k, attr):
        """True, False or None (cannot be told)"""
        if attr.startswith('__'):
            return True
        for x in self.p.mro(k):
            if attr in x.methods or attr in x.consts or attr in self.fields.get(x.qual, ()):
                return True
        for x in self.p.mro(k):
            if x.qual in self.open or any(not plain_base(b) for b in x.ext_bases):
                return None
        if attr in self.foreign:
            return None
        return False

    # ------------------------------------------------------------------ flow
    def get(self, key):
        return self.val.get(key, frozenset())

    def put(self, key, atoms):
        if not atoms:
            return
        old = self.val.get(key)
        if old is None:
            self.val[key] = frozenset(atoms)
            self.changed = True
        else:
            new = old | frozenset(atoms)
            if len(new) != len(old):
                if len(new) > 60:
                    return
                self.val[key] = new
                self.changed = True

    def field_keys(self, k, attr):
        """the field of an instance of k is the one stored by any class of its line"""
        return [('fld', x.qual, attr) for x in self.p.mro(k)] + [('fld', x.qual, attr) for x in self.subs[k.qual]]

    def run(self):
        for _ in range(MAXROUND):
            self.changed = False
            for f in self.fns:
                self.function(f)
            for m in self.p.modules.values():
                if not m.is_spec:
                    self.module(m)
            if not self.changed:
                break
        return self

    def check(self):
        self.report = []
        self.sites = {'attributes': 0, 'calls': 0}
        seen = set()
        for f in self.fns:
            if f.node in seen:
                continue
            seen.add(f.node)
            self.function(f)
        return self.report

    def module(self, m):
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, Ctx(self, None, m, {}))
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.put(('g', m.name, t.id), v)

    def self_kinds(self, f):
        k = f.cls
        return [d for d in self.subs[k.qual] if self.p.find_method(d, f.name) is f] or [k]

    def function(self, f, outer=None):
        c = Ctx(self, f, f.module, {})
        c.qual = f.qual
        c.locals = self.locals_of(f.node)
        ps = f.params()
        if f.cls is not None and ps and not f.is_static:
            if f.is_classmethod:
                self.put(('v', c.qual, ps[0]), {('c', d.qual) for d in self.self_kinds(f)})
            else:
                c.me = ps[0]
                self.put(('v', c.qual, ps[0]), {('o', d.qual) for d in self.self_kinds(f)})
        a = f.node.args
        for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            self.put(('v', c.qual, x), self.ev(d, c))
        self.body(f.node, c)

    def body(self, fn, c):
        if isinstance(fn, ast.Lambda):
            self.put(('r', c.qual), self.ev(fn.body, c))
            return
        for s in fn.body:
            self.stmt(s, c)

    def stmt(self, s, c):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, c)
            for t in s.targets:
                self.assign(t, v, c, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, c), c, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, c)
            self.ev(s.target, c, True)
            self.assign(s.target, {a for a in v if a[0] == 'e'}, c)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.put(('r', c.qual), self.ev(s.value, c))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, c)
        elif isinstance(s, ast.If):
            self.ev(s.test, c)
            guard = tests(s.test)
            c.guards.append(guard)
            for x in s.body:
                self.stmt(x, c)
            c.guards.pop()
            c.guards.append(guard)      # the other branch of the same test
            for x in s.orelse:
                self.stmt(x, c)
            if not (s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                c.guards.pop()          # otherwise what follows is the other branch
        elif isinstance(s, ast.While):
            self.ev(s.test, c)
            for x in s.body + s.orelse:
                self.stmt(x, c)
        elif isinstance(s, ast.For):
            self.assign(s.target, elem(self.ev(s.iter, c)), c, None)
            for x in s.body + s.orelse:
                self.stmt(x, c)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            c.tries += bool(s.handlers)
            for x in s.body:
                self.stmt(x, c)
            c.tries -= bool(s.handlers)
            for h in s.handlers:
                for x in h.body:
                    self.stmt(x, c)
            for x in s.orelse + s.finalbody:
                self.stmt(x, c)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, c)
            for x in s.body:
                self.stmt(x, c)
        elif isinstance(s, ast.FunctionDef):
            self.nested(s, c)
        elif isinstance(s, (ast.Raise,)):
            if s.exc is not None:
                self.ev(s.exc, c)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, c)
            c.guards.append(tests(s.test))
        elif type(s).__name__ == 'Match':
            self.ev(s.subject, c)
            for k in s.cases:
                for x in k.body:
                    self.stmt(x, c)
        elif isinstance(s, (ast.Delete,)):
            for t in s.targets:
                self.ev(t, c, True)

    def nested(self, n, c):
        from .program import Function
        key = id(n)
        f = self.fnode.get(key)
        if f is None:
            f = self.fnode[key] = Function(n, c.module, None, '%s.<%s@%d>' % (c.qual, getattr(n, 'name', 'lambda'), n.lineno))
        d = Ctx(self, f, c.module, {})
        d.qual = f.qual
        d.locals = self.locals_of(n)
        d.up = c
        d.guards = list(c.guards)
        d.tries = c.tries
        if isinstance(n, ast.FunctionDef):
            self.put(('v', c.qual, n.name), {('f', f.qual)})
        self.index(f)
        self.body(n, d)
        return f

    def index(self, f):
        self.byfn[f.qual] = f

    @property
    def byfn(self):
        d = self.__dict__.get('_byfn')
        if d is None:
            d = self._byfn = {f.qual: f for f in self.fns}
        return d

    def assign(self, t, v, c, e=None):
        if isinstance(t, ast.Name):
            self.put(('v', c.home(t.id), t.id), v)
        elif isinstance(t, ast.Attribute):
            for a in self.ev(t.value, c):
                if a[0] == 'o':
                    k = self.by[a[1]]
                    home = k
                    if c.f is not None and c.f.cls is not None and isinstance(t.value, ast.Name) and t.value.id == c.me:
                        home = c.f.cls
                    self.put(('fld', home.qual, t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, c)
            base = self.ev(t.value, c)
            self.grow(t.value, {('e', a) for a in v if a[0] != 'e'}, c)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts):
                for x, y in zip(t.elts, e.elts):
                    self.assign(x, self.ev(y, c), c, y)
            else:
                for x in t.elts:
                    self.assign(x, elem(v), c)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, c)

    def grow(self, e, atoms, c):
        """a container reached through e receives elements"""
        if isinstance(e, ast.Name):
            self.put(('v', c.home(e.id), e.id), atoms)
        elif isinstance(e, ast.Attribute):
            self.assign(e, atoms, c)

    def method(self, k, name):
        return self.p.find_method(k, name)

    def ev(self, e, c, silent=False):
        if e is None:
            return set()
        if isinstance(e, ast.Constant):
            return set() if e.value is None else set(PLAIN)
        if isinstance(e, ast.JoinedStr):
            for ch in ast.walk(e):
                if isinstance(ch, ast.FormattedValue):
                    self.ev(ch.value, c)
            return set(PLAIN)
        if isinstance(e, ast.Name):
            return self.name(e.id, c)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, c)
        if isinstance(e, ast.Call):
            return self.call(e, c)
        if isinstance(e, ast.Lambda):
            return {('f', self.nested(e, c).qual)}
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = set()
            for x in e.elts:
                out |= {('e', a) for a in self.ev(x, c) if a[0] != 'e'}
            return out
        if isinstance(e, ast.Dict):
            out = set()
            for k in e.keys:
                self.ev(k, c)
            for x in e.values:
                out |= {('e', a) for a in self.ev(x, c) if a[0] != 'e'}
            return out
        if isinstance(e, COMPS):
            for g in e.generators:
                it = elem(self.ev(g.iter, c))
                saved = c
                c = c.comp()
                c.scope(g.target, it, self)
                for x in g.ifs:
                    self.ev(x, c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, c)
                v = self.ev(e.value, c)
            else:
                v = self.ev(e.elt, c)
            return {('e', a) for a in v if a[0] != 'e'}
        if isinstance(e, ast.IfExp):
            self.ev(e.test, c)
            c.guards.append(tests(e.test))
            r = self.ev(e.body, c) | self.ev(e.orelse, c)
            c.guards.pop()
            return r
        if isinstance(e, ast.BoolOp):
            out = set()
            n = 0
            for v in e.values:
                out |= self.ev(v, c)
                c.guards.append(tests(v))
                n += 1
            for _ in range(n):
                c.guards.pop()
            return out
        if isinstance(e, ast.Subscript):
            self.ev(e.slice, c)
            return picked(self.ev(e.value, c), e.slice)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, c)
            self.assign(e.target, v, c)
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value, c)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, c), self.ev(e.right, c)
            return {x for x in a | b if x[0] == 'e'}
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch, c)
        return set()

    def name(self, x, c):
        d = c
        while d is not None:
            if x in d.env:
                return set(d.env[x])
            if d.f is not None and x in d.locals:
                out = set(self.get(('v', d.qual, x)))
                # an import inside the function
                for n, a in self.imports(d.f.node).get(x, ()):
                    out |= self.resolved(self.p.resolve(self.p.abs_import(d.module, n), a.name))
                return out
            d = d.up
        r = self.p.resolve(c.module.name, x)
        out = self.resolved(r)
        out |= self.get(('g', c.module.name, x))
        return out

    def locals_of(self, n):
        r = self._locals.get(id(n))
        if r is None:
            r = self._locals[id(n)] = locals_of(n)
        return r

    def imports(self, fn):
        r = self._imports.get(id(fn))
        if r is None:
            r = self._imports[id(fn)] = {}
            for n in own_nodes(fn):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        r.setdefault(a.asname or a.name, []).append((n, a))
        return r

    def resolved(self, r):
        if r is None:
            return set()
        if r[0] == 'cls':
            return {('c', r[1].qual)} if r[1].qual in self.by else set()
        if r[0] == 'fn':
            return {('f', r[1].qual)}
        if r[0] == 'mod':
            return {('mod', r[1])}
        return set()

    def attribute(self, e, c):
        base = self.ev(e.value, c)
        out = set()
        kinds = [a for a in base if a[0] == 'o']
        if self.report is not None and kinds and isinstance(e.ctx, ast.Load):
            self.sites['attributes'] += 1
            if ('k',) not in base and not c.guarded(e):
                miss = [a for a in kinds if self.has(self.by[a[1]], e.attr) is False]
                miss = [a for a in miss if not self.stub(self.by[a[1]])]
                if miss and (len(miss) == len(kinds) or self.one_family(kinds) and not self.told(c.module, e, kinds, miss)):
                    self.report.append(('attribute', c.f, e, sorted(self.by[a[1]].name for a in miss), len(miss) == len(kinds), e.attr))
        for a in base:
            if a[0] == 'o':
                k = self.by[a[1]]
                m = self.method(k, e.attr)
                if m is not None:
                    if m.is_property:
                        out |= self.get(('r', m.qual))
                    elif m.is_static:
                        out.add(('f', m.qual))
                    else:
                        out.add(('m', k.qual, m.qual))
                    self.index(m)
                else:
                    for key in self.field_keys(k, e.attr):
                        out |= self.get(key)
            elif a[0] == 'c':
                k = self.by[a[1]]
                m = self.method(k, e.attr)
                if m is not None:
                    self.index(m)
                    if m.is_classmethod:
                        out.add(('m', k.qual, m.qual))
                    else:
                        out.add(('f', m.qual))
            elif a[0] == 'mod':
                r = self.p.resolve(a[1], e.attr)
                if r is None and self.report is not None and isinstance(e.ctx, ast.Load) and a[1] in self.p.modules:
                    if not self.in_module(a[1], e.attr):
                        self.report.append(('attribute', c.f, e, ['module ' + a[1]], True, e.attr))
                out |= self.resolved(r)
        return out

    def told(self, m, e, kinds, miss):
        """the module examines the kind of such an object somewhere: the use may depend on it"""
        if not hasattr(self, 'tested'):
            self.tested = {}
        r = self.tested.get(m.name)
        if r is None:
            r = self.tested[m.name] = (set(), set())
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.If, ast.IfExp, ast.Assert, ast.While, ast.BoolOp)):
                    for t in tests(n if isinstance(n, ast.BoolOp) else n.test):
                        r[0].add(t.split('.')[-1].split('(')[0])
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass') and len(n.args) > 1:
                    r[1].update(x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(n.args[1]) if isinstance(x, (ast.Name, ast.Attribute)))
        if ast.unparse(e.value).split('.')[-1] in r[0]:
            return True
        ok = [self.by[a[1]] for a in kinds if a not in miss]
        return any(k.name in r[1] for q in ok for k in self.p.mro(q))

    def in_module(self, m, x):
        from .names import module_globals
        g = module_globals(self.p, self.p.modules[m])
        return g is None or x in g or x.startswith('__') or any(k.startswith(m + '.' + x) for k in self.p.modules) or \
            any(x == k.rsplit('.', 1)[-1] for k in self.p.modules if k.startswith(m + '.')) or self.testing(m, x)

    def testing(self, m, x):
        import os
        d = os.path.dirname(self.p.modules[m].path)
        return os.path.exists(os.path.join(d, x)) or os.path.exists(os.path.join(d, x + '.py'))

    def one_family(self, atoms):
        """objects of one interface; a mixture of unrelated kinds comes from merging the callers of a general helper"""
        roots = {self.p.mro(self.by[a[1]])[-1].qual for a in atoms}
        return len(roots) == 1

    def stub(self, k):
        """a class that only declares an interface"""
        if len(self.subs[k.qual]) > 1 and k.qual not in self.built:
            return True
        return False

    def call(self, e, c):
        f = e.func
        args = [self.ev(x, c) for x in e.args]
        kws = {k.arg: self.ev(k.value, c) for k in e.keywords}
        # super(...).m
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            k = None
            d = c
            while d is not None and k is None:
                k = d.f.cls if d.f is not None else None
                d = d.up
            if k is not None:
                out = set()
                for m in self.up_methods(k, f.attr):
                    out |= self.apply(m, args, kws, e, c, bound=True, me=None)
                return out
            return set()
        fs = self.ev(f, c) - PLAIN
        out = set()
        mark = len(self.report) if self.report is not None else 0
        for a in fs:
            if a[0] == 'c':
                k = self.by[a[1]]
                self.built.add(k.qual)
                m = self.method(k, '__init__')
                if m is not None:
                    self.apply(m, args, kws, e, c, bound=True, n=len(fs))
                elif self.report is not None and (e.args or e.keywords) and not any(x.ext_bases and x.ext_bases != ['object'] for x in self.p.mro(k)):
                    self.report.append(('call', c.f, e, [k.name], True, '%s takes no arguments' % k.name))
                out.add(('o', k.qual))
            elif a[0] == 'f':
                m = self.byfn.get(a[1])
                if m is not None:
                    out |= self.apply(m, args, kws, e, c, bound=False, n=len(fs))
            elif a[0] == 'm':
                m = self.byfn.get(a[2])
                if m is not None:
                    out |= self.apply(m, args, kws, e, c, bound=True, n=len(fs), kind=self.by[a[1]])
        if self.report is not None and len(self.report) > mark:
            new = self.report[mark:]
            if len(new) < len(fs) and not (all(a[0] == 'm' for a in fs) and self.one_family(fs)):
                del self.report[mark:]
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'add', 'insert', 'extend') and args:
            v = args[-1]
            self.grow(f.value, {x if x[0] == 'e' else ('e', x) for x in v}, c)
        if isinstance(f, ast.Name) and f.id in ('list', 'tuple', 'sorted', 'reversed', 'set', 'enumerate', 'zip') and args:
            for x in args:
                out |= {y for y in x if y[0] == 'e'}
        elif isinstance(f, ast.Attribute) and f.attr in ('values', 'items', 'get', 'pop', 'copy'):
            b = self.ev(f.value, c)
            if f.attr in ('values', 'items', 'copy'):
                out |= {y for y in b if y[0] == 'e'}
            else:
                out |= picked(b, args and e.args[0])
                for v in args[1:]:
                    out |= v
        elif isinstance(f, ast.Name) and f.id in ('deepcopy', 'copy') and args:
            out |= args[0]
        elif isinstance(f, ast.Attribute) and f.attr in ('deepcopy', 'copy') and args:
            out |= args[0]
        return out

    def up_methods(self, k, name):
        """implementations super() may reach from class k (single inheritance: exactly one)"""
        for x in self.p.mro(k)[1:]:
            if name in x.methods:
                return [x.methods[name]]
        return []

    def apply(self, m, args, kws, e, c, bound, n=1, me=None, kind=None):
        a = m.node.args
        ps = m.params()
        skip = 1 if bound and not m.is_static else 0
        self.index(m)
        self.targets.setdefault(id(e), {})[m.qual] = skip
        star = any(isinstance(x, ast.Starred) for x in e.args)
        dstar = any(k.arg is None for k in e.keywords)
        if self.report is not None:
            self.sites['calls'] += 1
            msg = binds(m, e, skip, star, dstar)
            if msg and not c.guarded(e.func):
                self.report.append(('call', c.f, e, [(kind.name + '.' if kind else '') + m.name], n == 1, msg))
        names = ps[skip:]
        for x, v in zip(names, args):
            if star:
                break
            self.put(('v', m.qual, x), v)
        allp = set(ps) | {x.arg for x in a.kwonlyargs}
        for k, v in kws.items():
            if k in allp:
                self.put(('v', m.qual, k), v)
        return self.get(('r', m.qual))


class Ctx(object):
    def __init__(self, flow, f, module, env):
        self.flow, self.f, self.module, self.env = flow, f, module, env
        self.qual = f.qual if f else module.name
        self.locals = set()
        self.up = None
        self.me = None
        self.guards = []
        self.tries = 0

    def comp(self):
        d = Ctx(self.flow, self.f, self.module, {})
        d.qual, d.locals, d.me, d.guards, d.tries = self.qual, self.locals, self.me, self.guards, self.tries
        d.env = dict(self.env)
        d.up = self.up
        return d

    def scope(self, t, atoms, flow):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(atoms)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.scope(x, atoms, flow)

    def home(self, x):
        d = self
        while d is not None:
            if d.f is not None and x in d.locals:
                return d.qual
            d = d.up
        return self.qual

    def guarded(self, e):
        """the use is made only where a test about the object's kind or attributes has been made, or failures are handled"""
        if self.tries:
            return True
        base = ast.unparse(e.value) if isinstance(e, ast.Attribute) else ast.unparse(e)
        for g in self.guards:
            if base in g:
                return True
        return False


def tests(e):
    """what the kind of is examined by a condition"""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'hasattr', 'type', 'getattr', 'callable', 'issubclass') and n.args:
            out.add(ast.unparse(n.args[0]))
        elif isinstance(n, ast.Attribute) and n.attr == '__class__':
            out.add(ast.unparse(n.value))
        elif isinstance(n, ast.Attribute) and n.attr in ('type', 'name', 'model_type', 'acquisition_type', 'evaluator_type',
                                                         'analytical_gradient_prediction', 'analytical_gradient_acq', 'analytical_gradients', 'MCMC_sampler'):
            out.add(ast.unparse(n.value))
    return out


def binds(m, e, skip, star, dstar):
    a = m.node.args
    ps = m.params()[skip:]
    pos = [x for x in e.args if not isinstance(x, ast.Starred)]
    req = m.params()[skip:len(m.params()) - len(a.defaults)]
    if len(pos) > len(ps) and not a.vararg:
        return '%s accepts at most %d positional arguments, %d given' % (m.qual, len(ps), len(pos))
    allp = set(ps) | {x.arg for x in a.kwonlyargs}
    given = set(ps[:len(pos)])
    for k in e.keywords:
        if k.arg is None:
            continue
        if k.arg not in allp and not a.kwarg:
            return '%s has no parameter %s' % (m.qual, k.arg)
        if k.arg in given:
            return '%s is given %s twice' % (m.qual, k.arg)
        given.add(k.arg)
    if not star and not dstar:
        for x in req:
            if x not in given:
                return '%s is not given %s' % (m.qual, x)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in given:
                return '%s is not given %s' % (m.qual, x.arg)
    return None
