"""Loads the package source (syntax trees) and resolves names, imports, classes and methods."""
import ast
import os
from . import terms as tm

REPO = os.environ.get('GPYOPT_REPO', '/repo')


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}      # name -> ('cls', Class) | ('fn', Function) | ('import', dotted) | ('expr', node)
        self.is_pkg = path.endswith('__init__.py')
        self.is_spec = False


class Function(object):
    def __init__(self, node, module, cls=None, qual=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual or (module.name + '.' + (cls.name + '.' if cls else '') + self.name)
        self.decorators = set()
        for d in getattr(node, 'decorator_list', []):
            self.decorators.add(ast.unparse(d).split('.')[-1])
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_property = 'property' in self.decorators

    @property
    def loc(self):
        return '%s:%d' % (os.path.relpath(self.module.path, REPO), self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def defaults(self):
        a = self.node.args
        return [x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs) + len(a.args) - len(a.defaults):]]


class Class(object):
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.qual = module.name + '.' + node.name
        self.methods = {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Function(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # an alias of a method defined before
                        if isinstance(s.value, ast.Name) and s.value.id in self.methods:
                            self.methods[t.id] = self.methods[s.value.id]
                        else:
                            self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
        self.bases = []        # resolved Class objects
        self.ext_bases = []    # names of unresolved bases


class Program(object):
    def __init__(self, root=None, pkg='GPyOpt', override=None):
        self.root = root or REPO
        self.pkg = pkg
        self.modules = {}
        self.errors = []
        base = os.path.join(self.root, pkg)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            if 'testing' in dp.split(os.sep) or '__pycache__' in dp:
                continue
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                if override and os.path.relpath(path, self.root) in override:
                    src = override[os.path.relpath(path, self.root)]
                else:
                    with open(path, encoding='utf-8') as fh:
                        src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, path)
                self.modules[rel] = Module(rel, path, tree, src)
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for k, n in list(m.names.items()):
                if n[0] == 'cls':
                    self._bases(n[1])
        tm.LINEAGE.clear()
        for m in self.modules.values():
            for n in m.names.values():
                if n[0] == 'cls':
                    tm.LINEAGE[n[1].qual] = frozenset(x.qual for x in self.mro(n[1]))

    def add_module(self, name, path):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        m = Module(name, path, ast.parse(src, path), src)
        m.is_spec = True
        self.modules[name] = m
        self._scan(m)
        for k, n in list(m.names.items()):
            if n[0] == 'cls':
                self._bases(n[1])
        return m

    def common_sig(self, name):
        """parameter names shared by all package methods called name, or None"""
        memo = self.__dict__.setdefault('_sigs', {})
        if name not in memo:
            sigs = set()
            for m in self.modules.values():
                if m.is_spec:
                    continue
                for n in m.names.values():
                    if n[0] == 'cls' and name in n[1].methods:
                        f = n[1].methods[name]
                        a = f.node.args
                        if a.vararg or a.kwarg or a.kwonlyargs or f.is_static:
                            sigs.add(None)
                        else:
                            sigs.add(tuple(f.params()[1:]))
            memo[name] = tuple((p, None) for p in sigs.pop()) if len(sigs) == 1 and None not in sigs else None
        return memo[name]

    def family(self, c):
        """the class, its ancestors and every class derived from it"""
        up = self.mro(c)
        return up + [k for k in self.classes() if k not in up and c in self.mro(k)]

    def field_use(self, c, fn, seen=None):
        """(fields of self read, fields of self that may change) by a method, following calls of other
        methods on self; (None, None) when self itself is handed out"""
        memo = self.__dict__.setdefault('_use', {})
        key = (c.qual, fn.qual)
        if seen is None:
            if key in memo:
                return memo[key]
            memo[key] = r = self.field_use(c, fn, set())
            return r
        if fn.qual in seen:
            return set(), set()
        seen.add(fn.qual)
        ps = fn.params()
        if not ps or fn.is_static:
            return set(), set()
        me = ps[0]
        reads, writes = set(), set()
        parents = {}
        for n in ast.walk(fn.node):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n
        for n in ast.walk(fn.node):
            if not (isinstance(n, ast.Name) and n.id == me):
                continue
            up = parents.get(n)
            if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id == 'super':
                up2 = parents.get(up)
                if isinstance(up2, ast.Attribute):
                    n, up = up, up2
                else:
                    return None, None
            if not (isinstance(up, ast.Attribute) and up.value is n):
                return None, None
            a = up.attr
            via = parents.get(up)
            methods = [k.methods[a] for k in self.family(c) if a in k.methods]
            if methods:
                if not (isinstance(via, ast.Call) and via.func is up):
                    if not all(m.is_property for m in methods):
                        return None, None
                for m in methods:
                    r, w = self.field_use(c, m, seen)
                    if r is None:
                        return None, None
                    reads |= r
                    writes |= w
                continue
            if isinstance(up.ctx, (ast.Store, ast.Del)):
                writes.add(a)
                if isinstance(via, ast.AugAssign):
                    reads.add(a)
                continue
            reads.add(a)
            # anything but a plain use of the value may change what it refers to
            x, y = up, via
            while isinstance(y, (ast.Attribute, ast.Subscript)) and y.value is x:
                if isinstance(y.ctx, (ast.Store, ast.Del)):
                    writes.add(a)
                x, y = y, parents.get(y)
            if isinstance(y, ast.Call):
                writes.add(a)
            elif isinstance(y, (ast.Assign, ast.AugAssign, ast.Return, ast.keyword, ast.Tuple, ast.List, ast.For, ast.comprehension, ast.Starred, ast.Dict)):
                writes.add(a)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                    isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                for k in self.family(c):
                    m = k.methods.get(n.func.attr)
                    if m is not None:
                        r, w = self.field_use(c, m, seen)
                        if r is None:
                            return None, None
                        reads |= r
                        writes |= w
        return reads, writes

    def method_names(self):
        memo = self.__dict__.get('_mnames')
        if memo is None:
            memo = set()
            for m in self.modules.values():
                for n in m.names.values():
                    if n[0] == 'cls':
                        memo.update(n[1].methods)
            self._mnames = memo
        return memo

    # ------------------------------------------------------------------ scanning
    def _scan(self, m):
        def visit(body):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    m.names[s.name] = ('fn', Function(s, m))
                elif isinstance(s, ast.ClassDef):
                    m.names[s.name] = ('cls', Class(s, m))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    src = self.abs_import(m, s)
                    for a in s.names:
                        m.names[a.asname or a.name] = ('from', src, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ('expr', s.value)
                        elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                            for x, y in zip(t.elts, s.value.elts):
                                if isinstance(x, ast.Name):
                                    m.names[x.id] = ('expr', y)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.names[s.target.id] = ('expr', s.value)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.orelse)
                    visit(s.finalbody)
                elif isinstance(s, (ast.If, ast.With)):
                    visit(s.body)
                    visit(getattr(s, 'orelse', []))
        visit(m.tree.body)

    @staticmethod
    def abs_import(m, s):
        if not s.level:
            return s.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        parts = parts[:len(parts) - up] if up else parts
        return '.'.join(parts + ([s.module] if s.module else []))

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r and r[0] == 'cls':
                c.bases.append(r[1])
            else:
                c.ext_bases.append(ast.unparse(b))

    # ------------------------------------------------------------------ resolution
    def resolve(self, modname, name, depth=0):
        """a module-level name -> ('cls', Class) ('fn', Function) ('mod', dotted) ('ext', dotted) ('expr', node, Module)"""
        if depth > 12:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        n = m.names.get(name)
        if n is None:
            if (modname + '.' + name) in self.modules:
                return ('mod', modname + '.' + name)
            for star in m.tree.body:
                if isinstance(star, ast.ImportFrom) and any(a.name == '*' for a in star.names):
                    r = self.resolve(self.abs_import(m, star), name, depth + 1)
                    if r:
                        return r
            return None
        if n[0] in ('cls', 'fn'):
            return n
        if n[0] == 'import':
            if n[1] in self.modules or n[1] == self.pkg:
                return ('mod', n[1])
            return ('ext', n[1])
        if n[0] == 'from':
            src, nm = n[1], n[2]
            if src in self.modules:
                r = self.resolve(src, nm, depth + 1)
                if r is None and (src + '.' + nm) in self.modules:
                    return ('mod', src + '.' + nm)
                return r
            if (src + '.' + nm) in self.modules:
                return ('mod', src + '.' + nm)
            return ('ext', src + '.' + nm)
        if n[0] == 'expr':
            return ('expr', n[1], m)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.resolve(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def mro(self, c):
        out = []

        def go(x):
            if x in out:
                out.remove(x)
            out.append(x)
            for b in x.bases:
                go(b)
        go(c)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k.consts[name], k
        return None

    def cls(self, name):
        """class by simple or dotted name"""
        for m in self.modules.values():
            n = m.names.get(name)
            if n and n[0] == 'cls':
                return n[1]
        return None

    def fn(self, name, module=None):
        for m in self.modules.values():
            if module and not m.name.endswith(module):
                continue
            n = m.names.get(name)
            if n and n[0] == 'fn':
                return n[1]
        return None

    def classes(self):
        for m in self.modules.values():
            if m.is_spec:
                continue
            for k, n in m.names.items():
                if n[0] == 'cls':
                    yield n[1]

    def functions(self):
        for m in self.modules.values():
            if m.is_spec:
                continue
            for k, n in m.names.items():
                if n[0] == 'fn':
                    yield n[1]
                elif n[0] == 'cls':
                    for f in n[1].methods.values():
                        yield f

    def is_subclass(self, c, name):
        return any(k.name == name for k in self.mro(c))

    def counters(self):
        """names of attributes that are only ever set to a constant >= 0 or increased by one"""
        ok, bad = {}, set()
        for m in self.modules.values():
            if m.is_spec:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                v = n.value
                                if x is t and isinstance(v, ast.Constant) and type(v.value) is int and v.value >= 0:
                                    ok.setdefault(x.attr, 0)
                                else:
                                    bad.add(x.attr)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                    v = n.value
                    if isinstance(n.op, ast.Add) and isinstance(v, ast.Constant) and type(v.value) is int and v.value >= 0:
                        ok[n.target.attr] = ok.get(n.target.attr, 0) + 1
                    else:
                        bad.add(n.target.attr)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    pass
                elif isinstance(n, (ast.For, ast.comprehension, ast.With, ast.AnnAssign, ast.NamedExpr)):
                    for t in [getattr(n, 'target', None)] + [i.optional_vars for i in getattr(n, 'items', [])]:
                        for x in ast.walk(t) if t is not None else ():
                            if isinstance(x, ast.Attribute):
                                bad.add(x.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    return set()
        return {k for k, v in ok.items() if v and k not in bad}
