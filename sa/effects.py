"""Which data may a function change in place?

A forward analysis of every function over its statements (names are updated strongly, branches are joined, loops are
repeated to a fixed point) computes which values may share storage with a parameter or a field, and which statements change
such storage; calls are resolved with the program flow and use the callee's summary, to a fixed point.

An alias is (origin, depth): depth 0 is the object itself (or a view), depth -1 something inside it, depth n > 0 a new
container whose items at nesting n are the object.  Origins are ('P', index), ('F', class, field) or ('G', module, name), a
mutable object of the module.
"""
import ast
from .names import own_nodes, FUNCS, COMPS, locals_of

VIEWS = {'atleast_1d', 'atleast_2d', 'asarray', 'asanyarray', 'ravel', 'reshape', 'squeeze', 'transpose', 'expand_dims', 'asmatrix',
         'swapaxes', 'view', 'diagonal', 'moveaxis', 'rollaxis', 'broadcast_to', 'asfortranarray', 'ascontiguousarray', 'require',
         'flipud', 'fliplr', 'rot90', 'split', 'array_split', 'hsplit', 'vsplit'}
MUTATE = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'fill', 'put',
          'resize', 'itemset', 'partition', 'setflags', 'add', 'discard', 'byteswap', '__setitem__', '__delitem__', 'setfield',
          'difference_update', 'intersection_update', 'symmetric_difference_update'}
MUTATE_ARG = {'shuffle': 0, 'fill_diagonal': 0, 'put': 0, 'place': 0, 'copyto': 0, 'putmask': 0, 'put_along_axis': 0, 'heappush': 0,
              'heappop': 0, 'heapify': 0, 'insort': 0, 'setitem': 0, 'delitem': 0}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'OrderedDict', 'reversed', 'frozenset', 'enumerate', 'zip', 'copy', 'chain', 'deque', 'iter'}
ARRAYISH = {'shape', 'ndim', 'mean', 'std', 'min', 'max', 'sum', 'T', 'reshape', 'flatten', 'ravel', 'copy', 'argmin', 'argmax', 'size', 'dot',
            'astype', 'append', 'extend', 'tolist'}


class Summary(object):
    def __init__(self):
        self.mut = {}        # origin -> (function qual, line, text) of a statement changing it or something inside it
        self.inside = {}     # the same where something inside it is changed
        self.ret = set()
        self.store = {}      # (class, field) -> set of aliases

    def key(self):
        return (frozenset(self.mut), frozenset(self.inside), frozenset(self.ret), frozenset((k, frozenset(v)) for k, v in self.store.items()))


class Effects(object):
    def __init__(self, p, flow):
        self.p, self.flow = p, flow
        self.sum = {}
        self.fns = {}
        for f in list(flow.byfn.values()):
            self.fns[f.qual] = f
        self.fieldowner = {}
        for k in flow.classes:
            for a in flow.fields[k.qual]:
                self.fieldowner.setdefault(a, set()).add(k)

    def run(self):
        for q in self.fns:
            self.sum[q] = Summary()
        for rnd in range(20):
            ch = False
            for q, f in self.fns.items():
                s = Fn(self, f).run()
                if s.key() != self.sum[q].key():
                    ch = True
                self.sum[q] = s
            if not ch:
                break
        self.rounds = rnd + 1
        return self

    def field(self, f, attr):
        """origin of self.attr in a method of f's class: one origin for the whole family"""
        c = f.cls
        for k in reversed(self.p.mro(c)):
            if attr in self.flow.fields[k.qual]:
                return ('F', k.name, attr)
        for d in self.flow.subs[c.qual]:
            if attr in self.flow.fields[d.qual]:
                return ('F', d.name, attr)
        return ('F', c.name, attr)


def depth(s, d):
    return {(o, plus(k, d)) for o, k in s if k + d <= 4}


def plus(k, d):
    return k if d == 0 else max(k - 1, -1) if d < 0 else max(k, 0) + d


def items(s):
    return {(o, max(k - 1, -1)) for o, k in s}


class Fn(object):
    def __init__(self, E, f):
        self.E, self.f = E, f
        self.out = Summary()
        self.env = {}
        self.clos = None
        n = f.node
        a = n.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.me = ps[0] if f.cls is not None and ps and not f.is_static and not f.is_classmethod else None
        self.ps = ps + [x.arg for x in a.kwonlyargs]
        for i, x in enumerate(self.ps):
            if x != self.me:
                self.env[x] = {(('P', i), 0)}
        if a.vararg:
            self.env[a.vararg.arg] = {(('P', len(self.ps)), 1)}
        if a.kwarg:
            self.env[a.kwarg.arg] = {(('P', len(self.ps) + 1), 1)}
        self.arr = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in ARRAYISH:
                self.arr.add(x.value.id)
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
                self.arr.add(x.value.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy'):
                for y in x.args:
                    for z in (y.elts if isinstance(y, (ast.Tuple, ast.List)) else [y]):
                        if isinstance(z, ast.Name):
                            self.arr.add(z.id)

    def run(self):
        n = self.f.node
        if isinstance(n, ast.Lambda):
            self.out.ret |= self.ev(n.body)
        else:
            self.block(n.body)
        return self.out

    # -------------------------------------------------------------- recording
    def mutate(self, s, node):
        for o, k in s:
            w = None
            if k <= 0 and o not in self.out.mut:
                w = self.out.mut[o] = (self.f.qual, self.f.loc.rsplit(':', 1)[0], node.lineno, ast.unparse(node).split('\n')[0][:100])
            if k < 0:
                self.out.inside.setdefault(o, w or self.out.mut[o])

    # -------------------------------------------------------------- statements
    def block(self, b):
        for s in b:
            self.stmt(s)

    def join(self, a, b):
        out = {}
        for x in set(a) | set(b):
            out[x] = a.get(x, set()) | b.get(x, set())
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value), s, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                t = self.env.get(s.target.id, set())
                if s.target.id in self.arr or isinstance(s.value, (ast.List, ast.ListComp)):
                    self.mutate(t, s)
                if isinstance(s.op, ast.Add):
                    self.env[s.target.id] = t | {x for x in v if x[1] > 0}
            elif isinstance(s.target, ast.Attribute):
                t = self.ev(s.target)
                if isinstance(s.value, (ast.List, ast.ListComp)) or self.arrayish_field(s.target):
                    self.mutate(t, s)
                for x in self.attr_origins(s.target):
                    self.store(x, {y for y in v if y[1] > 0})
            else:
                self.ev(s.target.slice)
                self.mutate(self.ev(s.target.value), s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.out.ret |= self.ev(s.value)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)) and s.value.value is not None:
                self.out.ret |= depth(self.ev(s.value.value), 1)
            else:
                self.ev(s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1 = self.env if not ends(s.body) else None
            self.env = e0
            self.block(s.orelse)
            e2 = self.env if not ends(s.orelse) else None
            self.env = self.join(e1, e2) if e1 is not None and e2 is not None else (e1 if e1 is not None else e2 if e2 is not None else e0)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.ev(s.iter)
            for _ in range(3):
                e0 = dict(self.env)
                if isinstance(s, ast.For):
                    self.bind_iter(s.target, it, s)
                else:
                    self.ev(s.test)
                self.block(s.body)
                self.env = self.join(e0, self.env)
                if self.env == e0:
                    break
            self.block(s.orelse)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            e0 = dict(self.env)
            self.block(s.body)
            mid = self.join(e0, self.env)
            self.block(s.orelse)
            outs = [self.env]
            for h in s.handlers:
                self.env = dict(mid)
                self.block(h.body)
                if not ends(h.body):
                    outs.append(self.env)
            self.env = outs[0]
            for o in outs[1:]:
                self.env = self.join(self.env, o)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.FunctionDef):
            self.closure(s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), s)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x)

    def module_object(self, name):
        """a list, dictionary, set or array made when the package is loaded"""
        key = (id(self.f.node), name)
        memo = self.E.__dict__.setdefault('_mod', {})
        if key not in memo:
            memo[key] = None
            n = self.f.node
            if not (isinstance(n, FUNCS) and name in locals_of(n)):
                m, x, hop = self.f.module, name, 0
                src = None
                for y in own_nodes(n):         # imported inside the function
                    if isinstance(y, ast.ImportFrom):
                        for a in y.names:
                            if (a.asname or a.name) == name:
                                src = (self.E.p.abs_import(m, y), a.name)
                while hop < 5:
                    hop += 1
                    if src is not None:
                        m, x = self.E.p.modules.get(src[0]), src[1]
                        src = None
                        if m is None:
                            break
                    for s in m.tree.body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in s.targets):
                            v = s.value
                            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(v, ast.Call) \
                                    and (v.func.id if isinstance(v.func, ast.Name) else getattr(v.func, 'attr', '')) in (
                                        'dict', 'list', 'set', 'array', 'zeros', 'ones', 'OrderedDict', 'defaultdict', 'deque', 'Counter'):
                                memo[key] = ('G', m.name, x)
                        elif isinstance(s, ast.ImportFrom):
                            for a in s.names:
                                if (a.asname or a.name) == x:
                                    src = (self.E.p.abs_import(m, s), a.name)
                    if memo[key] or src is None:
                        break
        return memo[key]

    def arrayish_field(self, t):
        return t.attr in self.E_arrfields()

    def E_arrfields(self):
        r = self.E.__dict__.get('_arrf')
        if r is None:
            r = set()
            for m in self.E.p.modules.values():
                if m.is_spec:
                    continue
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute):
                        r.add(x.value.attr)
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.attr in ARRAYISH:
                        r.add(x.value.attr)
            self.E._arrf = r
        return r

    def closure(self, n):
        """a nested function runs in the environment of its definition"""
        g = Fn(self.E, self.f)
        g.f, g.me, g.arr = self.f, self.me, self.arr
        sub = self.E.flow.fnode.get(id(n))
        inner = {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        g.env = {k: v for k, v in self.env.items() if k not in inner}
        g.out = Summary()
        if isinstance(n, ast.Lambda):
            g.ev(n.body)
        else:
            g.block(n.body)
        for o, w in g.out.mut.items():
            self.out.mut.setdefault(o, w)
        for o, w in g.out.inside.items():
            self.out.inside.setdefault(o, w)
        for k, v in g.out.store.items():
            self.out.store.setdefault(k, set()).update(v)

    def bind_iter(self, t, it, s):
        call = s.iter if isinstance(s, ast.For) else None
        if isinstance(t, (ast.Tuple, ast.List)):
            # items of enumerate/zip/items(): the parts of the pairs are the items themselves
            for x in t.elts:
                self.bind(x, items(it), s)
        else:
            self.bind(t, items(it), s)

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v, s)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, s)
        else:
            self.assign(t, v, s, None)

    def assign(self, t, v, s, e):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts):
                vs = [self.ev(y) for y in e.elts]
                for x, y, z in zip(t.elts, vs, e.elts):
                    self.assign(x, y, s, z)
            else:
                for x in t.elts:
                    self.assign(x, items(v), s, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            base = self.ev(t.value)
            self.mutate(base, s)
            # the container now holds the value
            held = depth({x for x in v}, 1)
            if isinstance(t.value, ast.Name):
                self.env[t.value.id] = self.env.get(t.value.id, set()) | held
            elif isinstance(t.value, ast.Attribute):
                for o in self.attr_origins(t.value):
                    self.store(o, held)
        elif isinstance(t, ast.Attribute):
            for o in self.attr_origins(t):
                self.store(o, v)

    def store(self, o, v):
        if o[0] == 'F' and v:
            self.out.store.setdefault((o[1], o[2]), set()).update(v)

    def attr_origins(self, t):
        if isinstance(t.value, ast.Name) and t.value.id == self.me and self.me is not None:
            return [self.E.field(self.f, t.attr)]
        ks = self.E.fieldowner.get(t.attr)
        if ks and not (isinstance(t.value, ast.Name) and t.value.id in ('np', 'numpy')):
            out = []
            for k in ks:
                r = k
                for b in self.E.p.mro(k):
                    if t.attr in self.E.flow.fields[b.qual]:
                        r = b
                out.append(('F', r.name, t.attr))
            return out
        return []

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            if e.id not in self.env and isinstance(e.ctx, ast.Load):
                g = self.module_object(e.id)
                if g:
                    return {(g, 0)}
            return set(self.env.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            os_ = self.attr_origins(e)
            if len(set(os_)) > 1:
                os_ = [('A',) + o[1:] for o in os_]          # some of them: whose field it is is not known
            base = self.ev(e.value)
            if e.attr in ('T', 'flat', 'real', 'values', 'param_array'):
                return base | {(o, 0) for o in os_}
            if os_:
                return {(o, 0) for o in os_}
            return set()
        if isinstance(e, ast.Subscript):
            self.ev(e.slice)
            base = self.ev(e.value)
            if isinstance(e.slice, ast.Slice) and any(k > 0 for o, k in base) and not any(k <= 0 for o, k in base):
                return base
            return items(base)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = set()
            for x in e.elts:
                out |= depth(self.ev(x), 0 if isinstance(x, ast.Starred) else 1)
            return out
        if isinstance(e, ast.Dict):
            out = set()
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k)
                out |= depth(self.ev(v), 1) if k is not None else {(o, max(d, 1)) for o, d in self.ev(v)}
            return out
        if isinstance(e, COMPS):
            saved = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.bind_iter(g.target, it, g)
                for x in g.ifs:
                    self.ev(x)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = saved
            return depth(v, 1)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.ev(v)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = set(v)
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Lambda):
            self.closure(e)
            return set()
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, (ast.Add, ast.BitOr)):      # joined lists or dictionaries hold the same items
                return {x for x in a | b if x[1] > 0}
            return set()
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.out.ret |= depth(self.ev(e.value), 1)
            return set()
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return set()

    def call(self, e):
        f = e.func
        args = [self.ev(x) for x in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        recv = set()
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value)
        elif not isinstance(f, ast.Name):
            self.ev(f)
        out = set()
        tg = self.E.flow.targets.get(id(e))
        if tg:
            for q, skip in tg.items():
                s = self.E.sum.get(q)
                if s is None:
                    continue
                g = self.E.fns[q]
                amap = self.bind_args(g, skip, e, args, kws, recv)
                for o, w in s.mut.items():
                    for x in self.subst(o, amap):
                        if x[1] <= 0:
                            self.out.mut.setdefault(x[0], w)
                            if x[1] < 0:
                                self.out.inside.setdefault(x[0], w)
                for o, w in s.inside.items():
                    for x in self.subst(o, amap):
                        if x[1] <= 1:
                            self.out.mut.setdefault(x[0], w)
                            if x[1] <= 0:
                                self.out.inside.setdefault(x[0], w)
                for k, v in s.store.items():
                    w = set()
                    for o, d in v:
                        w |= {(x, plus(y, d)) for x, y in self.subst(o, amap)}
                    if w:
                        self.out.store.setdefault(k, set()).update(w)
                for o, d in s.ret:
                    out |= {(x, plus(y, d)) for x, y in self.subst(o, amap) if y + d <= 4}
            return out
        for k in e.keywords:
            if k.arg == 'out':
                self.mutate({x for x in kws['out']} | items(kws['out']) if isinstance(k.value, ast.Tuple) else kws['out'], e)
            if k.arg in ('overwrite_a', 'overwrite_b', 'overwrite_x') and isinstance(k.value, ast.Constant) and k.value.value and args:
                self.mutate(args[0], e)
        if isinstance(f, ast.Attribute):
            lib = isinstance(f.value, ast.Name) and f.value.id not in self.env and f.value.id != self.me and not recv
            if lib or isinstance(f.value, ast.Attribute) and not recv:
                if name in MUTATE_ARG and len(args) > MUTATE_ARG[name] and name not in ('put',) or name == 'put' and len(args) >= 3:
                    self.mutate(args[MUTATE_ARG[name]], e)
                if isinstance(f.value, ast.Attribute) and name == 'at' and args:      # np.add.at
                    self.mutate(args[0], e)
                if name == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords) and args:
                    return args[0]
                if name in VIEWS and args:
                    return args[0]
                if name in ('copy',) and args and ast.unparse(f.value) in ('copy',):
                    return {(o, max(k, 1)) for o, k in args[0]}
                if name in ('chain', 'from_iterable') and args:
                    return args[0]
                return set()
            # a method of a value
            if name in MUTATE and recv:
                if not (name in ('put', 'add', 'update', 'remove', 'insert') and self.is_object(f.value)):
                    self.mutate(recv, e)
                if name in ('append', 'add', 'insert', 'setdefault'):
                    for a in args:
                        self.hold(f.value, depth(a, 1))
                elif name in ('extend', 'update'):
                    for a in args:
                        self.hold(f.value, {(o, max(k, 1)) for o, k in a if k >= 0})
                if name in ('pop', 'setdefault', 'popitem'):
                    return items(recv)
                return set()
            if name in MUTATE and args:
                for a in args:
                    self.hold(f.value, depth(a, 1) if name not in ('extend', 'update') else {(o, max(k, 1)) for o, k in a if k >= 0})
            if name in VIEWS or name in ('values', 'items', 'get'):
                return items(recv) if name == 'get' else recv
            if name == 'copy':
                return set()
            return set()
        if isinstance(f, ast.Name):
            if name in SHALLOW and args:
                out = set()
                for a in args:
                    if name in ('enumerate', 'zip'):
                        out |= a
                    else:
                        out |= {(o, max(k, 1)) for o, k in a}
                return out
            if name in VIEWS and args:
                return args[0]
            if name in MUTATE_ARG and args and name not in self.env:
                self.mutate(args[0], e)
            if name == 'next' and args:
                return items(args[0])
            if name == 'getattr':
                return set()
        return out

    def is_object(self, e):
        return False

    def hold(self, e, v):
        if isinstance(e, ast.Name):
            if e.id in self.env or e.id in locals_of(self.f.node):
                self.env[e.id] = self.env.get(e.id, set()) | v
        elif isinstance(e, ast.Attribute):
            for o in self.attr_origins(e):
                self.store(o, v)

    def bind_args(self, g, skip, e, args, kws, recv):
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        allp = ps + [x.arg for x in a.kwonlyargs]
        m = {}
        pos = ps[skip:]
        i = 0
        for x, v in zip(e.args, args):
            if isinstance(x, ast.Starred):
                for j in range(i, len(pos)):
                    m.setdefault(allp.index(pos[j]), set()).update(items(v))
                break
            if i < len(pos):
                m.setdefault(allp.index(pos[i]), set()).update(v)
            elif a.vararg:
                m.setdefault(len(allp), set()).update(v)
            i += 1
        for k, v in kws.items():
            if k is None:
                continue
            if k in allp:
                m.setdefault(allp.index(k), set()).update(v)
            elif a.kwarg:
                m.setdefault(len(allp) + 1, set()).update(v)
        return m

    def subst(self, o, amap):
        if o[0] in 'FG':
            return {(o, 0)}
        return amap.get(o[1], set())


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
