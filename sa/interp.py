"""Abstract interpretation of Python functions into value-graph terms.

One pass over the statements with joins at control-flow merges (no path enumeration, no solver, no
concrete evaluation).  Every local variable, field and container content is a term over the symbolic
inputs; branches become decision diagrams, loops become comprehensions, sums or folds (loops.py).
What the interpreter does not model becomes an explicit ``top`` term, which makes every obligation that
depends on it *undecided* - never violated.
"""
import ast
import os

from .terms import *
from . import terms as tm
from .program import Function, Class


class Unsupported(Exception):
    pass


class Cell(object):
    __slots__ = ('kind', 'data', 'root', 'cls', 'base', 'view')

    def __init__(self, kind, data, root=None, cls=None, base=None, view=None):
        self.kind, self.data, self.root, self.cls, self.base, self.view = kind, data, root, cls, base, view

    def with_(self, **kw):
        c = Cell(self.kind, self.data, self.root, self.cls, self.base, self.view)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class State(object):
    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.guard = TRUE
        self.outer = TRUE
        self.events = []
        self.far = {}          # attributes set on objects that are not tracked: (object, name) -> value

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.guard, s.outer = self.guard, self.outer
        s.events = list(self.events)
        s.far = dict(self.far)
        return s


class Exit(object):
    def __init__(self, kind, state, value=None, node=None):
        self.kind, self.state, self.value, self.node = kind, state, value, node


class FnVal(object):
    def __init__(self, fn, closure, defaults, kwdefaults):
        self.fn, self.closure, self.defaults, self.kwdefaults = fn, closure, defaults, kwdefaults
        self.bare = False           # the function itself, without its decorators


# decorators that leave what a call computes as it is, or that are given their meaning where the function is used
PLAIN = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'setter', 'getter', 'deleter', 'contextmanager', 'override', 'final', 'wraps'}


def deco_name(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else '?'


IMMUT = {'num', 'str', 'none', 'true', 'false', 'fun', 'cls', 'ext', 'pymod', 'mod', 'bm', 'bmeth', 'tuple', 'inf', 'undef', 'lam', 'ellipsis',
         'strcat', 'slc', 'ref', 'range', 'super', 'partial', 'tostr', 'pi', 'npdtype'}


def is_immut(t):
    if t.op in IMMUT or is_bool(t):
        return True
    if t.op == 'ite':
        return is_immut(t.args[1]) and is_immut(t.args[2])
    if kind(t) in ('int', 'num', 'str'):
        return True
    return False


def has_ref(t):
    return has_op(t, 'ref', 'fun', 'bm', 'super')


MUTATORS = {'add', 'append', 'extend', 'insert', 'remove', 'discard', 'update', 'clear', 'setdefault', 'sort', 'reverse', 'fill',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'popitem'}
QUIET = {'info', 'debug', 'warning', 'warn', 'error', 'log', 'critical', 'exception', 'flush', 'write', 'close', 'show', 'savefig', 'draw'}


class Interp(object):
    """One analysis run.  ``opaque`` holds the names ("Class.method" or "function") kept as interface calls."""

    def __init__(self, program, opaque=(), hints=None, effects=None, opaque_classes=(), inline=(), max_depth=30, config=None):
        from . import model
        self.p = program
        self.opaque = set(opaque)
        self.inline = set(inline)
        self.opaque_classes = set(opaque_classes)
        self.hints = dict(model.FIELD_HINTS)
        if hints:
            self.hints.update(hints)
        self.effects = set(model.EFFECTS)
        if effects:
            self.effects |= set(effects)
        self.st = State()
        self.fid = 0
        self.st.frames[0] = {}
        self.ncell = 0
        self.nframe = 0
        self.fns = {}
        self.fnkeys = {}
        self.with_body, self.withs, self.nwith = None, {}, 0
        self.lazy = {}
        self.lazy_init = {}
        self.types = {}
        self.stack = []
        self.sites = []
        self.tries = {}
        self.raise_stack = [[]]
        self.catching = []
        self.max_depth = max_depth
        self.notes = []
        self.ntop = 0
        self.calls_seen = []
        self.fns_run = set()
        self.module_cache = {}
        self.ntime = 0
        self.steps = 0
        self.mod = None
        self.frame_fn = {}
        self.globals_written = {}
        self.max_steps = 60000
        self.loops = []
        self.loopstack = []
        self.ext_used = set()
        self.nrand = {}

    def loopvars(self):
        return list(self.loopstack)

    def thaw(self, v, orig, st):
        return v

    # ------------------------------------------------------------------------------ cells
    def new_id(self):
        self.ncell += 1
        return self.ncell

    def alloc(self, cell):
        i = self.new_id()
        self.st.heap[i] = cell
        return raw('ref', i)

    def cell(self, ref):
        i = ref.args[0]
        c = self.st.heap.get(i)
        if c is None:
            c = self.lazy_init[i]
        return c

    def cell_in(self, st, i):
        c = st.heap.get(i)
        if c is None:
            c = self.lazy_init.get(i)
        return c

    def set_cell(self, ref, cell):
        self.st.heap[ref.args[0]] = cell

    def box(self, v, root=None):
        """value to be bound to a name / field / element"""
        if is_immut(v) or has_ref(v):
            return v
        if v.op == 'list' or v.op in ('cat', 'comp', 'sorted'):
            return self.alloc(Cell('list', v, root))
        return self.alloc(Cell('val', v, root))

    def new_list(self, data, root=None):
        return self.alloc(Cell('list', data, root))

    def top(self, why, node=None):
        self.ntop += 1
        loc = self.loc(node)
        self.notes.append('unmodelled: %s%s' % (why, ' at ' + loc if loc else ''))
        return raw('top', '%s#%d' % (why, self.ntop))

    def loc(self, node):
        if node is None or not hasattr(node, 'lineno') or self.mod is None:
            return ''
        return '%s:%d' % (os.path.basename(self.mod.path), node.lineno)

    # symbolic objects -----------------------------------------------------------------
    def sym_obj(self, clsname, base):
        """symbolic instance of a package class (or abstract interface)"""
        key = ('obj', base, clsname)
        i = self.lazy.get(key)
        if i is None:
            i = self.new_id()
            self.lazy[key] = i
            self.lazy_init[i] = Cell('obj', (), cls=clsname, base=base)
        return raw('ref', i)

    def typed(self, term, hint, root=None):
        """value for a symbolic term with a type hint"""
        if hint is None:
            key = ('val', term)
            i = self.lazy.get(key)
            if i is None:
                i = self.new_id()
                self.lazy[key] = i
                self.lazy_init[i] = Cell('val', term, root)
            return raw('ref', i)
        if isinstance(hint, tuple) and hint[0] == 'opt':
            return ite(isnone(term), NONE, self.typed(term, hint[1], root))
        if isinstance(hint, tuple) and hint[0] == 'const':
            return const(hint[1])
        if isinstance(hint, tuple) and hint[0] == 'listof':
            self.types[term] = hint
            KINDS[term] = 'list'
            key = ('list', term)
            i = self.lazy.get(key)
            if i is None:
                i = self.new_id()
                self.lazy[key] = i
                self.lazy_init[i] = Cell('list', term, root)
            return raw('ref', i)
        if hint in ('int', 'num', 'str'):
            KINDS[term] = hint
            return term
        if hint == 'bool':
            return truth(term)
        if hint == 'boolv':
            return term
        if hint == 'list':
            KINDS[term] = 'list'
            key = ('list', term)
            i = self.lazy.get(key)
            if i is None:
                i = self.new_id()
                self.lazy[key] = i
                self.lazy_init[i] = Cell('list', term, root)
            return raw('ref', i)
        if hint == 'dict':
            key = ('dict', term)
            i = self.lazy.get(key)
            if i is None:
                i = self.new_id()
                self.lazy[key] = i
                self.lazy_init[i] = Cell('dict', (), root, base=term)
            return raw('ref', i)
        if hint == 'set':
            key = ('set', term)
            i = self.lazy.get(key)
            if i is None:
                i = self.new_id()
                self.lazy[key] = i
                self.lazy_init[i] = Cell('set', mklist([raw('splice', term)]), root)
            return raw('ref', i)
        if hint == 'fn':
            return term
        if hint == 'arr':
            return self.typed(term, None, root)
        self.types[term] = hint
        return self.sym_obj(hint, term)

    # ------------------------------------------------------------------------------ freezing
    def fz(self, v, depth=0):
        """pure snapshot of a value: references replaced by their contents"""
        if not isinstance(v, T):
            return v
        if not has_ref(v):
            return v
        if depth > 14:
            return raw('deep')
        o = v.op
        if o == 'ref':
            c = self.cell(v)
            return self.fz_cell(c, depth)
        if o == 'fun':
            return self.fz_fun(v, depth)
        if o == 'bm':
            return self.fz_bm(v, depth)
        if o == 'super':
            return self.fz(v.args[0], depth + 1)
        return rebuild(v, lambda x: self.fz(x, depth + 1))

    def fz_cell(self, c, depth=0):
        if c.kind == 'val' or c.kind == 'list':
            return self.fz(c.data, depth + 1)
        if c.kind == 'set':
            d = self.fz(c.data, depth + 1)
            return mkset(d)
        if c.kind == 'dict':
            items = tuple((self.fz(k, depth + 1), self.fz(x, depth + 1)) for k, x in c.data)
            if c.base is not None:
                if not items:
                    return c.base
                return raw('dictupd', c.base, sort_items(items))
            return raw('dict', *sort_items(items))
        if c.kind == 'obj':
            d = dict(c.data)
            if c.base is not None:
                base = self.fz(c.base, depth + 1)
                lazies = {}
                # opaque sub-objects mutated in place show up as updates of their owner
                ups = []
                for k in d:
                    fv = self.fz(d[k], depth + 1)
                    if fv is not raw('attr', base, k):
                        ups.append((k, fv))
                if not ups:
                    return base
                return upd(base, ups)
            if c.cls == 'file':
                return raw('file')
            return raw('new', c.cls if isinstance(c.cls, str) else c.cls.name,
                       tuple(sorted(((k, self.fz(x, depth + 2)) for k, x in d.items()), key=lambda kv: kv[0])))
        return raw('deep')

    def fz_fun(self, v, depth):
        fv = self.fns[v.args[0]]
        fn = fv.fn
        if isinstance(fn.node, ast.FunctionDef) and fv.closure is None:
            nm = fn.name
            return raw('fnref', nm)
        # a closure: canonical lambda over fresh parameters
        if depth > 6 or len(self.stack) > self.max_depth - 2:
            return raw('fnref', fn.name)
        try:
            return self.lam_of(v, len(fn.params()) - len(fv.defaults))
        except Unsupported:
            return raw('top', 'closure')

    def fz_bm(self, v, depth):
        recv, f = v.args
        fv = self.fns[f.args[0]]
        if recv.op == 'ref':
            c = self.cell(recv)
            if c.kind == 'obj' and c.base is not None:
                return raw('bmeth', self.fz(c.base, depth + 1), fv.fn.name)
        if depth > 6 or len(self.stack) > self.max_depth - 2:
            return raw('bmeth', self.fz(recv, depth + 1), fv.fn.name)
        k = len(fv.fn.params()) - 1 - len(fv.defaults)
        try:
            return self.lam_of(v, k)
        except Unsupported:
            return raw('top', 'closure')

    def lam_of(self, v, nargs):
        vs = [fresh('p') for _ in range(nargs)]
        saved = self.st.copy()
        sr = self.raise_stack
        self.raise_stack = [[]]
        n0 = len(self.st.events)
        try:
            r = self.call(v, list(vs), {}, None)
            r = self.fz(r)
            evs = [(simp(g), simp(t)) for g, t in self.st.events[n0:]]
        finally:
            self.st = saved
            self.raise_stack = sr
        r = simp(r)
        # eta: lambda x: f(x)
        if r.op == 'app' and tuple(r.args[1]) == tuple(vs) and not (syms(r.args[0]) & set(vs)):
            return r.args[0]
        if r.op == 'call' and len(r.args) >= 3 and [a[1] for a in r.args[2]][:nargs] == vs and r.args[1] is not None \
                and not (syms(r.args[1]) & set(vs)) and '.' in r.args[0] and all(not (syms(a[1]) & set(vs)) for a in r.args[2][nargs:]):
            return raw('bmeth', r.args[1], r.args[0].split('.')[-1])
        if nargs == 1 and r is vs[0]:
            return raw('identity')
        evs = [raw('ev2', g, t) for g, t in evs if g is not FALSE]
        if evs:
            r = raw('effects', r, raw('events', *evs))
        return close('lam', num(nargs), tuple(vs), (r,))

    # ------------------------------------------------------------------------------ events
    def event(self, kind_, *payload):
        t = raw('ev', kind_, *payload)
        self.st.events.append((b_and(self.st.outer, self.st.guard), t))

    # ------------------------------------------------------------------------------ joins
    def join(self, c, a, b):
        """state after 'if c' with branch states a (c) and b (not c); either may be None (dead)"""
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        s = State()
        s.outer = a.outer
        s.guard = b_or(a.guard, b.guard)
        n = 0
        ea, eb = a.events, b.events
        while n < len(ea) and n < len(eb) and ea[n][1] is eb[n][1] and ea[n][0] is eb[n][0]:
            n += 1
        s.events = ea[:n] + ea[n:] + eb[n:]
        self._jmemo = {}
        keys = list(a.heap)
        for k in b.heap:
            if k not in a.heap:
                keys.append(k)
        s.heap = {}
        self._jpend = []
        for k in keys:
            ca, cb = self.cell_in(a, k), self.cell_in(b, k)
            if ca is cb or cb is None:
                s.heap[k] = ca
            elif ca is None:
                s.heap[k] = cb
            else:
                s.heap[k] = self.join_cell(c, ca, cb, a, b, s)
        for f in a.frames:
            ea_, eb_ = a.frames[f], b.frames.get(f)
            if eb_ is None:
                s.frames[f] = ea_
                continue
            env = {}
            for name in ea_:
                if name in eb_:
                    env[name] = self.join_val(c, ea_[name], eb_[name], a, b, s)
                else:
                    env[name] = self.join_val(c, ea_[name], UNDEF, a, b, s)
            for name in eb_:
                if name not in ea_:
                    env[name] = self.join_val(c, UNDEF, eb_[name], a, b, s)
            s.frames[f] = env
        for f in b.frames:
            if f not in s.frames:
                s.frames[f] = b.frames[f]
        for key in set(a.far) | set(b.far):
            va, vb = a.far.get(key), b.far.get(key)
            s.far[key] = self.join_val(c, raw('attr', *key) if va is None else va, raw('attr', *key) if vb is None else vb, a, b, s)
        return s

    def join_cell(self, c, ca, cb, a, b, s):
        if ca.kind != cb.kind:
            return Cell('val', raw('top', 'joinkind'))
        if ca.kind in ('val', 'list', 'set'):
            if ca.data is cb.data:
                return ca
            if ca.kind in ('list', 'set'):
                return ca.with_(data=join_seq(c, ca.data, cb.data))
            return ca.with_(data=ite(c, ca.data, cb.data))
        if ca.kind == 'dict':
            da, db = dict(ca.data), dict(cb.data)
            out = []
            for k in list(da) + [k for k in db if k not in da]:
                va, vb = da.get(k, raw('absent')), db.get(k, raw('absent'))
                out.append((k, self.join_val(c, va, vb, a, b, s)))
            return ca.with_(data=tuple(out), base=ca.base if ca.base is cb.base else ite(c, ca.base, cb.base))
        if ca.kind == 'obj':
            da, db = dict(ca.data), dict(cb.data)
            out = []
            for k in list(da) + [k for k in db if k not in da]:
                va, vb = da.get(k), db.get(k)
                if va is None:
                    va = self.default_field(ca, k)
                if vb is None:
                    vb = self.default_field(cb, k)
                out.append((k, self.join_val(c, va, vb, a, b, s)))
            base = ca.base if ca.base is cb.base else ite(c, ca.base, cb.base)
            return ca.with_(data=tuple(out), base=base)
        return ca

    def default_field(self, cell, name):
        if cell.base is not None:
            return self.lazy_field(cell, name)
        return raw('absent')

    def join_val(self, c, va, vb, a, b, s):
        if va is vb:
            return va
        if va.op == 'ref' and vb.op == 'ref':
            ca, cb = self.cell_in(a, va.args[0]), self.cell_in(b, vb.args[0])
            if ca.kind == cb.kind and ca.kind in ('val', 'list', 'set', 'dict'):
                m = self._jmemo.get((va, vb))
                if m is None:
                    m = raw('ref', self.new_id())
                    self._jmemo[(va, vb)] = m
                    nc = self.join_cell(c, ca, cb, a, b, s)
                    s.heap[m.args[0]] = nc.with_(root=ca.root if ca.root == cb.root else ca.root or cb.root, view=None)
                return m
        # one side a plain immutable term, the other a boxed value: unbox
        if va.op == 'ref' and not has_ref(vb) and vb not in (NONE, UNDEF):
            ca = self.cell_in(a, va.args[0])
            if ca.kind == 'val' and not has_ref(ca.data):
                m = raw('ref', self.new_id())
                s.heap[m.args[0]] = Cell('val', ite(c, ca.data, vb), ca.root)
                return m
        if vb.op == 'ref' and not has_ref(va) and va not in (NONE, UNDEF):
            cb = self.cell_in(b, vb.args[0])
            if cb.kind == 'val' and not has_ref(cb.data):
                m = raw('ref', self.new_id())
                s.heap[m.args[0]] = Cell('val', ite(c, va, cb.data), cb.root)
                return m
        return ite(c, va, vb)

    # fork / join helper for expression-level decisions
    def fork(self, c, fa, fb):
        """evaluate fa under c and fb under not c; join; returns ite(c, ra, rb)"""
        c = self.decide(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base = self.st
        s1 = base.copy()
        s1.guard = b_and(base.guard, c)
        self.st = s1
        ra = fa()
        s1 = self.st if self.st.guard is not FALSE else None
        s2 = base
        s2 = base.copy()
        s2.guard = b_and(base.guard, b_not(c))
        self.st = s2
        rb = fb()
        s2 = self.st if self.st.guard is not FALSE else None
        if s1 is None and s2 is None:
            self.st = base
            self.st.guard = FALSE
            return UNDEF
        if s1 is None:
            self.st = s2
            return rb
        if s2 is None:
            self.st = s1
            return ra
        st = self.join(c, s1, s2)
        r = self.join_val(c, ra, rb, s1, s2, st)
        self.st = st
        return r

    def decide(self, c):
        """condition simplified under the current guard"""
        if c in (TRUE, FALSE):
            return c
        for a, v in literals(self.st.guard) + literals(self.st.outer):
            c = restrict(c, a, v)
            if c in (TRUE, FALSE):
                return c
        return simp(c)

    # ------------------------------------------------------------------------------ functions
    def fun_value(self, fn, closure=None, defaults=(), kwdefaults=None):
        if closure is None:
            key = ('m', id(fn))
            t = self.fnkeys.get(key)
            if t is not None:
                return t
        i = len(self.fns) + 1
        self.fns[i] = FnVal(fn, closure, defaults, kwdefaults or {})
        t = raw('fun', i)
        if closure is None:
            self.fnkeys[key] = t
            # module-level / method defaults are evaluated lazily in the module scope
            a = fn.node.args
            self.fns[i].defaults = [self.eval_in_module(d, fn.module) for d in a.defaults]
            self.fns[i].kwdefaults = {k.arg: self.eval_in_module(d, fn.module) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return t

    def eval_in_module(self, node, module):
        sv = (self.fid, self.mod)
        self.nframe += 1
        fid = self.nframe
        self.st.frames[fid] = {}
        self.fid, self.mod = fid, module
        self.frame_fn[fid] = None
        try:
            return self.fz(self.expr(node))
        finally:
            self.fid, self.mod = sv
            self.st.frames.pop(fid, None)

    def bind_args(self, fv, args, kwargs, node, box=True):
        a = fv.fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        for n_, v in zip(names, pos):
            env[n_] = v
        rest = pos[len(names):]
        if a.vararg:
            env[a.vararg.arg] = raw('tuple', *rest)
        elif rest:
            return None, 'too many arguments'
        kw = dict(kwargs)
        for n_ in names + [x.arg for x in a.kwonlyargs]:
            if n_ in kw:
                if n_ in env:
                    return None, 'multiple values for ' + n_
                env[n_] = kw.pop(n_)
        if a.kwarg:
            items = tuple((string(k), v) for k, v in kw.items() if k != '**')
            base = kw.get('**')
            env[a.kwarg.arg] = self.alloc(Cell('dict', items, base=self.fz(base) if base is not None else None))
        elif kw:
            if '**' in kw and len(kw) == 1:
                # unknown keyword dictionary: parameters not yet bound may come from it
                d = kw['**']
                for n_ in names:
                    if n_ not in env:
                        env[n_] = self.box(raw('kwget', self.fz(d), n_))
            else:
                return None, 'unexpected keyword ' + ', '.join(kw)
        nd = len(fv.defaults)
        for j, n_ in enumerate(names):
            if n_ not in env:
                k = j - (len(names) - nd)
                if k >= 0:
                    env[n_] = fv.defaults[k]
                else:
                    return None, 'missing argument ' + n_
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in fv.kwdefaults:
                    env[x.arg] = fv.kwdefaults[x.arg]
                else:
                    return None, 'missing argument ' + x.arg
        return env, None

    def interface_name(self, fn):
        return (fn.cls.name + '.' + fn.name) if fn.cls else fn.name

    def is_opaque(self, fn, selfcls=None):
        if fn.cls:
            for k in self.p.mro(selfcls if selfcls is not None else fn.cls):
                if (k.name + '.' + fn.name) in self.inline:
                    return None
            for k in self.p.mro(selfcls if selfcls is not None else fn.cls):
                if (k.name + '.' + fn.name) in self.opaque:
                    return k.name + '.' + fn.name
            return None
        if fn.name in self.inline:
            return None
        return fn.name if fn.name in self.opaque else None

    def call_fun(self, f, args, kwargs, node, recv=None):
        fv = self.fns[f.args[0]]
        fn = fv.fn
        selfcls = None
        if recv is not None and recv.op == 'ref':
            c = self.cell(recv)
            if c.kind == 'obj':
                selfcls = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
        full = ([recv] if recv is not None else []) + list(args)
        if recv is None and fv.closure is None and fn.cls and not fn.is_static and full and full[0].op == 'ref':
            # Class.method(self, ...) call style
            c = self.cell(full[0])
            if c.kind == 'obj':
                selfcls = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
        op = self.is_opaque(fn, selfcls) if fv.closure is None and self.stack else None
        decs = [] if fv.bare or fv.closure is not None else [d for d in getattr(fn.node, 'decorator_list', []) if deco_name(d) not in PLAIN]
        if op is None and decs:
            return self.call_decorated(fn, decs, full, kwargs, node)
        rec = sum(1 for s in self.stack if s is fn.node)
        if op is None and (rec >= 1 or len(self.stack) >= self.max_depth):
            op = self.interface_name(fn)
            if rec >= 1 and fv.closure is not None:
                op = fn.name
        if op is None and 'contextmanager' in fn.decorators:
            w, self.with_body = self.with_body, None
            if w is None or w['node'] is not node:
                return self.top('context manager used outside with', node)
            env, err = self.bind_args(fv, full, kwargs, node)
            if err:
                return self.top('context manager call', node)
            env = dict(env)
            self.nwith += 1
            self.withs[self.nwith] = w
            env['__with__'] = string('with:%d' % self.nwith)
            w['used'] = True
            return self.run_body(fn, fv, env)
        if op is None and any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fn.node)):
            return self.call_generator(fv, full, kwargs, node)
        env, err = self.bind_args(fv, full, kwargs, node)
        if err:
            self.event('badcall', string(fn.qual), string(err))
            self.do_raise(raw('exc', 'TypeError'), node)
            return UNDEF
        if op is not None:
            return self.call_opaque(op, fn, env, recv is not None or (fn.cls is not None and not fn.is_static), node)
        self.sites.append(id(node))
        try:
            return self.run_body(fn, fv, env)
        finally:
            self.sites.pop()

    def call_decorated(self, fn, decs, args, kwargs, node):
        """what the decorators make of the function, called"""
        i = len(self.fns) + 1
        self.fns[i] = FnVal(fn, None, (), {})
        self.fns[i].bare = True
        f = raw('fun', i)
        self.nframe += 1
        fid = self.nframe
        sv = (self.fid, self.mod)
        self.st.frames[fid] = {}
        self.frame_fn[fid] = (fn, self.fns[i])
        self.fid, self.mod = fid, fn.module
        try:
            for d in reversed(decs):
                f = self.call(self.expr(d), [f], {}, d)
        finally:
            self.fid, self.mod = sv
        return self.call(f, args, kwargs, node)

    def run_body(self, fn, fv, env, gen=None):
        self.nframe += 1
        fid = self.nframe
        self.fns_run.add(fn.qual)
        sv = (self.fid, self.mod)
        st = self.st
        entry_guard, entry_outer = st.guard, st.outer
        st.frames[fid] = {k: self.box(v) for k, v in env.items()}
        st.outer, st.guard = b_and(entry_outer, entry_guard), TRUE
        self.fid, self.mod = fid, fn.module
        self.frame_fn[fid] = (fn, fv)
        self.stack.append(fn.node)
        self.raise_stack.append([])
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.expr(fn.node.body)
                exits = []
                normal = self.st if self.st.guard is not FALSE else None
                if normal is not None:
                    exits.append(Exit('return', normal, v))
            else:
                exits = self.block(fn.node.body)
                out = []
                for e in exits:
                    if e.kind == 'normal':
                        e = Exit('return', e.state, NONE)
                    out.append(e)
                exits = out
        finally:
            self.stack.pop()
            raises = self.raise_stack.pop()
            self.fid, self.mod = sv
        rets = [e for e in exits if e.kind == 'return' and e.state.guard is not FALSE]
        ok = FALSE
        state, val = None, None
        for e in reversed(rets):
            g = e.state.guard
            ok = b_or(ok, g)
            if state is None:
                state, val = e.state, e.value
            else:
                s2 = self.join(g, e.state, state)
                val = self.join_val(g, e.value, val, e.state, state, s2)
                state = s2
        for r in raises:
            r.state = r.state.copy()
            r.state.guard = b_and(entry_guard, r.state.guard)
            r.state.outer = entry_outer
            self.raise_stack[-1].append(r)
        if state is None:
            st2 = self.st.copy()
            st2.guard, st2.outer = FALSE, entry_outer
            self.st = st2
            return UNDEF
        state = state.copy() if state is None else state
        state.guard = b_and(entry_guard, ok)
        state.outer = entry_outer
        # keep the frame only if a closure may need it
        self.st = state
        return val

    def call_generator(self, fv, args, kwargs, node):
        # supported shape: generators whose yields are plain expression statements: collected as a list
        fn = fv.fn
        env, err = self.bind_args(fv, args, kwargs, node)
        if err:
            return self.top('generator call', node)
        acc = self.new_list(EMPTY)
        env = dict(env)
        env['__yield__'] = acc
        heap, nev, far = dict(self.st.heap), len(self.st.events), dict(self.st.far)
        self.run_body(fn, fv, env)
        mine = {k for k, v in self.st.heap.items() if raw('ref', k) is not acc and
                (v is not heap[k] if k in heap else k in self.lazy_init and v is not self.lazy_init[k])}
        if mine or len(self.st.events) != nev or self.st.far != far:
            # its effects take place between those of the code that takes its values
            return self.top('generator with effects', node)
        return acc

    def call_opaque(self, name, fn, env, has_self, node):
        names = fn.params()
        a = fn.node.args
        items = []
        recv = None
        recvT = None
        for j, n_ in enumerate(names):
            if j == 0 and has_self:
                recv = env[n_]
                recvT = self.fz_recv(recv, fn)
                continue
            items.append((n_, self.fz(env[n_])))
        if a.vararg:
            items.append(('*', self.fz(env[a.vararg.arg])))
        for x in a.kwonlyargs:
            items.append((x.arg, self.fz(env[x.arg])))
        if a.kwarg:
            items.append(('**', self.fz(env[a.kwarg.arg])))
        return self.opaque_result(name, recv, recvT, tuple(items), node, fn)

    def use_of(self, recv, fn):
        """fields of the receiver an interface call may read and may change"""
        if recv is None or recv.op != 'ref' or fn is None or fn.cls is None:
            return None, None
        c = self.cell(recv)
        if c.kind != 'obj':
            return None, None
        cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
        if cl is None:
            cl = fn.cls
        return self.p.field_use(cl, fn)

    def fz_recv(self, recv, fn=None):
        t = self.fz(recv)
        if t.op == 'upd':
            reads, _ = self.use_of(recv, fn)
            if reads is not None:
                return upd(t.args[0], [(k, v) for k, v in t.args[1] if k in reads])
        return t

    def opaque_result(self, name, recv, recvT, items, node, fn=None):
        t = self.mk_call(name, recvT, items)
        self.calls_seen.append((name, t))
        short = name.split('.')[-1]
        grows = name.startswith('.') and short in MUTATORS and recv is not None and recv.op == 'ref' and self.cell(recv).kind == 'val'
        if name in self.effects or short in self.effects or grows:
            if not grows:
                self.event('call', t)
            if recv is not None and recv.op == 'ref':
                c = self.cell(recv)
                if c.kind == 'obj' and c.base is not None:
                    did = raw('did', recvT, name, items)
                    _, writes = self.use_of(recv, fn)
                    if writes is None:
                        self.set_cell(recv, c.with_(base=did, data=()))
                    else:
                        d = dict(c.data)
                        cn = c.cls if isinstance(c.cls, str) else (c.cls.name if c.cls else None)
                        for k in sorted(writes):
                            d[k] = self.box(self.attr_of(did, k, self.field_hint(cn, k)))
                        self.set_cell(recv, c.with_(data=tuple(d.items())))
                elif c.kind == 'val':
                    self.set_cell(recv, c.with_(data=raw('did', recvT, name, items)))
        from . import model
        h = model.RETURN_HINTS.get(name)
        if h is None:
            h = model.RETURN_HINTS.get(short)
        if h is not None:
            return self.typed_lift(t, h)
        return t

    def typed_lift(self, t, h):
        if t.op == 'ite':
            return ite(t.args[0], self.typed_lift(t.args[1], h), self.typed_lift(t.args[2], h))
        return self.typed(t, h)

    def mk_call(self, name, recvT, items):
        vals = [v for _, v in items]
        names = [n for n, _ in items]

        def f(r, *vs):
            r = None if r is NONE and recvT is None else r
            return raw('call', name, r, tuple(zip(names, vs)))
        return lift(f, recvT if recvT is not None else NONE, *vals)

    # ------------------------------------------------------------------------------ raising
    def looked_up(self, base, key, value):
        """value of base[key]; where a failed lookup is caught, the failure is a path of its own"""
        if not any(c & {'KeyError', 'LookupError'} for c in self.catching):
            return value()

        def fails():
            self.do_raise(raw('exc', 'KeyError'), None)
            return UNDEF
        return self.fork(raw('in', key, base), value, fails)

    def do_raise(self, exc, node):
        s = self.st.copy()
        self.raise_stack[-1].append(Exit('raise', s, exc, node))
        self.st.guard = FALSE

    # ------------------------------------------------------------------------------ statements
    def block(self, stmts):
        """-> list of Exit; at most one of kind 'normal'"""
        exits = []
        for s in stmts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('budget')
            if self.st.guard is FALSE:
                return exits
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s' % type(s).__name__)
            es = m(s)
            if es is None:
                continue
            norm = None
            for e in es:
                if e.kind == 'normal':
                    norm = e.state
                else:
                    exits.append(e)
            if norm is None or norm.guard is FALSE:
                return exits
            self.st = norm
        if self.st.guard is not FALSE:
            exits.append(Exit('normal', self.st))
        return exits

    def s_Pass(self, s):
        return None

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        n = len(self.st.events)
        v = self.expr(s.value)
        if isinstance(s.value, ast.Call) and v is not None and len(self.st.events) == n and self.st.guard is not FALSE:
            self.discarded(v, TRUE)
        return None

    def discarded(self, v, g):
        """a call made for its effect on something outside the package"""
        if v.op == 'ite':
            self.discarded(v.args[1], b_and(g, v.args[0]))
            self.discarded(v.args[2], b_and(g, b_not(v.args[0])))
        elif v.op == 'call' and v.args[0].startswith('.') and (v.args[0][1:] not in QUIET or v.args[0][1:] in self.effects):
            self.st.events.append((b_and(b_and(self.st.outer, self.st.guard), g), v))

    def s_Assert(self, s):
        c = self.decide(truth(self.cond(s.test)))
        if c is TRUE:
            return None
        base = self.st
        s2 = base.copy()
        s2.guard = b_and(base.guard, b_not(c))
        self.raise_stack[-1].append(Exit('raise', s2, raw('exc', 'AssertionError'), s))
        base.guard = b_and(base.guard, c)
        return None

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            v = raw('pymod', full) if full in self.p.modules else raw('ext', full)
            self.st.frames[self.fid][nm] = v
        return None

    def s_ImportFrom(self, s):
        src = self.p.abs_import(self.mod, s)
        for a in s.names:
            r = None
            if src in self.p.modules:
                r = self.p.resolve(src, a.name)
                if r is None and (src + '.' + a.name) in self.p.modules:
                    r = ('mod', src + '.' + a.name)
            elif (src + '.' + a.name) in self.p.modules:
                r = ('mod', src + '.' + a.name)
            else:
                r = ('ext', src + '.' + a.name)
            self.st.frames[self.fid][a.asname or a.name] = self.resolved(r)
        return None

    def s_FunctionDef(self, s):
        a = s.args
        fn = Function(s, self.mod, None, self.mod.name + '.<local>.' + s.name)
        defaults = [self.expr(d) for d in a.defaults]
        kwd = {k.arg: self.expr(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        v = self.fun_value(fn, closure=self.fid, defaults=defaults, kwdefaults=kwd)
        for d in reversed(s.decorator_list):
            if deco_name(d) == 'wraps':
                continue
            v = self.call(self.expr(d), [v], {}, d) if deco_name(d) not in PLAIN else self.top('decorator', s)
        self.st.frames[self.fid][s.name] = v
        return None

    def s_ClassDef(self, s):
        self.st.frames[self.fid][s.name] = self.top('local class', s)
        return None

    def s_Return(self, s):
        v = NONE if s.value is None else self.expr(s.value)
        if self.st.guard is FALSE:
            return []
        if '__yield__' in self.st.frames[self.fid]:
            v = NONE
        return [Exit('return', self.st, v, s)]

    def s_Raise(self, s):
        if s.exc is None:
            self.do_raise(raw('exc', '<reraise>'), s)
            return []
        e = s.exc
        name = None
        args = ()
        if isinstance(e, ast.Call):
            name = ast.unparse(e.func).split('.')[-1]
            # messages are not compared
        else:
            name = ast.unparse(e).split('.')[-1]
        self.do_raise(raw('exc', name), s)
        return []

    def s_Break(self, s):
        return [Exit('break', self.st, None, s)]

    def s_Continue(self, s):
        return [Exit('continue', self.st, None, s)]

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value)
                if b.op == 'ref' and self.cell(b).kind == 'dict':
                    k = self.fz(self.expr(t.slice))
                    c = self.cell(b)
                    self.mutated(b, t)
                    self.set_cell(b, c.with_(data=tuple((x, y) for x, y in c.data if x is not k),
                                             base=raw('without', c.base, k) if c.base is not None else None))
                    continue
                if b.op == 'ref' and self.cell(b).kind == 'val':
                    k = self.fz(self.expr(t.slice))
                    c = self.cell(b)
                    self.mutated(b, t)
                    self.set_cell(b, c.with_(data=raw('without', self.fz(c.data), k)))
                    continue
                self.st.guard = self.st.guard
                self.notes.append('del unmodelled')
            elif isinstance(t, ast.Name):
                self.st.frames[self.fid].pop(t.id, None)
        return None

    def s_If(self, s):
        c = self.cond(s.test)
        c = self.decide(truth(c))
        if self.st.guard is FALSE:
            return []
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)
        base = self.st
        s1 = base.copy()
        s1.guard = b_and(base.guard, c)
        self.st = s1
        e1 = self.block(s.body)
        s2 = base.copy()
        s2.guard = b_and(base.guard, b_not(c))
        self.st = s2
        e2 = self.block(s.orelse)
        return self.merge_exits(c, e1, e2)

    def merge_exits(self, c, e1, e2):
        n1 = [e for e in e1 if e.kind == 'normal']
        n2 = [e for e in e2 if e.kind == 'normal']
        out = [e for e in e1 + e2 if e.kind != 'normal']
        a = n1[0].state if n1 and n1[0].state.guard is not FALSE else None
        b = n2[0].state if n2 and n2[0].state.guard is not FALSE else None
        st = self.join(c, a, b)
        if st is not None:
            out.append(Exit('normal', st))
        return out

    def s_With(self, s):
        return self.with_items(s.items, s.body)

    def with_items(self, items, body):
        for j, it in enumerate(items):
            w = dict(node=it.context_expr, var=it.optional_vars, rest=items[j + 1:], body=body, fid=self.fid, mod=self.mod, used=False,
                     ran=0, ret=None, bad=False)
            self.with_body = w
            v = self.expr(it.context_expr)
            self.with_body = None
            if w['used']:
                if self.st.guard is FALSE:
                    return []
                if w['bad'] or w['ran'] != 1:
                    self.st.frames[self.fid]['__with_problem__'] = self.top('context manager', it.context_expr)
                    self.event('context', self.top('context manager', it.context_expr))
                if w['ret'] is not None:
                    return [Exit('return', self.st, w['ret'])]
                return [Exit('normal', self.st)]
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.block(body)

    def run_with_body(self, w, v):
        """the body of a with statement, at the yield of the generator that manages it"""
        w['ran'] += 1
        sv = (self.fid, self.mod)
        self.fid, self.mod = w['fid'], w['mod']
        try:
            if w['var'] is not None:
                self.assign(w['var'], v)
            es = self.with_items(w['rest'], w['body'])
        finally:
            self.fid, self.mod = sv
        es = [e for e in es if e.state.guard is not FALSE]
        if not es:
            self.st = self.st.copy()
            self.st.guard = FALSE
        elif len(es) > 1 or es[0].kind not in ('normal', 'return'):
            w['bad'] = True
            self.st = es[0].state
        else:
            self.st = es[0].state
            if es[0].kind == 'return':
                w['ret'] = es[0].value
        return NONE

    @staticmethod
    def passes_on(h):
        """a handler that only reports and raises the same exception again"""
        last = h.body[-1]
        if not (isinstance(last, ast.Raise) and (last.exc is None or h.name and isinstance(last.exc, ast.Name) and last.exc.id == h.name)):
            return False
        for x in h.body[:-1]:
            if isinstance(x, ast.Pass):
                continue
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)):
                return False
            f = ast.unparse(x.value.func)
            if not (f in ('print', 'traceback.print_exc') or f.split('.')[0] in ('warnings', 'logging', 'logger', 'log')):
                return False
        return True

    def attribute_read(self, s):
        """a body that does nothing but read one attribute of a plain name or field: its AttributeError is the absence of it"""
        b = s.body[0] if len(s.body) == 1 else None
        v = b.value if isinstance(b, (ast.Assign, ast.Expr, ast.Return)) else None
        if not isinstance(v, ast.Attribute) or isinstance(b, ast.Assign) and not all(isinstance(x, ast.Name) for x in b.targets):
            return None
        x = v.value
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        from .npmodel import BF
        return lambda: BF['builtins.hasattr'](self, [self.expr(v.value), string(v.attr)], {}, v)

    def s_Try(self, s):
        if s.handlers and not s.finalbody and all(self.passes_on(h) for h in s.handlers):
            return self.block(s.body + s.orelse)
        base = self.st.copy()
        self.raise_stack.append([])
        self.catching.append({ast.unparse(x).split('.')[-1] for h in s.handlers if h.type is not None
                              for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])})
        try:
            es = self.block(s.body)
        finally:
            raised = self.raise_stack.pop()
            self.catching.pop()
        if s.orelse:
            n = [e for e in es if e.kind == 'normal']
            if n:
                self.st = n[0].state
                es = [e for e in es if e.kind != 'normal'] + self.block(s.orelse)
        out = list(es)

        def run_handler(h, st, exc):
            self.st = st
            if h.name:
                self.st.frames[self.fid][h.name] = exc
            self.raise_stack.append([])
            try:
                hs = self.block(h.body)
            finally:
                rr = self.raise_stack.pop()
            for r in rr:
                if r.value.op == 'exc' and r.value.args[0] == '<reraise>':
                    r.value = exc
                self.raise_stack[-1].append(r)
            return hs
        # explicit raises
        for r in raised:
            h = self.match_handler(s.handlers, r.value)
            if h is None:
                self.raise_stack[-1].append(r)
                continue
            out = self.merge_alt(out, run_handler(h, r.state.copy(), r.value), r.state.guard)
        # implicit failures of the body: an unknown exception may be raised before any of its effects
        for h in s.handlers:
            nm = handler_name(h)
            if nm in ('KeyError', 'LookupError', 'IndexError') and any(r.value.op == 'exc' and r.value.args[0] in ('KeyError', 'IndexError') for r in raised):
                continue        # the lookup that fails was found
            looked = self.attribute_read(s) if nm == 'AttributeError' else None
            trig = self.trigger(s)
            if looked is None:
                if trig is None:
                    continue
                g = raw('raises', nm, trig)
            else:
                self.st, keep = base.copy(), self.st
                g = b_not(looked())
                self.st = keep
            st = base.copy()
            st.guard = b_and(base.guard, g)
            hs = run_handler(h, st, raw('exc', nm))
            new = []
            for e in out:
                e2 = Exit(e.kind, e.state.copy(), e.value, e.node)
                e2.state.guard = b_and(e2.state.guard, b_not(g))
                new.append(e2)
            out = self.merge_alt(new, hs, g)
        if s.finalbody:
            fin = []
            for e in out:
                self.st = e.state
                f = self.block(s.finalbody)
                for x in f:
                    if x.kind == 'normal':
                        fin.append(Exit(e.kind, x.state, e.value, e.node))
                    else:
                        fin.append(x)
            rs = self.raise_stack[-1]
            for r in [r for r in rs if r in raised]:
                sv = self.st
                self.st = r.state.copy()
                f = self.block(s.finalbody)
                n = [x for x in f if x.kind == 'normal']
                if n:
                    r.state = n[0].state
                self.st = sv
            out = fin
        return out

    def trigger(self, s):
        """what the try block guards: the calls it makes (interface names), as a symbol"""
        names = []
        for st in s.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    f = n.func
                    names.append(f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else '?')
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    names.append('import ' + ','.join(a.name for a in n.names))
                elif isinstance(n, ast.Raise):
                    pass
        if not names:
            return None
        return 'try%d' % self.tries.setdefault((id(s), tuple(self.sites)), len(self.tries))

    def match_handler(self, handlers, exc):
        nm = exc.args[0]
        for h in handlers:
            if h.type is None:
                return h
            names = [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if nm in names or 'Exception' in names or 'BaseException' in names or nm in ('KeyError', 'IndexError') and 'LookupError' in names:
                return h
        return None

    def merge_alt(self, out, hs, g):
        n1 = [e for e in out if e.kind == 'normal']
        n2 = [e for e in hs if e.kind == 'normal']
        rest = [e for e in out + hs if e.kind != 'normal']
        if n1 and n2:
            st = self.join(n2[0].state.guard, n2[0].state, n1[0].state)
            st.guard = b_or(n1[0].state.guard, n2[0].state.guard)
            rest.append(Exit('normal', st))
        elif n1:
            rest.append(n1[0])
        elif n2:
            rest.append(n2[0])
        return rest

    # assignments ---------------------------------------------------------------------
    def s_Assign(self, s):
        v = self.expr(s.value)
        if self.st.guard is FALSE:
            return []
        if len(s.targets) > 1:
            v = self.box(v)
        for t in s.targets:
            self.assign(t, v)
        return None

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))
        return None

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.st.frames[self.fid]
            b = self.box(v)
            if v.op == 'attr' and b.op == 'ref' and b is not v and isinstance(v.args[0], T):
                # another name for an array of an outside object
                o = self.owner(v.args[0])
                if o is not None:
                    self.set_cell(b, self.cell(b).with_(view=(o, v.args[1])))
            fr[t.id] = b
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            if any(isinstance(e, ast.Starred) for e in elts):
                k = [isinstance(e, ast.Starred) for e in elts].index(True)
                n = len(elts)
                for j, e in enumerate(elts):
                    if j < k:
                        self.assign(e, self.unpack(v, j, None))
                    elif j == k:
                        self.assign(e.value, self.subscript(v, [('slice', num(k), num(-(n - k - 1)) if n - k - 1 else NONE, NONE)]))
                    else:
                        self.assign(e, self.unpack(v, j - n, None))
                return
            vals = [self.unpack(v, j, len(elts)) for j in range(len(elts))]
            for e, x in zip(elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            self.set_attr(b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            self.by_slices(self.index_of(t.slice), lambda idx: self.set_item(b, idx, v, t))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assign')

    def by_slices(self, idx, f):
        """an index that is a slice in some cases"""
        for j, x in enumerate(idx):
            if isinstance(x, T) and x.op == 'ite' and any(y.op == 'slc' for y in branches(x)):
                return self.fork(x.args[0], lambda: self.by_slices(idx[:j] + (x.args[1],) + idx[j + 1:], f),
                                 lambda: self.by_slices(idx[:j] + (x.args[2],) + idx[j + 1:], f))
        return f(tuple(('slice',) + x.args if isinstance(x, T) and x.op == 'slc' else x for x in idx))

    def unpack(self, v, j, n):
        if v.op == 'ite':
            return ite(v.args[0], self.unpack(v.args[1], j, n), self.unpack(v.args[2], j, n))
        if v.op == 'ref':
            c = self.cell(v)
            if c.kind == 'list':
                return self.elem(seq_at(c.data, num(j)), c.data)
            if c.kind == 'val':
                r = self.unpack(c.data, j, n)
                if r.op == 'at' or not is_immut(r):
                    return self.box(r, c.root)
                return r
        if v.op in ('tuple', 'list'):
            if j < len(v.args) and j >= -len(v.args):
                return v.args[j]
            return self.top('unpack')
        return self.elem(seq_at(self.fz(v), num(j)), v)

    def set_attr(self, b, name, v, node):
        if b.op == 'ite':
            self.fork(b.args[0], lambda: self.set_attr(b.args[1], name, v, node) or NONE,
                      lambda: self.set_attr(b.args[2], name, v, node) or NONE)
            return
        v = self.box(v)
        if b.op == 'ref':
            c = self.cell(b)
            if c.kind == 'obj':
                d = dict(c.data)
                d[name] = v
                self.set_cell(b, c.with_(data=tuple(d.items())))
                return
            if c.kind == 'val':
                new = upd(self.fz(c.data), ((name, self.fz(v)),))
                own = c.view is not None and c.data.op in ('upd', 'at') and self.cell(c.view[0]).root is None and self.cell(c.view[0]).kind == 'list'
                if not own:
                    self.event('setattr', self.fz(b), name, self.fz(v))
                self.write_back(c, new)
                self.set_cell(b, c.with_(data=new))
                return
        if b.op in ('pymod', 'ext', 'cls'):
            self.event('setattr', b, name, self.fz(v))
            return
        if b is NONE or b is UNDEF:
            return
        t = self.fz(b)
        if t.op in ('attr', 'sym'):
            self.st.far[t, name] = v
        self.event('setattr', t, name, self.fz(v))

    def mutated(self, ref, node):
        """an in-place change through this reference"""
        if ref.op == 'ref':
            c = self.cell(ref)
            if c.root is not None:
                self.event('mutate', string(str(c.root)))

    def set_item(self, b, idx, v, node):
        if b.op == 'ite':
            self.fork(b.args[0], lambda: self.set_item(b.args[1], idx, v, node) or NONE,
                      lambda: self.set_item(b.args[2], idx, v, node) or NONE)
            return
        if b.op != 'ref':
            if b is UNDEF or b is NONE:
                return
            if b.op == 'super' or b.op in ('tuple', 'str'):
                return
            if b.op == 'attr' and isinstance(b.args[0], T):
                o = self.owner(b.args[0])
                if o is not None:
                    from .npmodel import store
                    self.set_attr(o, b.args[1], store(b, fz_idx(self, idx), self.fz(v)), node)
                    return
            self.notes.append('store into temporary')
            return
        c = self.cell(b)
        self.mutated(b, node)
        if c.kind == 'dict':
            k = self.fz(idx_single(idx))
            d = list(c.data)
            v = self.box(v)
            for j, (kk, _) in enumerate(d):
                if kk is k:
                    d[j] = (k, v)
                    break
            else:
                d.append((k, v))
            self.set_cell(b, c.with_(data=tuple(d)))
            return
        if c.kind == 'list':
            k = idx_single(idx)
            if k is not None and k.op == 'num' and c.data.op == 'list':
                j = int(k.args[0])
                items = list(c.data.args)
                if -len(items) <= j < len(items):
                    items[j] = self.box(v)
                    self.set_cell(b, c.with_(data=mklist(items)))
                    return
            self.set_cell(b, c.with_(data=raw('store', self.fz(c.data), fz_idx(self, idx), self.fz(v))))
            return
        if c.kind == 'val':
            self.store_val(b, c, fz_idx(self, idx), self.fz(v))
            return
        if c.kind == 'obj':
            base = c.base if c.base is not None else self.fz(b)
            self.event('setitem', self.fz(b), fz_idx(self, idx), self.fz(v))
            self.set_cell(b, c.with_(base=raw('store', self.fz(b), fz_idx(self, idx), self.fz(v)), data=()))
            return
        raise Unsupported('store')

    def owner(self, t):
        """the one heap location known to hold the object t"""
        while t.op == 'upd':
            break
        found = [i for i, c in self.st.heap.items() if c.kind == 'val' and (c.data is t or (has_ref(c.data) is False and self.fz(c.data) is t))]
        if len(found) == 1:
            return raw('ref', found[0])
        return None

    def store_val(self, b, c, idx, v):
        from .npmodel import store
        new = store(self.fz(c.data), idx, v)
        self.write_back(c, new)
        self.set_cell(b, c.with_(data=new))

    def write_back(self, c, new):
        """a cell obtained by subscripting: the container sees the change"""
        if c.view is not None:
            base, vidx = c.view
            bc = self.cell(base)
            if isinstance(vidx, str):
                if self.fz(self.get_attr(base, vidx)) is self.fz(c.data):
                    self.set_attr(base, vidx, new, None)
                else:
                    self.top('store into an attribute read earlier')
            elif bc.kind == 'val':
                self.store_val(base, bc, vidx, new)
            elif bc.kind == 'list':
                d = bc.data
                if d.op == 'list' and vidx[0].op == 'num' and 0 <= vidx[0].args[0] < len(d.args):
                    items = list(d.args)
                    items[int(vidx[0].args[0])] = new
                    self.set_cell(base, bc.with_(data=mklist(items)))
                elif not has_ref(d):
                    from .npmodel import store
                    self.set_cell(base, bc.with_(data=store(self.fz(d), vidx, new)))
                else:
                    self.notes.append('store into temporary')

    def s_AugAssign(self, s):
        rhs = self.expr(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
            r = self.aug(cur, s.op, rhs, s)
            if r is not None:
                self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            cur = self.get_attr(b, t.attr, t)
            r = self.aug(cur, s.op, rhs, s)
            if r is not None:
                self.set_attr(b, t.attr, r, t)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            idx = self.index_of(t.slice)
            cur = self.subscript(b, idx, t)
            if cur.op == 'ref' and self.cell(cur).kind == 'list':
                self.aug(cur, s.op, rhs, s)
            else:
                self.set_item(b, idx, self.binop(s.op, cur, rhs, s), t)
        return None

    def aug(self, cur, op, rhs, node):
        """in-place operator; returns the value to rebind, or None when the object was changed in place"""
        if cur.op == 'ref':
            c = self.cell(cur)
            if c.kind == 'list' and isinstance(op, ast.Add):
                self.mutated(cur, node)
                self.set_cell(cur, c.with_(data=cat(c.data, self.as_list(rhs))))
                return None
            if c.kind == 'set' and isinstance(op, ast.BitOr):
                self.set_cell(cur, c.with_(data=cat(c.data, self.as_list(rhs, True))))
                return None
            if c.kind == 'val':
                new = self.binop(op, cur, rhs, node)
                new = self.fz(new)
                if kind(c.data) in ('int', 'num', 'str') or is_immut(c.data):
                    return new
                self.mutated(cur, node)
                self.write_back(c, new)
                self.set_cell(cur, c.with_(data=new))
                return None
        if cur.op == 'ite':
            # accumulator that may still be None
            v = self.binop(op, cur, rhs, node)
            return v
        return self.binop(op, cur, rhs, node)

    # loops ----------------------------------------------------------------------------
    def s_For(self, s):
        from .loops import run_for
        return run_for(self, s)

    def s_While(self, s):
        from .loops import run_while
        return run_while(self, s)

    # ------------------------------------------------------------------------------ names
    def resolved(self, r):
        if r is None:
            return UNDEF
        if r[0] == 'fn':
            return self.fun_value(r[1])
        if r[0] == 'cls':
            return raw('cls', r[1].qual)
        if r[0] == 'mod':
            return raw('pymod', r[1])
        if r[0] == 'ext':
            from .npmodel import ext_name
            return ext_name(r[1])
        if r[0] == 'expr':
            key = id(r[1])
            v = self.module_cache.get(key)
            if v is None:
                sv = (self.stack, self.raise_stack)
                self.raise_stack = [[]]
                try:
                    v = self.eval_in_module(r[1], r[2])
                except Unsupported:
                    v = raw('top', 'module constant')
                self.stack, self.raise_stack = sv
                self.module_cache[key] = v
            return self.box(v)
        return UNDEF

    def lookup(self, name, node=None):
        fr = self.st.frames[self.fid]
        if name in fr:
            return fr[name]
        f = self.frame_fn.get(self.fid)
        mod = self.mod
        while f is not None:
            fv = f[1]
            if fv is None or fv.closure is None:
                break
            env = self.st.frames.get(fv.closure)
            if env is not None and name in env:
                return env[name]
            f = self.frame_fn.get(fv.closure)
        gw = self.globals_written.get((mod.name if mod else '', name))
        if gw is not None:
            return gw
        r = self.p.resolve(mod.name, name) if mod else None
        if r is not None:
            return self.resolved(r)
        from .npmodel import BUILTINS
        if name in BUILTINS:
            return raw('ext', 'builtins.' + name)
        if name in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[name])
        return UNDEF

    # ------------------------------------------------------------------------------ expressions (mixed in)
    def expr(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.top('expression %s' % type(e).__name__, e)
        return m(e)


def join_seq(c, a, b):
    pa = list(a.args) if a.op == 'cat' else [a] if a is not EMPTY else []
    pb = list(b.args) if b.op == 'cat' else [b] if b is not EMPTY else []

    def explode(ps):
        out = []
        for p in ps:
            if p.op == 'list':
                out.extend(mklist([x]) for x in p.args)
            else:
                out.append(p)
        return out
    pa, pb = explode(pa), explode(pb)
    n = 0
    while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
        n += 1
    rest = ite(c, cat(*pa[n:]) if pa[n:] else EMPTY, cat(*pb[n:]) if pb[n:] else EMPTY)
    return cat(*(pa[:n] + [rest])) if n else rest


def mkset(d):
    """order-insensitive view of a list of additions"""
    parts = list(d.args) if d.op == 'cat' else [d]
    flat = set()
    for p in parts:
        if p.op == 'list':
            for x in p.args:
                if x.op == 'splice':
                    flat.add(x)
                else:
                    flat.add(mklist([x]))
        else:
            flat.add(p)
    if d.op == 'ite':
        return lift(mkset, d)
    return raw('set', *sorted(flat, key=lambda t: t.id))


def sort_items(items):
    def key(kv):
        k = kv[0]
        return (0, k.args[0]) if k.op == 'str' else (1, '%09d' % k.id)
    return tuple(sorted(items, key=key))


def idx_single(idx):
    """the index term if the subscript is a single plain index"""
    if len(idx) == 1 and isinstance(idx[0], T):
        return idx[0]
    return None


def ranked(t, idx, written):
    """note that a reference indexes t as an array of so many dimensions (the trailing ':' says nothing else)"""
    n = len(written)
    if tm.RANKING and n > 1 and n > len(idx) and t.op in ('sym', 'attr') and all(x.op != 'none' for x in idx):
        tm.RANKS[t] = max(n, tm.RANKS.get(t, 0))
    return idx


def branches(t):
    if t.op == 'ite':
        return branches(t.args[1]) + branches(t.args[2])
    return [t]


def fz_idx(I, idx):
    from .npmodel import norm_idx
    out = []
    for x in idx:
        if isinstance(x, T):
            out.append(I.fz(x))
        else:
            out.append(raw('slc', *[I.fz(y) for y in x[1:]]))
    return norm_idx(tuple(out))


def handler_name(h):
    if h.type is None:
        return 'any'
    return ast.unparse(h.type).split('.')[-1]


from . import exprs  # noqa: E402  (adds the expression methods)
exprs.install(Interp)
