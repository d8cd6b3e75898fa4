"""Expression semantics of the value-graph interpreter (installed into Interp)."""
import ast

from .terms import *
from . import terms as tm
from .program import Function


BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
          ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
          ast.LShift: 'lshift', ast.RShift: 'rshift'}


def install(Interp):
    for k, v in list(globals().items()):
        if getattr(v, '_interp', False):
            setattr(Interp, k.lstrip('_') if k.startswith('_m_') else k, v)


def method(f):
    f._interp = True
    return f


# ------------------------------------------------------------------------------------ atoms
@method
def e_Name(self, e):
    v = self.lookup(e.id, e)
    if v is UNDEF:
        fr = self.st.frames[self.fid]
        if e.id not in fr:
            self.event('undefined', string(e.id))
    return v


@method
def e_Constant(self, e):
    return const(e.value)


@method
def e_List(self, e):
    return self.new_list(self.list_items(e.elts))


@method
def e_Tuple(self, e):
    v = self.list_items(e.elts)
    if v.op == 'list':
        return raw('tuple', *v.args)
    return v


@method
def list_items(self, elts):
    parts = []
    for x in elts:
        if isinstance(x, ast.Starred):
            parts.append(self.as_list(self.expr(x.value)))
        else:
            parts.append(mklist([self.expr(x)]))
    return cat(*parts) if parts else EMPTY


@method
def e_Set(self, e):
    return self.alloc(Cell('set', self.list_items(e.elts)))


@method
def e_Dict(self, e):
    from .interp import Cell
    items = []
    base = None
    for k, v in zip(e.keys, e.values):
        if k is None:
            d = self.expr(v)
            if d.op == 'ref' and self.cell(d).kind == 'dict':
                c = self.cell(d)
                for kk, vv in c.data:
                    items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
                base = c.base if base is None else raw('dictmerge', base, c.base)
            else:
                base = self.fz(d)
            continue
        kk = self.fz(self.expr(k))
        items = [(a, b) for a, b in items if a is not kk] + [(kk, self.box(self.expr(v)))]
    return self.alloc(Cell('dict', tuple(items), base=base))


@method
def e_JoinedStr(self, e):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(string(v.value))
        else:
            spec = None
            if v.format_spec is not None:
                spec = ast.unparse(v.format_spec)
            x = self.fz(self.expr(v.value))
            parts.append(tostr(x) if not spec else raw('fmt', x, spec.strip("f'\"")))
    return strcat(*parts)


@method
def e_FormattedValue(self, e):
    return tostr(self.fz(self.expr(e.value)))


@method
def e_Lambda(self, e):
    fn = Function(e, self.mod, None, self.mod.name + '.<lambda>')
    defaults = [self.expr(d) for d in e.args.defaults]
    kwd = {k.arg: self.expr(d) for k, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
    return self.fun_value(fn, closure=self.fid, defaults=defaults, kwdefaults=kwd)


@method
def e_NamedExpr(self, e):
    v = self.box(self.expr(e.value))
    self.st.frames[self.fid][e.target.id] = v
    return v


@method
def e_Starred(self, e):
    return self.expr(e.value)


@method
def e_Yield(self, e):
    acc = self.st.frames[self.fid].get('__yield__')
    v = self.expr(e.value) if e.value is not None else NONE
    w = self.st.frames[self.fid].get('__with__')
    if w is not None:
        return self.run_with_body(self.withs[int(w.args[0].split(':')[1])], v)
    if acc is None:
        return self.top('yield', e)
    c = self.cell(acc)
    self.set_cell(acc, c.with_(data=cat(c.data, mklist([self.box(v)]))))
    return NONE


@method
def e_YieldFrom(self, e):
    acc = self.st.frames[self.fid].get('__yield__')
    v = self.as_list(self.expr(e.value))
    if acc is None:
        return self.top('yield', e)
    c = self.cell(acc)
    self.set_cell(acc, c.with_(data=cat(c.data, v)))
    return NONE


# ------------------------------------------------------------------------------------ strings
def tostr(x):
    if x.op == 'str':
        return x
    if x.op == 'strcat':
        return x
    if x.op == 'num' and x.args[0].denominator == 1:
        return string(str(x.args[0]))
    if x.op == 'ite' and not is_bool(x):
        return ite(x.args[0], tostr(x.args[1]), tostr(x.args[2]))
    if kind(x) == 'str' or x.op == 'call' and x.args[0] in ('ext:time.strftime', 'ext:time.ctime', 'ext:time.asctime'):
        return x
    return raw('tostr', x)


def strcat(*parts):
    def f(*ps):
        flat = []
        for p in ps:
            flat.extend(p.args if p.op == 'strcat' else [p])
        out = []
        for p in flat:
            if p.op == 'str':
                if not p.args[0]:
                    continue
                if out and out[-1].op == 'str':
                    out[-1] = string(out[-1].args[0] + p.args[0])
                    continue
            out.append(p)
        if not out:
            return string('')
        if len(out) == 1:
            return out[0]
        return raw('strcat', *out)
    if sum(p.op == 'ite' or p.op == 'strcat' and any(x.op == 'ite' for x in p.args) for p in parts) > 2:
        return f(*parts)
    return lift(f, *parts)


def str_format(fmt, args, kwargs):
    import string as _s
    try:
        parts = []
        auto = 0
        for lit, field, spec, conv in _s.Formatter().parse(fmt):
            parts.append(string(lit))
            if field is None:
                continue
            if field == '':
                x = args[auto]
                auto += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kwargs:
                x = kwargs[field]
            else:
                return None
            parts.append(tostr(x) if not spec else raw('fmt', x, spec))
        return strcat(*parts)
    except (ValueError, IndexError, KeyError):
        return None


def str_percent(fmt, args):
    import re
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(%|[-+ 0#]*\d*(?:\.\d+)?[sdifgr])', fmt):
        out.append(string(fmt[pos:m.start()]))
        pos = m.end()
        if m.group(1) == '%':
            out.append(string('%'))
            continue
        if k >= len(args):
            return None
        x = args[k]
        k += 1
        out.append(tostr(x) if m.group(1) in ('s', 'd', 'i') else raw('fmt', x, m.group(1)))
    out.append(string(fmt[pos:]))
    return strcat(*out)


# ------------------------------------------------------------------------------------ booleans
@method
def truth_of(self, v):
    """truth value of a value (references included)"""
    if v.op == 'ref':
        c = self.cell(v)
        if c.kind == 'list':
            return truth(c.data) if c.data.op in ('list', 'cat', 'comp') else b_not(eq(length(self.fz(c.data)), ZERO))
        if c.kind == 'set':
            return b_not(eq(length(self.fz(c.data)), ZERO))
        if c.kind == 'dict':
            if c.base is None:
                return TRUE if c.data else FALSE
            return TRUE if c.data else raw('truthy', c.base)
        if c.kind == 'obj':
            return TRUE
        return truth(self.fz(c.data))
    if v.op == 'ite' and not is_bool(v):
        return ite(v.args[0], self.truth_of(v.args[1]), self.truth_of(v.args[2]))
    if has_ref(v) and v.op in ('tuple',):
        return TRUE if v.args else FALSE
    return truth(self.fz(v))


@method
def cond(self, e):
    """boolean value of a condition expression"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return b_not(self.cond(e.operand))
    if isinstance(e, ast.BoolOp):
        v = self.cond(e.values[0])
        for x in e.values[1:]:
            if isinstance(e.op, ast.And):
                v = self.fork(v, lambda: self.cond(x), lambda: FALSE)
            else:
                v = self.fork(v, lambda: TRUE, lambda: self.cond(x))
            v = truth(v)
        return v
    return self.truth_of(self.expr(e))


@method
def e_BoolOp(self, e):
    v = self.expr(e.values[0])
    for x in e.values[1:]:
        c = self.truth_of(v)
        cur = v
        if is_bool(self.fz(cur)) if cur.op != 'ref' else False:
            cv = c
        if isinstance(e.op, ast.And):
            v = self.fork(c, lambda: self.expr(x), lambda: FALSE if is_bool(cur) else cur)
        else:
            v = self.fork(c, lambda: TRUE if is_bool(cur) else cur, lambda: self.expr(x))
    return v


@method
def e_UnaryOp(self, e):
    if isinstance(e.op, ast.Not):
        return b_not(self.cond(e.operand))
    v = self.fz(self.expr(e.operand))
    if isinstance(e.op, ast.USub):
        return self.arith('neg', v)
    if isinstance(e.op, ast.UAdd):
        return v
    if isinstance(e.op, ast.Invert):
        if is_bool(v):
            return b_not(v)
        return lift(lambda x: raw('invert', x), v)
    return self.top('unary', e)


@method
def arith(self, op, *vs):
    if op == 'neg':
        if is_bool(vs[0]):
            return neg(ite(vs[0], ONE, ZERO))
        return neg(vs[0])


@method
def e_IfExp(self, e):
    c = self.cond(e.test)
    return self.fork(c, lambda: self.expr(e.body), lambda: self.expr(e.orelse))


@method
def e_Compare(self, e):
    left = self.expr(e.left)
    res = None
    for op, rhs in zip(e.ops, e.comparators):
        def one():
            right = self.expr(rhs)
            return right, self.compare(op, left, right, e)
        if res is None:
            right, res = one()
        else:
            right, r = one()
            res = b_and(truth(res), truth(r)) if is_bool(res) and is_bool(r) else raw('and', res, r)
        left = right
    return res


@method
def compare(self, op, a, b, node):
    if isinstance(op, (ast.In, ast.NotIn)):
        r = self.contains(b, self.fz(a))
        return r if isinstance(op, ast.In) else b_not(r)
    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
        r = None
        if a is NONE or b is NONE:
            r = self.is_none(b if a is NONE else a)
        elif a.op == 'ref' and b.op == 'ref' and isinstance(op, (ast.Is, ast.IsNot)) and \
                self.cell(a).kind == 'obj' and self.cell(b).kind == 'obj' and (self.cell(a).base is None or self.cell(b).base is None):
            r = TRUE if a is b else FALSE
        else:
            fa, fb = self.fz(a), self.fz(b)
            if kind(fa) == 'list' and fb.op == 'list' and not fb.args:
                r = eq(length(fa), ZERO)
            elif fa.op in ('ite',) and is_bool(fa) and is_bool(fb):
                r = ite(fa, fb, b_not(fb))
            else:
                r = eq(fa, fb)
        return r if isinstance(op, (ast.Is, ast.Eq)) else b_not(r)
    fa, fb = self.fz(a), self.fz(b)
    if is_bool(fa) and fa not in (TRUE, FALSE):
        fa = ite(fa, ONE, ZERO)
    if is_bool(fb) and fb not in (TRUE, FALSE):
        fb = ite(fb, ONE, ZERO)
    if isinstance(op, ast.Lt):
        return lt(fa, fb)
    if isinstance(op, ast.LtE):
        return le(fa, fb)
    if isinstance(op, ast.Gt):
        return lt(fb, fa)
    if isinstance(op, ast.GtE):
        return le(fb, fa)
    return self.top('compare', node)


@method
def is_none(self, v):
    if v is NONE:
        return TRUE
    if v.op == 'ref':
        c = self.cell(v)
        if c.kind == 'val':
            return isnone(self.fz(c.data))
        if c.kind == 'obj' and c.base is not None and c.base.op == 'ite':
            return isnone(c.base)
        return FALSE
    if v.op == 'ite':
        return ite(v.args[0], self.is_none(v.args[1]), self.is_none(v.args[2]))
    if v.op in ('fun', 'bm', 'cls', 'ext', 'pymod', 'super', 'tuple'):
        return FALSE
    return isnone(self.fz(v))


@method
def contains(self, b, x):
    """x in b"""
    if b.op == 'ite':
        return ite(b.args[0], self.contains(b.args[1], x), self.contains(b.args[2], x))
    data = None
    if b.op == 'ref':
        c = self.cell(b)
        if c.kind == 'dict':
            r = FALSE
            for k, v in c.data:
                r = b_or(r, eq(k, x) if v.op != 'absent' else FALSE)
            if c.base is not None:
                r = b_or(r, self.in_base(x, c.base))
            return r
        data = self.fz(c.data)
        if c.kind == 'set':
            data = self.fz(b)
    else:
        data = self.fz(b)
    return contains_term(data, x)


@method
def in_base(self, x, base):
    if base.op == 'without':
        return b_and(b_not(eq(x, base.args[1])), self.in_base(x, base.args[0]))
    return raw('in', x, base)


def contains_term(data, x):
    if data.op == 'ite' and not is_bool(data):
        return ite(data.args[0], contains_term(data.args[1], x), contains_term(data.args[2], x))
    if data.op == 'keys':
        return raw('in', x, data.args[0])
    if data.op in ('list', 'tuple') and not any(a.op == 'splice' for a in data.args):
        return b_or(*[eq(a, x) for a in data.args])
    if data.op == 'cat':
        return b_or(*[contains_term(p, x) for p in data.args])
    if data.op == 'dict':
        return b_or(*[eq(k, x) for k, v in data.args])
    if data.op == 'comp':
        vs, (body,) = open_binder(data)
        return exists(data.args[0], vs[0], contains_term(body, x))
    if data.op == 'set':
        r = []
        for p in data.args:
            if p.op == 'splice':
                r.append(raw('in', x, p.args[0]))
            else:
                r.append(contains_term(p, x))
        return b_or(*r)
    if data.op == 'range':
        lo, n, st = data.args
        if st is ONE:
            return b_and(le(lo, x), lt(x, add(lo, n)))
    return raw('in', x, data)


# ------------------------------------------------------------------------------------ arithmetic
@method
def e_BinOp(self, e):
    a = self.expr(e.left)
    b = self.expr(e.right)
    return self.binop(e.op, a, b, e)


@method
def is_listy(self, v):
    if v.op == 'ref':
        return self.cell(v).kind == 'list'
    return v.op in ('list', 'cat', 'comp', 'sorted') or kind(v) == 'list'


@method
def binop(self, op, a, b, node):
    name = BINOPS.get(type(op))
    if a.op == 'ite' and has_ref(a):
        return self.fork(a.args[0], lambda: self.binop(op, a.args[1], b, node), lambda: self.binop(op, a.args[2], b, node))
    if b.op == 'ite' and has_ref(b):
        return self.fork(b.args[0], lambda: self.binop(op, a, b.args[1], node), lambda: self.binop(op, a, b.args[2], node))
    if name == 'add' and (self.is_listy(a) and self.is_listy(b)):
        return self.new_list(cat(self.as_list(a), self.as_list(b)))
    if name == 'add' and a.op == 'tuple' and b.op == 'tuple':
        return raw('tuple', *(a.args + b.args))
    if name == 'add' and a.op == 'ref' and self.cell(a).kind == 'list' and kind(self.fz(b)) not in ('num', 'array'):
        return self.new_list(cat(self.as_list(a), self.as_list(b)))     # a list plus something not known to be an array
    if name == 'add' and a.op == 'ref' and self.cell(a).kind == 'set':
        pass
    if name == 'mul' and self.is_listy(a) and not self.is_listy(b):
        return self.new_list(self.repeat(self.as_list(a), self.fz(b)))
    if name == 'mul' and self.is_listy(b) and not self.is_listy(a):
        return self.new_list(self.repeat(self.as_list(b), self.fz(a)))
    if name == 'mod' and a.op == 'str':
        fb = self.fz(b)
        r = str_percent(a.args[0], list(fb.args) if fb.op == 'tuple' else [fb])
        return r if r is not None else raw('pyfmt', a, fb)
    if name in ('sub', 'or', 'and') and a.op == 'ref' and self.cell(a).kind == 'set':
        from .interp import Cell
        fa, fb = self.fz(a), self.fz(b)
        if name == 'or':
            return self.alloc(Cell('set', cat(self.cell(a).data, self.as_list(b, True))))
        return self.alloc(Cell('set', mklist([raw('splice', raw('set' + name, fa, fb))])))
    a, b = self.fz(a), self.fz(b)
    return self.num_op(name, a, b, node)


@method
def repeat(self, lst, k):
    if k.op == 'num' and lst.op == 'list' and k.args[0] <= 8:
        return cat(*([lst] * int(k.args[0]))) if k.args[0] > 0 else EMPTY
    return comp(k, fresh('r'), lst)


def _strish(t):
    return t.op in ('str', 'strcat', 'tostr', 'fmt') or kind(t) == 'str'


@method
def num_op(self, name, a, b, node=None):
    if name == 'add':
        if _strish(a) or _strish(b):
            return strcat(a, b)
        return add(a, b)
    if name == 'sub':
        return sub(a, b)
    if name == 'mul':
        return mul(a, b)
    if name == 'div':
        return div(a, b)
    if name == 'pow':
        return power(a, b)
    if name == 'floordiv':
        return lift(lambda x, y: num(x.args[0] // y.args[0]) if x.op == y.op == 'num' and y.args[0] else raw('floordiv', x, y), a, b)
    if name == 'mod':
        return lift(lambda x, y: num(x.args[0] % y.args[0]) if x.op == y.op == 'num' and y.args[0] else raw('mod', x, y), a, b)
    if name in ('and', 'or') and is_bool(a) and is_bool(b):
        return b_and(a, b) if name == 'and' else b_or(a, b)
    if name == 'matmul':
        from .npmodel import dot
        return dot(a, b)
    return lift(lambda x, y: raw('bit' + name, x, y), a, b)


# ------------------------------------------------------------------------------------ sequences
def distinct(d):
    """a list of additions without repetition"""
    return d.op == 'list' and (not d.args or len(d.args) == 1 and d.args[0].op != 'splice'
                               or all(x.op in ('str', 'num') for x in d.args) and len(set(d.args)) == len(d.args))


@method
def as_list(self, v, adds=False):
    """list term of an iterable value (adds: repetitions do not matter to who asks)"""
    if v.op == 'ite':
        return ite(v.args[0], self.as_list(v.args[1], adds), self.as_list(v.args[2], adds))
    if v.op == 'ref':
        c = self.cell(v)
        if c.kind == 'set' and not adds and not distinct(c.data):
            return aslist_term(self.fz(v))
        if c.kind in ('list', 'set'):
            return c.data
        if c.kind == 'dict':
            return self.dict_keys(c)
        if c.kind == 'val':
            return aslist_term(self.fz(c.data))
        return raw('aslist', self.fz(v))
    if v.op == 'tuple':
        return mklist(v.args)
    if v.op in ('list', 'cat', 'comp', 'sorted'):
        return v
    return aslist_term(self.fz(v))


@method
def dict_keys(self, c):
    ks = mklist([k for k, x in c.data if x.op != 'absent'])
    if c.base is not None:
        b = raw('keys', c.base)
        return cat(b, ks)
    return ks


def aslist_term(t):
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], aslist_term(t.args[1]), aslist_term(t.args[2]))
    if t.op == 'range':
        lo, n, st = t.args
        if lo is ZERO and st is ONE:
            if n.op == 'num' and n.args[0] <= 12:
                return mklist([num(j) for j in range(max(0, int(n.args[0])))])
            i = fresh('i')
            KINDS[i] = 'int'
            return comp(n, i, mklist([i]))
        i = fresh('i')
        KINDS[i] = 'int'
        if n.op == 'num' and n.args[0] <= 12:
            return mklist([add(lo, mul(num(j), st)) for j in range(max(0, int(n.args[0])))])
        return comp(n, i, mklist([add(lo, mul(i, st))]))
    if t.op == 'asarr':
        return t.args[0]
    if t.op == 'tuple':
        return mklist(t.args)
    if t.op == 'str':
        return mklist([string(ch) for ch in t.args[0]])
    if t.op == 'rows':
        return t
    if kind(t) == 'list':
        return t
    if t.op in ('dict',):
        return mklist([k for k, v in t.args])
    return raw('rows', t)


@method
def iter_of(self, v, node=None):
    """-> (n, k -> element value) or ('items', [values]) for a literal sequence"""
    if v.op == 'ref':
        c = self.cell(v)
        if c.kind in ('list', 'set'):
            d = c.data
            if d.op == 'list' and not any(x.op == 'splice' for x in d.args):
                return ('items', list(d.args))
            if c.kind == 'set':
                s = self.fz(v)
                return (raw('len', s), lambda k: raw('at', s, (k,)))
            return (length(self.fz(d)), lambda k: self.list_elem(v, self.elem(seq_at(d, k), d), k))
        if c.kind == 'dict':
            d = self.dict_keys(c)
            if d.op == 'list':
                return ('items', list(d.args))
            return (length(d), lambda k: seq_at(d, k))
        t = self.fz(c.data)
        root = c.root
        return self.iter_term(t, root)
    if v.op == 'tuple' or v.op == 'list':
        return ('items', list(v.args))
    return self.iter_term(v if has_ref(v) else self.fz(v), None)


@method
def iter_term(self, t, root):
    if t.op == 'range':
        lo, n, st = t.args
        if n.op == 'num' and n.args[0] <= 6:
            return ('items', [add(lo, mul(num(j), st)) for j in range(max(0, int(n.args[0])))])
        return (n, lambda k: add(lo, mul(k, st)))
    if t.op == 'enum':
        inner, start = t.args
        r = self.iter_of(inner)
        if r[0] == 'items':
            return ('items', [raw('tuple', add(start, num(j)), x) for j, x in enumerate(r[1])])
        return (r[0], lambda k: raw('tuple', add(start, k), r[1](k)))
    if t.op == 'zip':
        rs = [self.iter_of(x) for x in t.args]
        if all(r[0] == 'items' for r in rs):
            return ('items', [raw('tuple', *xs) for xs in zip(*[r[1] for r in rs])])
        ns = []
        fs = []
        for r in rs:
            if r[0] == 'items':
                l = mklist(r[1])
                ns.append(num(len(r[1])))
                fs.append(lambda k, l=l: seq_at(l, k))
            else:
                ns.append(r[0])
                fs.append(r[1])
        return (minmax('min', *ns), lambda k: raw('tuple', *[f(k) for f in fs]))
    if t.op == 'items':
        b = t.args[0]
        if b.op == 'ref':
            c = self.cell(b)
            if c.base is None:
                return ('items', [raw('tuple', k, v) for k, v in c.data])
            bb = self.fz(b)
        else:
            bb = b
        ks = raw('keys', bb)
        return (length(ks), lambda k: raw('tuple', raw('at', ks, (k,)), self.typed(raw('item', bb, raw('at', ks, (k,))), self.elem_hint(bb))))
    if t.op == 'values':
        b = t.args[0]
        if b.op == 'ref':
            c = self.cell(b)
            if c.base is None:
                return ('items', [v for k, v in c.data])
            bb = self.fz(b)
        else:
            bb = b
        ks = raw('keys', bb)
        return (length(ks), lambda k: self.typed(raw('item', bb, raw('at', ks, (k,))), self.elem_hint(bb)))
    if t.op == 'reversed':
        r = self.iter_of(t.args[0])
        if r[0] == 'items':
            return ('items', r[1][::-1])
        return (r[0], lambda k: r[1](sub(sub(r[0], ONE), k)))
    if t.op == 'asarr':
        t = t.args[0]
    if t.op in ('cat', 'comp', 'list'):
        if t.op == 'list':
            return ('items', list(t.args))
        return (length(t), lambda k: self.elem(seq_at(t, k), t))
    if t.op == 'rows':
        return self.iter_term(t.args[0], root)
    if t.op == 'ite' and not is_bool(t):
        a, b = self.iter_of(t.args[1]), self.iter_of(t.args[2])
        if a[0] != 'items' and b[0] != 'items':
            return (ite(t.args[0], a[0], b[0]), lambda k: ite(t.args[0], a[1](k), b[1](k)))
    if has_ref(t):
        t = self.fz(t)
    return (length(t), lambda k: self.box_elem(seq_at(t, k), t, root))


@method
def box_elem(self, e, t, root):
    from .interp import Cell
    h = self.elem_hint(t)
    if h is not None:
        return self.typed_lift(e, h)
    if root is not None:
        return self.alloc(Cell('val', e, root))
    return e


@method
def elem_hint(self, container):
    from . import model
    h = self.types.get(container)
    if isinstance(h, tuple) and h[0] == 'listof':
        return h[1]
    return None


@method
def elem(self, e, container):
    """element of a container, typed by the container's element hint"""
    if e.op == 'ref' or is_immut(e) or has_ref(e):
        return e
    if e.op == 'ite' and not is_bool(e):
        return ite(e.args[0], self.elem(e.args[1], container), self.elem(e.args[2], container))
    if e.op == 'at':
        h = self.elem_hint(e.args[0])
        if h is not None:
            return self.typed(e, h)
        # slices of a typed list keep the element type
        if e.args[0].op == 'at' and self.elem_hint(e.args[0].args[0]) is not None and any(x.op == 'slc' for x in e.args[0].args[1]):
            return self.typed(e, self.elem_hint(e.args[0].args[0]))
    return e


@method
def list_elem(self, lst, e, k):
    """element k of a list: attributes and items set through it are set in the list"""
    from .interp import Cell
    if e.op == 'ref' or is_immut(e) or has_ref(e) or e.op in ('ite', 'list', 'comp', 'cat', 'sorted', 'poly'):
        return e
    return self.alloc(Cell('val', e, self.cell(lst).root, view=(lst, (k,))))


@method
def seq_n(self, v):
    r = self.iter_of(v)
    return num(len(r[1])) if r[0] == 'items' else r[0]


# ------------------------------------------------------------------------------------ comprehensions: desugared to loops
def _desugar(gens, leaf):
    body = leaf
    for g in reversed(gens):
        for c in reversed(g.ifs):
            body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), c)]
        body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[], type_comment=None), g.target)]
    return body


_dcache = {}


@method
def run_comp(self, e, mk, acc):
    """run the desugared comprehension with accumulator value acc; -> accumulator"""
    key = id(e)
    d = _dcache.get(key)
    if d is None or d[0] is not e:
        self.ncomp = getattr(self, 'ncomp', 0) + 1
        nm = '__acc%d_%d' % (len(_dcache), getattr(e, 'lineno', 0))
        loop = _desugar(e.generators, mk(nm))
        for n in loop:
            ast.fix_missing_locations(n)
        d = (e, nm, loop)
        _dcache[key] = d
    _, nm, loop = d
    fr = self.st.frames[self.fid]
    targets = set()
    for g in e.generators:
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                targets.add(n.id)
    saved = {t: fr.get(t) for t in targets}
    fr[nm] = acc
    es = self.block(loop)
    norm = [x for x in es if x.kind == 'normal']
    if not norm:
        return acc
    self.st = norm[0].state
    fr = self.st.frames[self.fid]
    r = fr.pop(nm)
    for t, v in saved.items():
        if v is None:
            fr.pop(t, None)
        else:
            fr[t] = v
    return r


def _call_acc(nm, meth, arg):
    return [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=nm, ctx=ast.Load()), attr=meth, ctx=ast.Load()), args=[arg], keywords=[]))]


@method
def e_ListComp(self, e):
    return self.run_comp(e, lambda nm: _call_acc(nm, 'append', e.elt), self.new_list(EMPTY))


e_GeneratorExp = e_ListComp


@method
def e_SetComp(self, e):
    from .interp import Cell
    return self.run_comp(e, lambda nm: _call_acc(nm, 'add', e.elt), self.alloc(Cell('set', EMPTY)))


@method
def e_DictComp(self, e):
    from .interp import Cell
    return self.run_comp(e, lambda nm: [ast.Assign(targets=[ast.Subscript(value=ast.Name(id=nm, ctx=ast.Load()), slice=e.key, ctx=ast.Store())],
                                                   value=e.value)], self.alloc(Cell('dict', ())))


# ------------------------------------------------------------------------------------ attributes
@method
def e_Attribute(self, e):
    # np.x.y chains resolve statically
    b = self.expr(e.value)
    return self.get_attr(b, e.attr, e)


@method
def lazy_field(self, cell, name):
    """field of a symbolic object that was never written: a stable symbolic value"""
    h = None
    clsname = cell.cls if isinstance(cell.cls, str) else (cell.cls.name if cell.cls else None)
    h = self.field_hint(clsname, name)
    base = cell.base
    return self.attr_of(base, name, h)


@method
def attr_of(self, base, name, h):
    if base.op == 'ite' and not is_bool(base):
        return ite(base.args[0], self.attr_of(base.args[1], name, h), self.attr_of(base.args[2], name, h))
    if base.op == 'upd':
        for k, v in base.args[1]:
            if k == name:
                return v
        return self.attr_of(base.args[0], name, h)
    if base.op == 'store':
        return self.attr_of(base.args[0], name, h)
    t = raw('attr', base, name)
    # constructor-determined fields of an instance kept opaque
    return self.typed(t, h, None)


@method
def field_hint(self, clsname, name):
    if clsname is None:
        return None
    h = self.hints.get((clsname, name))
    if h is not None:
        return h
    c = self.p.cls(clsname)
    if c is not None:
        for k in self.p.mro(c):
            h = self.hints.get((k.name, name))
            if h is not None:
                return h
    return self.hints.get(('*', name))


@method
def get_attr(self, b, name, node=None):
    if b.op == 'ite':
        return self.fork(b.args[0], lambda: self.get_attr(b.args[1], name, node), lambda: self.get_attr(b.args[2], name, node))
    if b.op == 'ref':
        c = self.cell(b)
        if c.kind == 'obj':
            return self.obj_attr(b, c, name, node)
        if c.kind == 'val':
            return self.val_attr(b, self.fz(c.data), name, c)
        return raw('bmeth', b, name)
    if b.op == 'pymod':
        r = self.p.resolve(b.args[0], name)
        if r is None:
            self.event('undefined', string(b.args[0] + '.' + name))
            return UNDEF
        return self.resolved(r)
    if b.op == 'ext':
        from .npmodel import ext_name
        return ext_name(b.args[0] + '.' + name)
    if b.op == 'cls':
        c = self.cls_of(b)
        m = self.p.find_method(c, name)
        if m is not None:
            return self.fun_value(m)
        k = self.p.find_const(c, name)
        if k is not None:
            return self.box(self.eval_in_module(k[0], k[1].module))
        if name == '__name__':
            return string(c.name)
        self.event('noattr', string(c.name), name)
        return UNDEF
    if b.op == 'super':
        selfref, owner = b.args
        c = self.cell(selfref)
        cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
        mro = self.p.mro(cl)
        names = [k.qual for k in mro]
        start = names.index(owner) + 1 if owner in names else 1
        for k in mro[start:]:
            if name in k.methods:
                return raw('bm', selfref, self.fun_value(k.methods[name]))
        if name == '__init__':
            return raw('ext', 'builtins.object_init')
        self.event('noattr', string(cl.name), name)
        return UNDEF
    if b is NONE:
        self.do_raise(raw('exc', 'AttributeError'), node)
        return UNDEF
    if b is UNDEF:
        return UNDEF
    if b.op in ('fun', 'bm'):
        if name == '__name__':
            return raw('fnname', self.fz(b))
        return raw('attr', self.fz(b), name)
    t = self.fz(b)
    v = self.st.far.get((t, name))
    return self.val_attr(b, t, name, None) if v is None else v


@method
def cls_of(self, b):
    q = b.args[0]
    mod, _, nm = q.rpartition('.')
    m = self.p.modules.get(mod)
    return m.names[nm][1]


@method
def obj_attr(self, b, c, name, node):
    d = dict(c.data)
    if name in d and d[name].op != 'absent':
        return d[name]
    if name == '__dict__':
        return raw('vars', self.fz(b))
    if name == '__class__':
        cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
        return raw('cls', cl.qual) if cl is not None else raw('attr', self.fz(b), name)
    cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
    if cl is not None:
        hint = self.field_hint(cl.name, name)
        m = self.p.find_method(cl, name)
        if m is not None:
            f = self.fun_value(m)
            if m.is_static:
                return f
            if m.is_property:
                return self.call_fun(f, [], {}, node, recv=b)
            return raw('bm', b, f)
        k = self.p.find_const(cl, name)
        if k is not None and (c.base is None or hint is None):
            return self.box(self.eval_in_module(k[0], k[1].module))
    if c.base is not None:
        return self.lazy_field(c, name)
    if cl is not None and cl.ext_bases and not (set(cl.ext_bases) <= {'object', 'Exception'}):
        pass
    if node is not None:
        self.event('noattr', string(cl.name if cl else str(c.cls)), name)
        self.do_raise(raw('exc', 'AttributeError'), node)
    return UNDEF


@method
def val_attr(self, b, t, name, c):
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], self.val_attr(b, t.args[1], name, c), self.val_attr(b, t.args[2], name, c))
    from . import npmodel
    r = npmodel.array_attr(self, t, name)
    if r is not None:
        return r
    if t.op == 'upd':
        for k, v in t.args[1]:
            if k == name:
                return v
        return self.val_attr(b, t.args[0], name, c)
    return raw('attr', t, name)


# ------------------------------------------------------------------------------------ subscripts
@method
def e_Slice(self, e):
    return raw('slc', *[self.fz(self.expr(x)) if x is not None else NONE for x in (e.lower, e.upper, e.step)])


@method
def index_of(self, s):
    items = s.elts if isinstance(s, ast.Tuple) else [s]
    out = []
    for x in items:
        if isinstance(x, ast.Slice):
            out.append(('slice',) + tuple(self.expr(y) if y is not None else NONE for y in (x.lower, x.upper, x.step)))
        elif isinstance(x, ast.Starred):
            v = self.expr(x.value)
            out.extend(self.as_list(v).args)
        else:
            v = self.expr(x)
            if v.op == 'slc':
                out.append(('slice',) + v.args)
            elif v.op == 'tuple' and not isinstance(s, ast.Tuple):
                for y in v.args:
                    out.append(('slice',) + y.args if y.op == 'slc' else y)
            else:
                out.append(v)
    return tuple(out)


@method
def e_Subscript(self, e):
    b = self.expr(e.value)
    idx = self.index_of(e.slice)
    return self.by_slices(idx, lambda i: self.subscript(b, i, e))


@method
def dict_get(self, c, key, default):
    """value of key in a dict cell; default() when absent"""
    base_val = None
    if c.base is not None:
        def from_base(bs):
            if bs.op == 'without':
                cnd = eq(key, bs.args[1])
                return self.fork(cnd, default, lambda: from_base(bs.args[0]))
            inb = raw('in', key, bs)
            hk = self.elem_hint(bs) or (self.hints.get((bs.args[1] if bs.op == 'attr' else None, key.args[0])) if key.op == 'str' else None)
            if default is None:
                return self.looked_up(bs, key, lambda: self.typed(raw('item', bs, key), hk))
            return self.fork(inb, lambda: self.typed(raw('item', bs, key), hk), default)
        base_val = lambda: from_base(c.base)
    else:
        def missing():
            if default is not None:
                return default()
            self.do_raise(raw('exc', 'KeyError'), None)
            return UNDEF
        base_val = missing

    items = list(c.data)
    # exact hit
    for k, v in items:
        if k is key and v.op != 'absent' and not (v.op == 'ite' and has_op(v, 'absent')):
            return v

    def go(j):
        if j == len(items):
            return base_val()
        k, v = items[j]
        cnd = eq(k, key)
        if v.op == 'ite' and has_op(v, 'absent'):
            def val(x=v):
                def w(y):
                    if y.op == 'absent':
                        return go(j + 1)
                    if y.op == 'ite' and has_op(y, 'absent'):
                        return self.fork(y.args[0], lambda: w(y.args[1]), lambda: w(y.args[2]))
                    return y
                return w(x)
            return self.fork(cnd, val, lambda: go(j + 1))
        if v.op == 'absent':
            return go(j + 1)
        return self.fork(cnd, lambda: v, lambda: go(j + 1))
    return go(0)


@method
def subscript(self, b, idx, node=None):
    from .interp import Cell, fz_idx, idx_single
    from . import npmodel
    if b.op == 'ite':
        return self.fork(b.args[0], lambda: self.subscript(b.args[1], idx, node), lambda: self.subscript(b.args[2], idx, node))
    one = idx_single(idx)
    if one is not None and one.op == 'ite' and has_ref(one):
        return self.fork(one.args[0], lambda: self.subscript(b, (one.args[1],), node), lambda: self.subscript(b, (one.args[2],), node))
    if b.op == 'ref':
        c = self.cell(b)
        if c.kind == 'dict':
            return self.dict_get(c, self.fz(one), None)
        if c.kind == 'list':
            if one is not None:
                k = self.fz(one)
                if not (k.op in ('list', 'comp', 'cat') or is_bool(k)):
                    r = lift(lambda kk: self.elem(seq_at(c.data, kk), c.data), k)
                    if r.op == 'undef' or (r.op == 'ite' and False):
                        self.do_raise(raw('exc', 'IndexError'), node)
                        return UNDEF
                    if r.op in ('ref',) or is_immut(r) or has_ref(r):
                        return r
                    return self.list_elem(b, self.elem(r, c.data), k)
            elif len(idx) == 1:
                lo, hi, st = [self.fz(x) for x in idx[0][1:]]
                return self.new_list(slice_list(c.data, lo, hi, st), c.root)
            return npmodel.at(self.fz(c.data), fz_idx(self, idx))
        if c.kind == 'val':
            t = self.fz(c.data)
            if one is not None and t.op in ('tuple', 'list') and one.op == 'num':
                return self.unpack(t, int(one.args[0]), None)
            fi = ranked(t, fz_idx(self, idx), idx)
            if one is not None and self.catching and one.op != 'num':
                r = self.looked_up(t, self.fz(one), lambda: npmodel.at(t, fi))
                if r.op == 'undef':
                    return r
            else:
                r = npmodel.at(t, fi)
            h = self.elem_hint(t)
            if h is not None and one is not None:
                return self.typed_lift(r, h)
            if any(x.op in ('list', 'comp') or is_bool(x) for x in fi):
                return r      # advanced indexing copies
            if c.root is not None or any(x.op == 'slc' for x in fi) :
                return self.alloc(Cell('val', r, c.root, view=(b, fi)))
            return r
        if c.kind == 'obj':
            cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
            m = self.p.find_method(cl, '__getitem__') if cl is not None else None
            if m is not None and one is not None:
                return self.call_fun(self.fun_value(m), [one], {}, node, recv=b)
            return raw('at', self.fz(b), fz_idx(self, idx))
        if c.kind == 'set':
            return self.top('set subscript', node)
    if b.op in ('tuple', 'list'):
        if one is not None:
            k = self.fz(one)
            if k.op == 'num':
                j = int(k.args[0])
                if -len(b.args) <= j < len(b.args):
                    return b.args[j]
                self.do_raise(raw('exc', 'IndexError'), node)
                return UNDEF
        elif len(idx) == 1:
            lo, hi, st = [self.fz(x) for x in idx[0][1:]]
            r = slice_list(mklist(b.args), lo, hi, st)
            return raw('tuple', *r.args) if r.op == 'list' else r
    if b.op == 'pymod' or b.op == 'fun':
        return self.top('subscript', node)
    t = self.fz(b)
    if one is not None and self.catching and one.op != 'num':
        r = self.looked_up(t, self.fz(one), lambda: npmodel.at(t, fz_idx(self, idx)))
        if r.op == 'undef':
            return r
    else:
        r = npmodel.at(t, ranked(t, fz_idx(self, idx), idx))
    h = self.elem_hint(t)
    if h is not None and one is not None:
        return self.typed_lift(r, h)
    return r


def slice_list(d, lo, hi, st):
    """python slice of a list term"""
    if st not in (NONE, ONE):
        if st.op == 'num' and st.args[0] == -1 and lo is NONE and hi is NONE and d.op == 'list':
            return mklist(d.args[::-1])
        return raw('at', d, (raw('slc', lo, hi, st),))
    lo_ = ZERO if lo is NONE else lo
    if lo_ is ZERO and hi is NONE:
        return d
    if d.op == 'list' and lo_.op == 'num' and (hi is NONE or hi.op == 'num'):
        return mklist(d.args[int(lo_.args[0]): None if hi is NONE else int(hi.args[0])])
    if d.op == 'comp' and lo_ is ZERO and hi.op != 'num' and comp_single(d):
        n = d.args[0]
        if n is hi:
            return d
    if d.op == 'list' and lo_.op == 'num' and lo_.args[0] >= 0:
        pass
    return raw('at', d, (raw('slc', lo_, hi, NONE),))


# ------------------------------------------------------------------------------------ calls
@method
def e_Call(self, e):
    f = e.func
    args, kwargs = None, None
    # super()
    if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in self.st.frames[self.fid]:
        return self.do_super(e)
    if isinstance(f, ast.Name) and f.id == 'locals':
        return self.top('locals', e)
    if isinstance(f, ast.Attribute):
        b = self.expr(f.value)
        if self.st.guard is FALSE:
            return UNDEF
        args, kwargs = self.call_args(e)
        if self.st.guard is FALSE:
            return UNDEF
        return self.by_keywords(kwargs, lambda kw: self.call_method(b, f.attr, args, kw, e))
    fv = self.expr(f)
    args, kwargs = self.call_args(e)
    if self.st.guard is FALSE:
        return UNDEF
    return self.by_keywords(kwargs, lambda kw: self.call(fv, args, kw, e))


@method
def by_keywords(self, kwargs, f):
    """a call some of whose keywords are only passed in some cases"""
    for k, v in kwargs.items():
        if v.op == 'absent':
            return self.by_keywords({a: b for a, b in kwargs.items() if a != k}, f)
        if v.op == 'ite' and has_op(v, 'absent'):
            return self.fork(v.args[0], lambda: self.by_keywords(dict(kwargs, **{k: v.args[1]}), f),
                             lambda: self.by_keywords(dict(kwargs, **{k: v.args[2]}), f))
    return f(kwargs)


@method
def call_args(self, e):
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = self.expr(a.value)
            l = self.as_list(v)
            if l.op == 'list':
                args.extend(l.args)
            else:
                args.append(raw('star', self.fz(l)))
        else:
            args.append(self.expr(a))
    kwargs = {}
    for k in e.keywords:
        if k.arg is None:
            d = self.expr(k.value)
            if d.op == 'ref' and self.cell(d).kind == 'dict':
                c = self.cell(d)
                if all(kk.op == 'str' for kk, vv in c.data):
                    for kk, vv in c.data:
                        kwargs[kk.args[0]] = vv
                    if c.base is not None:
                        kwargs['**'] = self.typed(c.base, 'dict')
                    continue
            kwargs['**'] = d
        else:
            kwargs[k.arg] = self.expr(k.value)
    return args, kwargs


@method
def do_super(self, e):
    fid = self.fid
    fn, fv = self.frame_fn[fid]
    # the frame of the enclosing method
    while fn.cls is None and fv.closure is not None:
        fid = fv.closure
        fn, fv = self.frame_fn[fid]
    selfname = fn.params()[0] if fn.params() else None
    if e.args:
        c = self.expr(e.args[0])
        owner = c.args[0] if c.op == 'cls' else (fn.cls.qual if fn.cls else '')
        selfref = self.expr(e.args[1]) if len(e.args) > 1 else self.st.frames[fid].get(selfname)
    else:
        owner = fn.cls.qual if fn.cls else ''
        selfref = self.st.frames[fid].get(selfname)
    if selfref is None or selfref.op != 'ref':
        return self.top('super', e)
    return raw('super', selfref, owner)


@method
def call_method(self, b, name, args, kwargs, node):
    from . import npmodel
    if b.op == 'ite':
        return self.fork(b.args[0], lambda: self.call_method(b.args[1], name, args, kwargs, node),
                         lambda: self.call_method(b.args[2], name, args, kwargs, node))
    if b.op == 'ref':
        c = self.cell(b)
        if c.kind == 'obj':
            if c.cls == 'file':
                return self.file_method(b, name, args)
            d = dict(c.data)
            cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
            if name not in d and (cl is None or (self.p.find_method(cl, name) is None and self.p.find_const(cl, name) is None)) and c.base is not None \
                    and self.field_hint(cl.name if cl else c.cls, name) is None:
                return self.ext_method(b, name, args, kwargs, node)
            f = self.obj_attr(b, c, name, node)
            if self.st.guard is FALSE:
                return UNDEF
            return self.call(f, args, kwargs, node)
        if c.kind in ('list', 'dict', 'set'):
            return npmodel.container_method(self, b, c, name, args, kwargs, node)
        t = c.data
        if name == 'pop' and args and not kwargs and args[0].op == 'str':
            # a dictionary without a known shape
            f, k = self.fz(t), args[0]
            old = npmodel.at(f, (k,))
            self.mutated(b, node)
            self.set_cell(b, c.with_(data=raw('without', f, k)))
            return old if len(args) == 1 else ite(raw('in', k, f), old, self.fz(args[1]))
        if name == 'setdefault' and len(args) == 2 and not kwargs and not has_ref(t):
            f, k = self.fz(t), self.fz(args[0])
            new = ite(raw('in', k, f), npmodel.at(f, (k,)), self.fz(args[1]))
            self.set_item(b, [k], new, node)
            return new
        if name == 'add' and len(args) == 1 and not kwargs and not has_ref(t):
            # a set without a known content
            d = self.fz(t)
            self.mutated(b, node)
            self.set_cell(b, c.with_(data=cat(d if d.op == 'cat' else npmodel.rowslist(d), mklist([self.fz(args[0])]))))
            return NONE
        if not has_ref(t):
            r = npmodel.array_method(self, b, self.fz(t), name, args, kwargs, node)
            if r is not None:
                return r
        return self.ext_method(b, name, args, kwargs, node)
    if b.op in ('pymod', 'cls', 'super', 'ext'):
        f = self.get_attr(b, name, node)
        if self.st.guard is FALSE:
            return UNDEF
        return self.call(f, args, kwargs, node)
    if b is NONE or b is UNDEF:
        self.get_attr(b, name, node)
        return UNDEF
    if b.op in ('tuple', 'list'):
        return npmodel.container_method(self, self.new_list(mklist(b.args)), None, name, args, kwargs, node)
    if b.op in ('items', 'range', 'zip', 'enum'):
        return self.ext_method(b, name, args, kwargs, node)
    t = self.fz(b)
    if _strish(t):
        r = npmodel.str_method(self, t, name, [self.fz(a) for a in args], {k: self.fz(v) for k, v in kwargs.items()})
        if r is not None:
            return r
    r = npmodel.array_method(self, b, t, name, args, kwargs, node)
    if r is not None:
        return r
    return self.ext_method(b, name, args, kwargs, node)


@method
def file_method(self, b, name, args):
    if name == 'write':
        self.event('write', *[self.fz(a) for a in args])
        return NONE
    if name == 'writelines' and len(args) == 1:
        l = self.fz(args[0])
        if l.op in ('list', 'tuple'):
            self.event('write', strcat(*l.args))
        else:
            self.event('write', raw('join', string(''), l))
        return NONE
    if name in ('close', 'flush'):
        return NONE
    return raw('mcall', name, raw('file'), tuple(self.fz(a) for a in args), ())


@method
def ext_method(self, b, name, args, kwargs, node):
    """method of an object outside the package (or an unknown value)"""
    from . import npmodel, model
    recvT = self.fz(b)
    fa = [self.fz(a) for a in args]
    kw = {k: self.fz(v) for k, v in kwargs.items()}
    if name == 'keys' and not fa and not kw:
        return self.new_list(raw('keys', recvT))
    if name in ('items', 'values') and not fa and not kw:
        return raw(name, recvT)
    if name == 'get' and len(fa) in (1, 2) and not kw and fa[0].op == 'str':
        return ite(raw('in', fa[0], recvT), raw('item', recvT, fa[0]), fa[1] if len(fa) > 1 else NONE)
    sig = model.EXT_SIGS.get(name) or self.p.common_sig(name)
    if sig is not None and not any(a.op == 'star' for a in fa) and '**' not in kw:
        items = npmodel.bind_sig(sig, fa, kw)
        if items is not None:
            return self.opaque_result('.' + name, b, recvT, items, node)
    items = tuple((str(j), a) for j, a in enumerate(fa)) + tuple(sorted(kw.items()))
    return self.opaque_result('.' + name, b, recvT, items, node)


@method
def call(self, f, args, kwargs, node):
    from . import npmodel, model
    if self.st.guard is FALSE:
        return UNDEF
    if f.op == 'ite':
        return self.fork(f.args[0], lambda: self.call(f.args[1], args, kwargs, node), lambda: self.call(f.args[2], args, kwargs, node))
    if f.op == 'fun':
        return self.call_fun(f, args, kwargs, node)
    if f.op == 'bm':
        return self.call_fun(f.args[1], args, kwargs, node, recv=f.args[0])
    if f.op == 'cls':
        return self.instantiate(self.cls_of(f), args, kwargs, node)
    if f.op == 'ext':
        return npmodel.apply_ext(self, f.args[0], args, kwargs, node)
    if f.op == 'bmeth':
        return self.call_method(f.args[0], f.args[1], args, kwargs, node)
    if f.op == 'partial':
        pa, pk = f.args[1], dict(f.args[2])
        pk.update(kwargs)
        return self.call(f.args[0], list(pa) + list(args), pk, node)
    if f.op == 'ref':
        c = self.cell(f)
        if c.kind == 'obj':
            cl = self.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
            m = self.p.find_method(cl, '__call__') if cl is not None else None
            if m is not None:
                return self.call_fun(self.fun_value(m), args, kwargs, node, recv=f)
        elif c.kind == 'val':
            return self.call(self.fz(c.data), args, kwargs, node)
    if f is UNDEF:
        return UNDEF
    if f is NONE:
        self.do_raise(raw('exc', 'TypeError'), node)
        return UNDEF
    t = self.fz(f)
    if t.op == 'attr' and t.args[0].op not in ('pymod', 'cls'):
        return self.ext_method(t.args[0], t.args[1], args, kwargs, node)
    fa = tuple(self.fz(a) for a in args)
    kw = tuple(sorted((k, self.fz(v)) for k, v in kwargs.items()))
    if t.op == 'bmeth' and len(t.args) == 2:
        items = tuple((str(j), a) for j, a in enumerate(fa)) + kw
        return raw('call', '.' + t.args[1], t.args[0], items)
    if t.op == 'lam' and not kw and len(fa) == len(t.args[1]):
        return tm.instantiate(t, *fa)[0]
    r = lift(lambda g, *xs: raw('app', g, tuple(xs[:len(fa)]), tuple(zip([k for k, _ in kw], xs[len(fa):]))), t, *(list(fa) + [v for _, v in kw]))
    h = model.APP_HINTS.get(t.args[1]) if t.op == 'attr' else None
    if h:
        return self.typed_lift(r, h)
    return r


@method
def instantiate(self, cl, args, kwargs, node):
    from .interp import Cell
    names = [k.name for k in self.p.mro(cl)]
    init = self.p.find_method(cl, '__init__')
    if any(n in self.opaque_classes for n in names):
        if init is not None:
            fv = self.fns[self.fun_value(init).args[0]]
            env, err = self.bind_args(fv, [NONE] + list(args), kwargs, node)
            if err:
                self.event('badcall', string(cl.qual), string(err))
                self.do_raise(raw('exc', 'TypeError'), node)
                return UNDEF
            items = []
            for n_ in init.params()[1:]:
                items.append((n_, self.fz(env[n_])))
            a = init.node.args
            if a.vararg:
                items.append(('*', self.fz(env[a.vararg.arg])))
            for x in a.kwonlyargs:
                items.append((x.arg, self.fz(env[x.arg])))
            if a.kwarg:
                items.append(('**', self.fz(env[a.kwarg.arg])))
        else:
            items = [(str(j), self.fz(a)) for j, a in enumerate(args)] + sorted((k, self.fz(v)) for k, v in kwargs.items())
        t = self.mk_call(cl.name, None, tuple(items))
        self.calls_seen.append((cl.name, t))
        return self.typed_lift(t, cl.name)
    ref = self.alloc(Cell('obj', (), cls=cl))
    if init is not None:
        self.call_fun(self.fun_value(init), args, kwargs, node, recv=ref)
    elif args or kwargs:
        if not cl.ext_bases or set(cl.ext_bases) <= {'object'}:
            self.event('badcall', string(cl.qual), string('unexpected arguments'))
            self.do_raise(raw('exc', 'TypeError'), node)
    return ref


from .interp import is_immut, has_ref, ranked, Cell  # noqa: E402
