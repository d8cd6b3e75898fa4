"""Definite assignment of local names, decided per function on the syntax tree.

Every local name carries the condition (a decision diagram over the branch conditions of the function) under which it is
bound; a read is reported when the condition under which the read is reached does not imply it.  A `for` loop is taken to
run at least once, branch conditions over unchanged names are the same condition wherever they are tested, and a handler
starts from any point of its `try` body.
"""
import ast
import builtins
import re
from .terms import raw, string, TRUE, FALSE, b_and, b_or, b_not, ite

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__class__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
MAX_ATOMS = 24


class TooMany(Exception):
    pass


def targets(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def own_nodes(fn):
    """nodes of a function body, not entering nested functions, classes or comprehensions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            todo += getattr(n, 'decorator_list', [])
            a = getattr(n, 'args', None)
            if a is not None:
                todo += [d for d in a.defaults + a.kw_defaults if d is not None]
            continue
        if isinstance(n, COMPS):
            # walrus targets inside belong to the function
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    yield x.target
            todo += [n.generators[0].iter]
            continue
        todo += list(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def locals_of(fn):
    out = set(params(fn))
    glob = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add(x.asname or x.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
            out.add(n.name)
    return out - glob


class State(object):
    __slots__ = ('reach', 'bound', 'ver', 'val', 'non', 'const', 'poss')

    def __init__(self, reach, bound, ver, val=None, non=None, const=None, poss=None):
        self.reach, self.bound, self.ver = reach, bound, ver
        self.val, self.non, self.const, self.poss = val or {}, non or {}, const or {}, poss or {}

    def copy(self):
        return State(self.reach, dict(self.bound), dict(self.ver), dict(self.val), dict(self.non), dict(self.const), dict(self.poss))

    def forget(self, x, v):
        self.ver[x] = v
        for d in (self.val, self.non, self.const, self.poss):
            d.pop(x, None)


class Check(object):
    def __init__(self, fn, outer, globals_):
        self.fn, self.outer, self.globals = fn, outer, globals_
        self.locals = locals_of(fn)
        self.found = []
        self.n = 0
        self.atoms = {}
        self.loops = []
        self.dead = None
        self.reads = 0
        self.callee = None
        for n in ast.walk(fn):
            # exec("name = ...", globals()) defines a name of the module
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'exec' and n.args:
                for c in ast.walk(n.args[0]):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        self.globals = self.globals | set(re.findall(r'(\w+)\s*=(?!=)', c.value)) | set(re.findall(r'def (\w+)', c.value))

    def fresh(self):
        self.n += 1
        return self.atom('#%d' % self.n)

    def atom(self, text):
        a = self.atoms.get(text)
        if a is None:
            if len(self.atoms) > MAX_ATOMS:
                raise TooMany()
            a = self.atoms[text] = raw('truthy', string(text))
        return a

    def run(self):
        b = {x: TRUE for x in params(self.fn)}
        st = State(TRUE, b, {})
        body = self.fn.body if isinstance(self.fn.body, list) else [ast.Expr(self.fn.body)]
        self.block(body, st)
        return self.found

    # -------------------------------------------------------------- expressions
    def expr(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, st)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, st)
            self.nested(e, st)
            return
        if isinstance(e, COMPS):
            inner = set()
            for g in e.generators:
                inner |= set(targets(g.target))
            self.expr(e.generators[0].iter, st)
            rest = [g.iter for g in e.generators[1:]] + [x for g in e.generators for x in g.ifs]
            rest += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            s2 = st.copy()
            for x in inner:
                s2.bound[x] = TRUE
            saved = self.locals
            self.locals = self.locals | inner
            for x in rest:
                self.expr(x, s2)
            self.locals = saved
            return
        if isinstance(e, ast.BoolOp):
            s2 = st
            self.expr(e.values[0], s2)
            for prev, v in zip(e.values, e.values[1:]):
                c = self.cond(prev, s2)
                s2 = s2.copy()
                s2.reach = b_and(s2.reach, c if isinstance(e.op, ast.And) else b_not(c))
                self.expr(v, s2)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            c = self.cond(e.test, st)
            for br, g in ((e.body, c), (e.orelse, b_not(c))):
                s2 = st.copy()
                s2.reach = b_and(s2.reach, g)
                self.expr(br, s2)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            self.bind(e.target.id, st)
            return
        for ch in ast.iter_child_nodes(e):
            self.expr(ch, st)

    def nested(self, f, st):
        pass

    def read(self, n, st):
        x = n.id
        self.reads += 1
        if x not in self.locals:
            if x not in self.outer and x not in self.globals and x not in BUILTINS:
                self.found.append((n.lineno, x, 'is defined nowhere'))
            return
        if st.reach is FALSE:
            return
        b = st.bound.get(x, FALSE)
        miss = b_and(st.reach, b_not(b))
        if miss is not FALSE:
            self.found.append((n.lineno, x, 'may be unset' if b_and(st.reach, b) is not FALSE else 'is never set before it is used'))
            st.bound[x] = TRUE      # report once

    def bind(self, x, st, e=None):
        if x in self.locals:
            st.bound[x] = b_or(st.bound.get(x, FALSE), st.reach) if st.reach is not TRUE else TRUE
        val = non = const = None
        if isinstance(e, ast.Constant):
            val = TRUE if e.value else FALSE
            non = TRUE if e.value is None else FALSE
            if isinstance(e.value, (int, float, str)) and not isinstance(e.value, bool):
                const = e.value
        elif isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            val = self.cond(e, st)
            non = FALSE if not isinstance(e, ast.BoolOp) else None
        elif isinstance(e, ast.Name):
            val, non, const = st.val.get(e.id), st.non.get(e.id), st.const.get(e.id)
            if val is None:
                val = self.cond(e, st)
            if non is None:
                non = self.is_none(e.id, st)
        elif isinstance(e, (ast.Lambda, ast.FunctionDef, ast.BinOp, ast.List, ast.Tuple, ast.Dict, ast.ListComp, ast.DictComp, ast.JoinedStr)):
            non = FALSE
            if isinstance(e, (ast.Lambda, ast.FunctionDef)):
                val = TRUE
        self.n += 1
        st.forget(x, self.n)
        if val is not None:
            st.val[x] = val
        if non is not None:
            st.non[x] = non
        if const is not None:
            st.const[x] = const

    def is_none(self, x, st):
        r = st.non.get(x)
        if r is None:
            r = self.atom('%s is None|%s%d' % (x, x, st.ver.get(x, 0)))
        return r

    def store(self, t, st, e=None):
        if isinstance(t, ast.Name):
            self.bind(t.id, st, e)
        elif isinstance(t, (ast.Tuple, ast.List)):
            es = [None] * len(t.elts)
            if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(es) and not any(isinstance(x, ast.Starred) for x in e.elts + t.elts):
                es = e.elts
            ps = self.results(e, len(t.elts)) if isinstance(e, ast.Call) else None
            for j, (x, y) in enumerate(zip(t.elts, es)):
                self.store(x, st, y if not isinstance(y, (ast.Name, ast.Compare, ast.BoolOp, ast.UnaryOp)) else None)
                if ps and ps[j] and isinstance(x, ast.Name):
                    st.poss[x.id] = ps[j]
        elif isinstance(t, ast.Starred):
            self.store(t.value, st)
        else:
            self.store_rest(t, st)

    def results(self, call, n):
        """constants the positions of a tuple returned by a package function can take"""
        if self.callee is None:
            return None
        f = self.callee(call.func)
        if f is None:
            return None
        out = [set() for _ in range(n)]
        for x in own_nodes(f.node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Return):
                if not isinstance(x.value, ast.Tuple) or len(x.value.elts) != n:
                    return None
                for j, y in enumerate(x.value.elts):
                    try:
                        c = ast.literal_eval(y)
                    except Exception:
                        c = None
                    if out[j] is not None:
                        out[j] = None if c is None or not isinstance(c, (int, float, str)) else out[j] | {c}
        return out

    def store_rest(self, t, st):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.expr(t.value, st)
            if isinstance(t, ast.Subscript):
                self.expr(t.slice, st)
            base = t.value
            while isinstance(base, (ast.Attribute, ast.Subscript)):
                base = base.value
            if isinstance(base, ast.Name):
                self.n += 1
                st.ver[base.id] = self.n

    def cond(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return b_not(self.cond(e.operand, st))
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(v, st) for v in e.values]
            return b_and(*cs) if isinstance(e.op, ast.And) else b_or(*cs)
        if isinstance(e, ast.Constant):
            return TRUE if e.value else FALSE
        if isinstance(e, ast.Name) and e.id in st.val:
            return st.val[e.id]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
            return TRUE
        k = self.known(e, st)
        if k is not None:
            return TRUE if k else FALSE
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and self.literal(e.comparators[0]) is not self:
            x, c, o = e.left.id, self.literal(e.comparators[0]), e.ops[0]
            if c is None and isinstance(o, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                r = self.is_none(x, st)
                return b_not(r) if isinstance(o, (ast.IsNot, ast.NotEq)) else r
            if x in st.poss and isinstance(o, (ast.Eq, ast.NotEq)) and isinstance(c, (int, float, str)):
                return self.one_of(x, c, st) if isinstance(o, ast.Eq) else b_not(self.one_of(x, c, st))
        neg = False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            o = e.ops[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.Gt: ast.LtE, ast.GtE: ast.Lt}
            le, re_ = self.shifted(e.left, e.comparators[0])
            for k, v in flip.items():
                if isinstance(o, k):
                    neg, o = True, v()
            if isinstance(o, ast.LtE):      # a <= b  is  not b < a
                neg, o, le, re_ = not neg, ast.Lt(), re_, le
            c = st.const.get(le.id) if isinstance(le, ast.Name) else self.literal(le)
            if isinstance(o, ast.Lt) and type(c) is int:      # c < e  is  not e < c + 1, for counts
                neg, le, re_ = not neg, re_, ast.Constant(c + 1)
            l, r = self.text(le, st), self.text(re_, st)
            if isinstance(o, (ast.Eq, ast.Is)) and r < l:
                l, r = r, l
            text = '%s %s %s' % (l, type(o).__name__, r)
        else:
            text = ast.unparse(e)
        vs = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and not (isinstance(e, ast.Compare) and n.id in st.const and (n is e.left or n in e.comparators))})
        pure = not any(isinstance(n, (ast.Call, ast.Await, ast.Yield)) for n in ast.walk(e)) or self.pure(e)
        text += '|' + ','.join('%s%d' % (v, st.ver.get(v, 0)) for v in vs)
        if not pure:
            self.n += 1
            text += '#%d' % self.n
        a = self.atom(text)
        return b_not(a) if neg else a

    def literal(self, e):
        try:
            return ast.literal_eval(e)
        except Exception:
            return self

    def known(self, e, st):
        """truth of a comparison of numbers that are both known"""
        if not (isinstance(e, ast.Compare) and len(e.ops) == 1):
            return None
        v = []
        for x in (e.left, e.comparators[0]):
            c = st.const.get(x.id) if isinstance(x, ast.Name) else self.literal(x)
            if isinstance(c, bool) or not isinstance(c, (int, float)):
                return None
            v.append(c)
        f = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
             ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}.get(type(e.ops[0]))
        return f(*v) if f else None

    def first(self, t, it, st):
        """the counter of a loop over range or enumerate starts at a known number"""
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name)):
            return
        x, c = None, 0
        if it.func.id == 'range' and isinstance(t, ast.Name):
            x = t
            if len(it.args) > 1:
                c = self.literal(it.args[0])
        elif it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name):
            x = t.elts[0]
            if len(it.args) > 1 or it.keywords:
                c = self.literal((it.args + [k.value for k in it.keywords])[-1])
        if x is not None and isinstance(c, int):
            st.const[x.id] = c

    def entered(self, it, st):
        """the condition under which a loop over a range has an iteration"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and 1 <= len(it.args) <= 2 and not it.keywords:
            lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
            if isinstance(lo, ast.Constant) and self.pure(it.args[-1]):
                return self.cond(ast.Compare(lo, [ast.Lt()], [it.args[-1]]), st)
        return None

    def shifted(self, l, r):
        """numbers on one side of a comparison of counts"""
        def num(e):
            c = self.literal(e)
            return c if isinstance(c, int) and not isinstance(c, bool) else None
        for _ in range(4):
            for a, b, flip in ((l, r, False), (r, l, True)):
                if num(a) is not None and isinstance(b, ast.BinOp) and isinstance(b.op, (ast.Add, ast.Sub)) and num(b.right) is not None:
                    d = num(b.right)
                    a = ast.Constant(num(a) + (d if isinstance(b.op, ast.Sub) else -d))
                    l, r = (b.left, a) if flip else (a, b.left)
                    break
            else:
                break
        return l, r

    def one_of(self, x, c, st):
        """x == c for a name that takes one of finitely many constants"""
        vs = sorted(st.poss[x], key=repr)
        rest = TRUE
        for i, v in enumerate(vs):
            here = rest if i == len(vs) - 1 else b_and(rest, self.atom('%s%d is %r' % (x, st.ver.get(x, 0), v)))
            if v == c:
                return here
            rest = b_and(rest, b_not(here))
        return FALSE

    def text(self, e, st):
        if isinstance(e, ast.Name) and e.id in st.const:
            return repr(st.const[e.id])
        return ast.unparse(e)

    def pure(self, e):
        ok = {'isinstance', 'len', 'hasattr', 'callable', 'type', 'all', 'any', 'issubclass', 'set', 'is_alive', 'has_constraints',
              'has_continuous', 'lower', 'upper', 'startswith', 'endswith', 'getattr', 'abs', 'int', 'float'}
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                if nm not in ok:
                    return False
        return True

    # -------------------------------------------------------------- statements
    def join(self, a, b):
        if a is None or a.reach is FALSE:
            return b if b is not None else a
        if b is None or b.reach is FALSE:
            return a
        out = State(b_or(a.reach, b.reach), {}, {})
        for x in set(a.bound) | set(b.bound):
            out.bound[x] = b_or(b_and(a.reach, a.bound.get(x, FALSE)), b_and(b.reach, b.bound.get(x, FALSE)))
        for x in set(a.ver) | set(b.ver):
            va, vb = a.ver.get(x, 0), b.ver.get(x, 0)
            if va == vb:
                out.ver[x] = va
                for d in ('val', 'non', 'const', 'poss'):
                    if x in getattr(a, d):
                        getattr(out, d)[x] = getattr(a, d)[x]
                continue
            if x in a.val and x in b.val:
                out.val[x] = b_or(b_and(a.reach, a.val[x]), b_and(b.reach, b.val[x]))
            if x in a.non or x in b.non:
                out.non[x] = b_or(b_and(a.reach, self.is_none(x, a)), b_and(b.reach, self.is_none(x, b)))
            if x in a.const and x in b.const and a.const[x] == b.const[x]:
                out.const[x] = a.const[x]
            self.n += 1
            out.ver[x] = self.n
        return out

    def block(self, body, st):
        for s in body:
            if st.reach is FALSE:
                return st
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.store(t, st, s.value)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.store(s.target, st, s.value)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.store(s.target, st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, st)
            self.bind(s.name, st, s)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                self.bind(x.asname or x.name.split('.')[0], st)
        elif isinstance(s, ast.If):
            self.expr(s.test, st)
            c = self.cond(s.test, st)
            a, b = st.copy(), st.copy()
            a.reach = b_and(st.reach, c)
            b.reach = b_and(st.reach, b_not(c))
            a = self.block(s.body, a)
            b = self.block(s.orelse, b)
            st = self.join(a, b)
        elif isinstance(s, (ast.For, ast.While)):
            st = self.loop(s, st)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            st = self.try_(s, st)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            st = self.block(s.body, st)
        elif isinstance(s, ast.Return):
            self.expr(s.value, st)
            st.reach = FALSE
        elif isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            self.expr(s.cause, st)
            st.reach = FALSE
        elif isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1]['break'].append(st.copy())
            st.reach = FALSE
        elif isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1]['cont'].append(st.copy())
            st.reach = FALSE
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st.bound[t.id] = b_and(st.bound.get(t.id, FALSE), b_not(st.reach))
                else:
                    self.store(t, st)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, st)
            self.expr(s.msg, st)
            st.reach = b_and(st.reach, self.cond(s.test, st))
        elif isinstance(s, ast.Expr):
            self.expr(s.value, st)
            v = s.value
            if isinstance(v, ast.Call) and ast.unparse(v.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
                st.reach = FALSE
        elif type(s).__name__ == 'Match':
            self.expr(s.subject, st)
            out = None
            rest = st.copy()
            for c in s.cases:
                b = rest.copy()
                a = self.fresh()
                for x in ast.walk(c.pattern):
                    if type(x).__name__ in ('MatchAs', 'MatchStar') and x.name:
                        self.bind(x.name, b)
                b.reach = b_and(b.reach, a)
                wild = type(c.pattern).__name__ == 'MatchAs' and c.pattern.pattern is None and c.guard is None
                rest.reach = FALSE if wild else b_and(rest.reach, b_not(a))
                self.expr(c.guard, b)
                out = self.join(self.block(c.body, b), out)
            st = self.join(out, rest)
        return st

    def loop(self, s, st):
        fr = {'break': [], 'cont': []}
        if isinstance(s, ast.For):
            self.expr(s.iter, st)
        zero = None
        body = st.copy()
        if isinstance(s, ast.For):
            c = self.entered(s.iter, st)
            if c is not None:
                body.reach = b_and(body.reach, c)
            self.store(s.target, body)
            self.first(s.target, s.iter, body)
        else:
            self.expr(s.test, body)
            c = self.cond(s.test, body)
            zero = st.copy()
            zero.reach = b_and(st.reach, b_not(c))
            body.reach = b_and(body.reach, c)
        self.loops.append(fr)
        end = self.block(s.body, body)
        self.loops.pop()
        for c in fr['cont']:
            end = self.join(end, c)
        # leaving after an iteration: conditions over the loop's own names are forgotten
        if end is not None and end.reach is not FALSE:
            if isinstance(s, ast.While):
                if isinstance(s.test, ast.Constant) and s.test.value:
                    end.reach = FALSE
                if zero.reach is not FALSE:
                    end = self.join(end, zero) if end.reach is not FALSE else zero
            if s.orelse:
                end = self.block(s.orelse, end)
        elif zero is not None and zero.reach is not FALSE:
            end = self.block(s.orelse, zero) if s.orelse else zero
        elif isinstance(s, ast.For) and s.orelse:
            pass
        for b in fr['break']:
            end = self.join(end, b)
        if end is None:
            end = st.copy()
            end.reach = FALSE
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                end.const.pop(n.id, None)
                end.poss.pop(n.id, None)
        return end

    def try_(self, s, st):
        start = st.copy()
        body = self.block(s.body, st.copy())
        maybe = start.copy()
        assigned = set()
        for n in s.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
        for x in assigned:
            self.n += 1
            maybe.forget(x, self.n)
        outs = []
        if s.orelse and body is not None:
            body = self.block(s.orelse, body)
        outs.append(body)
        for h in s.handlers:
            hs = maybe.copy()
            a = self.fresh()
            hs.reach = b_and(hs.reach, a)
            if body is not None:
                body.reach = b_and(body.reach, b_not(a))
            self.expr(h.type, hs)
            if h.name:
                self.bind(h.name, hs)
            hs = self.block(h.body, hs)
            if h.name and hs is not None:
                hs.bound[h.name] = b_and(hs.bound.get(h.name, FALSE), b_not(hs.reach))
            outs.append(hs)
        if s.handlers and body is not None:
            # the body finishes exactly when no handler runs
            pass
        end = None
        for o in outs:
            end = self.join(end, o)
        if s.finalbody:
            if end is None or end.reach is FALSE:
                fin = maybe.copy()
                fin.reach = start.reach
                self.block(s.finalbody, fin)
                return end
            # the final block also runs on the way out of a failure: only names bound before count there
            end = self.block(s.finalbody, end)
        return end if end is not None else start


def module_globals(p, m):
    g = set(m.names)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            g |= set(n.names)
    for s in m.tree.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(s, FUNCS + (ast.ClassDef,)):
                g.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)) and not isinstance(s, FUNCS + (ast.ClassDef,)):
                for a in n.names:
                    g.add(a.asname or a.name.split('.')[0])
        if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
            src = p.abs_import(m, s)
            if src in p.modules:
                g |= module_globals(p, p.modules[src])
            else:
                return None
    return g


def check_function(p, m, fn, outer=frozenset()):
    """[(line, name, what)] and number of reads decided"""
    g = module_globals(p, m)
    if g is None:
        g = set()
        unknown = True
    else:
        unknown = False
    c = Check(fn, set(outer), g)

    def callee(e):
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = p.resolve_expr(m, e)
            if r and r[0] == 'fn':
                return r[1]
        return None
    c.callee = callee
    try:
        found = c.run()
    except TooMany:
        found = None
    reads = c.reads
    if found is not None and unknown:
        found = [x for x in found if x[2] != 'is defined nowhere']
    out = list(found) if found is not None else None
    # nested functions see this one's names
    inner_scope = set(outer) | c.locals
    for n in own_nodes(fn):
        if isinstance(n, FUNCS):
            o, r = check_function(p, m, n, inner_scope)
            reads += r
            if out is not None:
                out = out + o if o is not None else None
        elif isinstance(n, COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.Lambda):
                    tg = {t for cc in ast.walk(n) if isinstance(cc, ast.comprehension) for t in targets(cc.target)}
                    o, r = check_function(p, m, x, inner_scope | tg)
                    reads += r
                    if out is not None:
                        out = out + o if o is not None else None
    return out, reads
