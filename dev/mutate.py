"""Development only: how sensitive, and how quiet, are the obligations?
  mutate.py kill <prop filter> [n]   small semantic changes to the functions an obligation analyses; lists the survivors
  mutate.py quiet <prop filter> [n]  behaviour-preserving edits; lists every obligation that turns violated
"""
import ast, copy, os, random, sys, time, json
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from sa.program import Program, REPO
from props import common
import importlib
for f in sorted(os.listdir('/verif/props')):
    if f.endswith('.py') and f not in ('__init__.py', 'common.py', 'notapplicable.py'):
        importlib.import_module('props.' + f[:-3])


def program(override=None):
    p = Program(override=override)
    for f in sorted(os.listdir('/verif/spec')):
        if f.endswith('.py'):
            p.add_module('spec.' + f[:-3], '/verif/spec/' + f)
    return p


def functions(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.In: ast.NotIn, ast.NotIn: ast.In}
ARI = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def mutants(fn):
    """list of (description, apply, undo) on the tree containing fn"""
    out = []
    doc = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    nomut = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                nomut.add(m)
        if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ('print', 'warning', 'info', 'warn', 'format', 'debug'):
            for m in ast.walk(n):
                nomut.add(m)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                for m in ast.walk(d):
                    nomut.add(m)

    def add(desc, n, attr, new):
        old = getattr(n, attr)
        out.append(('%d: %s' % (getattr(n, 'lineno', 0), desc), lambda: setattr(n, attr, new), lambda: setattr(n, attr, old)))
    for n in ast.walk(fn):
        if n in doc or n in nomut:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in SWAP:
                add('%s -> %s in %s' % (t.__name__, SWAP[t].__name__, ast.unparse(n)), n, 'ops', [SWAP[t]()])
        if isinstance(n, ast.BinOp) and type(n.op) in ARI:
            add('%s in %s' % (ARI[type(n.op)].__name__, ast.unparse(n)[:60]), n, 'op', ARI[type(n.op)]())
        if isinstance(n, ast.BoolOp):
            add('and/or in %s' % ast.unparse(n)[:60], n, 'op', ast.And() if isinstance(n.op, ast.Or) else ast.Or())
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            add('constant %r' % n.value, n, 'value', (not n.value) if isinstance(n.value, bool) else n.value + 1)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            add('string %r' % n.value, n, 'value', n.value + 'x')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add('negated %s' % ast.unparse(n.test)[:60], n, 'test', ast.UnaryOp(op=ast.Not(), operand=n.test))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add('sign of %s' % ast.unparse(n)[:50], n, 'op', ast.UAdd())
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add('swapped arguments of %s' % ast.unparse(n)[:60], n, 'args', [n.args[1], n.args[0]] + n.args[2:])
            for j, k in enumerate(n.keywords):
                if k.arg:
                    add('dropped keyword %s of %s' % (k.arg, ast.unparse(n.func)[:40]), n, 'keywords', n.keywords[:j] + n.keywords[j + 1:])
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
            others = sorted({m.attr for m in ast.walk(fn) if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == 'self' and isinstance(m.ctx, ast.Load) and m.attr != n.attr})
            if others:
                o = others[len(n.attr) % len(others)]
                add('self.%s -> self.%s' % (n.attr, o), n, 'attr', o)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is None:
                add('slice from 1 in %s' % ast.unparse(n)[:50], s, 'lower', ast.Constant(1))
            if s.upper is None and s.lower is not None:
                add('slice to -1 in %s' % ast.unparse(n)[:50], s, 'upper', ast.UnaryOp(op=ast.USub(), operand=ast.Constant(1)))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for j, st in enumerate(b):
                if st in doc or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Raise)):
                    continue
                if isinstance(st, ast.Expr) and st.value in nomut:
                    continue
                add('deleted %s' % ast.unparse(st).split('\n')[0][:70], n, fld, b[:j] + [ast.copy_location(ast.Pass(), st)] + b[j + 1:])
    return out


# ------------------------------------------------------------------------------------ preserving edits
class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            n.id = self.m[n.id]
        return n


def locals_of(fn):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    st = set()
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            st.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, ast.FunctionDef) and n is not fn:
            bad |= {x.arg for x in n.args.args} | {n.name}
        if isinstance(n, ast.Lambda):
            bad |= {x.arg for x in n.args.args}
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {x.asname or x.name.split('.')[0] for x in n.names}
    return (st - params) - bad


def pure(e):
    return all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.Subscript, ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop, ast.Slice, ast.Tuple)) for n in ast.walk(e))


def r_rename(fn):
    Rename({v: v + '_value' for v in locals_of(fn)}).visit(fn)
    return True


def r_noop(fn):
    fn.body.insert(1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0, ast.parse('_unused_marker = 0').body[0])
    fn.body.insert(len(fn.body) - (1 if isinstance(fn.body[-1], ast.Return) else 0), ast.parse('pass').body[0])
    return True


def r_invert(fn):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
            n.body, n.orelse = n.orelse, n.body
            ch = True
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
            n.body, n.orelse = n.orelse, n.body
            ch = True
    return ch


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def r_elsereturn(fn):
    """if c: ..return   rest   ->  if c: ..return else: rest   (and the converse)"""
    ch = False
    for n in list(ast.walk(fn)):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for j, st in enumerate(b):
                if isinstance(st, ast.If) and ends(st.body):
                    if st.orelse:
                        b[j + 1:j + 1] = st.orelse
                        st.orelse = []
                        ch = True
                        break
                    elif j + 1 < len(b) and not isinstance(n, (ast.Module, ast.ClassDef)):
                        st.orelse = b[j + 1:]
                        del b[j + 1:]
                        ch = True
                        break
    return ch


def r_tempreturn(fn):
    """return e -> result = e; return result"""
    ch = False
    for n in list(ast.walk(fn)):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            j = 0
            while j < len(b):
                st = b[j]
                if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                    b[j:j + 1] = [ast.Assign(targets=[ast.Name(id='result_', ctx=ast.Store())], value=st.value), ast.Return(value=ast.Name(id='result_', ctx=ast.Load()))]
                    j += 1
                    ch = True
                j += 1
    return ch


class CompToLoop(ast.NodeTransformer):
    pass


def r_comploop(fn):
    """x = [e for t in it if c]  ->  x = []; for t in it: if c: x.append(e)"""
    ch = [False]

    def block(b):
        out = []
        for st in b:
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(st, fld, None), list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    setattr(st, fld, block(getattr(st, fld)))
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1:
                g = st.value.generators[0]
                nm = st.targets[0].id
                if not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(st.value)):
                    inner = [ast.parse('%s.append(0)' % nm).body[0]]
                    inner[0].value.args = [st.value.elt]
                    for c in g.ifs[::-1]:
                        inner = [ast.If(test=c, body=inner, orelse=[])]
                    out.append(ast.parse('%s = []' % nm).body[0])
                    out.append(ast.For(target=g.target, iter=g.iter, body=inner, orelse=[]))
                    ch[0] = True
                    continue
            out.append(st)
        return out
    fn.body = block(fn.body)
    return ch[0]


def r_rangeloop(fn):
    """for x in seq (a name or attribute)  ->  for i_ in range(len(seq)): x = seq[i_]"""
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)) and pure(n.iter):
            it = n.iter
            tgt = n.target
            n.target = ast.Name(id='i_', ctx=ast.Store())
            n.iter = ast.parse('range(len(0))').body[0].value
            n.iter.args[0].args[0] = it
            n.body.insert(0, ast.Assign(targets=[tgt], value=ast.Subscript(value=copy.deepcopy(it), slice=ast.Name(id='i_', ctx=ast.Load()), ctx=ast.Load())))
            ch = True
    return ch


def r_whileloop(fn):
    """for i in range(n) -> i = 0; while i < n: body; i += 1   (no continue in the body)"""
    ch = [False]

    def block(b):
        out = []
        for st in b:
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(st, fld, None), list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    setattr(st, fld, block(getattr(st, fld)))
            if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) \
                    and st.iter.func.id == 'range' and len(st.iter.args) == 1 and not st.orelse and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(st)) \
                    and not any(isinstance(x, ast.Name) and x.id == st.target.id for x in ast.walk(st.iter)):
                nm = st.target.id
                out.append(ast.parse('%s = 0' % nm).body[0])
                w = ast.parse('while %s < 0:\n    pass' % nm).body[0]
                w.test.comparators = [st.iter.args[0]]
                w.body = st.body + [ast.parse('%s += 1' % nm).body[0]]
                out.append(w)
                ch[0] = True
                continue
            out.append(st)
        return out
    fn.body = block(fn.body)
    return ch[0]


def r_aug(fn):
    class V(ast.NodeTransformer):
        ch = False

        def visit_AugAssign(self, n):
            if isinstance(n.target, (ast.Name, ast.Attribute)) and pure(n.value):
                self.ch = True
                t = copy.deepcopy(n.target)
                for x in ast.walk(t):
                    if hasattr(x, 'ctx'):
                        x.ctx = ast.Load()
                return ast.Assign(targets=[n.target], value=ast.BinOp(left=t, op=n.op, right=n.value))
            return n
    v = V()
    v.visit(fn)
    return v.ch


def r_flip(fn):
    """a < b -> b > a, a + b kept"""
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in F:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [F[type(n.ops[0])]()]
            ch = True
    return ch


def r_hoist(fn):
    """self.a used more than once in a function that does not assign it nor call methods on self -> local alias"""
    cnt = {}
    stored = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            if isinstance(n.ctx, ast.Load):
                cnt[n.attr] = cnt.get(n.attr, 0) + 1
            else:
                stored.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                stored.add(n.func.attr)
                return False
    done = False
    if fn.name == '__init__':
        return False
    for a, c in cnt.items():
        if c >= 2 and a not in stored and a == 'space' or a in ('domain', 'objective', 'acquisition') and c >= 2 and a not in stored:
            class V(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                        return ast.Name(id=a + '_', ctx=ast.Load())
                    return n
            V().visit(fn)
            j = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body.insert(j, ast.parse('%s_ = self.%s' % (a, a)).body[0])
            done = True
    return done


def r_cond(fn):
    """x = a if c else b -> if/else"""
    ch = [False]

    def block(b):
        out = []
        for st in b:
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(st, fld, None), list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    setattr(st, fld, block(getattr(st, fld)))
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
                e = st.value
                a, c = copy.deepcopy(st), copy.deepcopy(st)
                a.value, c.value = e.body, e.orelse
                out.append(ast.If(test=e.test, body=[a], orelse=[c]))
                ch[0] = True
                continue
            out.append(st)
        return out
    fn.body = block(fn.body)
    return ch[0]


def r_and(fn):
    """if a and b: S  ->  if a: if b: S"""
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and len(n.test.values) == 2:
            a, b = n.test.values
            n.test = a
            n.body = [ast.If(test=b, body=n.body, orelse=[])]
            ch = True
    return ch


def r_extract(fn, mod_tree):
    """the last return expression becomes a helper function of the module (or a method)"""
    if not fn.body or not isinstance(fn.body[-1], ast.Return) or fn.body[-1].value is None:
        return False
    e = fn.body[-1].value
    if isinstance(e, (ast.Name, ast.Constant)) or any(isinstance(x, (ast.Lambda, ast.Yield)) for x in ast.walk(e)):
        return False
    bound = {x.arg for x in fn.args.args} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    bound |= {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
    if fn.args.vararg or fn.args.kwarg:
        return False
    inner = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    free = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & bound - inner)
    imported = {x.asname or x.name for n in ast.walk(fn) if isinstance(n, (ast.ImportFrom, ast.Import)) for x in n.names}
    if any(isinstance(n, ast.Name) and n.id in imported for n in ast.walk(e)):
        return False
    if any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(e)):
        return False
    nm = '_helper_%s' % fn.name.strip('_')
    h = ast.parse('def %s(%s):\n    return 0' % (nm, ', '.join(free))).body[0]
    h.body[0].value = e
    c = ast.parse('%s(%s)' % (nm, ', '.join(free))).body[0].value
    fn.body[-1].value = c
    mod_tree.body.append(h)
    return True


def r_method(fn, mod_tree):
    """a suffix of the body (from the last top-level if/for) becomes a method"""
    par = getattr(fn, '_parent', None)
    if not isinstance(par, ast.ClassDef) or not fn.args.args or fn.args.args[0].arg != 'self' or fn.args.vararg or fn.args.kwarg:
        return False
    j = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if len(fn.body) - j < 3:
        return False
    k = (len(fn.body) + j) // 2
    tail = fn.body[k:]
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom)) for s in fn.body for n in ast.walk(s)):
        return False
    if any(isinstance(n, ast.Return) for s in fn.body[:k] for n in ast.walk(s)):
        return False
    if any(isinstance(n, ast.Name) and n.id == 'super' for s in tail for n in ast.walk(s)):
        return False
    bound = [x.arg for x in fn.args.args]
    for s in fn.body[:k]:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in bound:
                bound.append(n.id)
    used = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)}
    # names bound only conditionally before the cut cannot be passed safely
    sure = {x.arg for x in fn.args.args}
    for s in fn.body[:k]:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        sure.add(n.id)
    args = [b for b in bound if b in used and b != 'self']
    if any(a not in sure for a in args):
        return False
    nm = '_tail_of_%s' % fn.name.strip('_')
    h = ast.parse('def %s(self%s):\n    pass' % (nm, ''.join(', ' + a for a in args))).body[0]
    h.body = tail
    fn.body[k:] = [ast.Return(value=ast.parse('self.%s(%s)' % (nm, ', '.join(args))).body[0].value)]
    par.body.append(h)
    return True


EDITS = dict(rename=r_rename, noop=r_noop, invert=r_invert, elsereturn=r_elsereturn, tempreturn=r_tempreturn, comploop=r_comploop, rangeloop=r_rangeloop,
             whileloop=r_whileloop, aug=r_aug, flip=r_flip, cond=r_cond, and_=r_and, hoist=r_hoist)
EDITS2 = dict(extract=r_extract, method=r_method)


def qualname(fn):
    out = [fn.name]
    p = getattr(fn, '_parent', None)
    while p is not None and not isinstance(p, ast.Module):
        if hasattr(p, 'name'):
            out.insert(0, p.name)
        p = getattr(p, '_parent', None)
    return '.'.join(out)


_P0 = {}


def run(job):
    mode, rel, qual, what, obs, rules = job
    path = os.path.join(REPO, rel)
    src = open(path).read()
    tree = ast.parse(src)
    fns = {qualname(f): f for f in functions(tree)}
    fn = fns[qual]
    if mode == 'kill':
        ms = mutants(fn)
        desc, ap, un = ms[what]
        ap()
    else:
        desc = what
        ok = EDITS[what](fn) if what in EDITS else EDITS2[what](fn, tree)
        if not ok:
            return None
    ast.fix_missing_locations(tree)
    try:
        new = ast.unparse(tree)
        ast.parse(new)
    except Exception as e:
        return None
    try:
        p = program({rel: new})
    except Exception as e:
        return (rel, qual, desc, 'program: %s' % e, [])
    res = []
    for o in obs:
        r = common.decide(p, common.OBS[o], 60)
        res.append((r.ob, r.status, r.msg[:300]))
    for i in rules:
        for r in common.RULES[i][3](p, 'quick'):
            res.append((r.ob, r.status, r.msg[:300]))
    return (rel, qual, desc, '', res)


def main():
    mode, flt = sys.argv[1], sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
    cover = {}
    p = program()
    seen = {}
    for j, o in enumerate(common.OBS):
        if flt not in o.prop + ':' + o.id:
            continue
        key = (o.target, str(o.spec), str(o.only), str(o.what))
        r = common.decide(p, o)
        if r.status not in ('held', 'shape', 'known'):
            print('skip', r.ob, r.status)
            continue
        qs = set(r.detail.get('functions', [])) | {r.detail.get('entry')}
        for q in qs:
            cover.setdefault(q, []).append(j)
    rulecover = [i for i, (pr, rid, t, f) in enumerate(common.RULES) if flt in pr + ':' + rid and 'rules' in sys.argv]
    jobs = []
    for dp, dn, fs in os.walk(os.path.join(REPO, 'GPyOpt')):
        if 'testing' in dp:
            continue
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            rel = os.path.relpath(os.path.join(dp, f), REPO)
            modn = rel[:-3].replace('/', '.')
            tree = ast.parse(open(os.path.join(dp, f)).read())
            for fn in functions(tree):
                q = qualname(fn)
                obs = cover.get(modn + '.' + q, [])
                if not obs and not rulecover:
                    continue
                if os.environ.get('FN') and not __import__('re').search(os.environ['FN'], q):
                    continue
                if not isinstance(fn._parent, (ast.Module, ast.ClassDef)):
                    continue
                if mode == 'kill':
                    for k in range(len(mutants(fn))):
                        jobs.append((mode, rel, q, k, obs, rulecover))
                else:
                    for k in list(EDITS) + list(EDITS2):
                        jobs.append((mode, rel, q, k, obs, rulecover))
    random.Random(1).shuffle(jobs)
    jobs = jobs[:n]
    print(len(jobs), 'jobs', flush=True)
    t0 = time.time()
    tally = {}
    with Pool(8, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(run, jobs):
            if r is None:
                continue
            rel, qual, desc, err, res = r
            st = {s for _, s, _ in res}
            v = 'violated' if 'violated' in st else 'undecided' if 'undecided' in st else 'quiet'
            tally[v] = tally.get(v, 0) + 1
            if mode == 'kill' and v != 'violated':
                print('%-9s %s %s | %s' % (v.upper() if v == 'quiet' else v, qual, desc, '' if v == 'quiet' else '; '.join('%s %s' % (o, m[:160]) for o, s, m in res if s == 'undecided')[:260]), flush=True)
            if mode == 'quiet' and v == 'violated':
                print('ALARM %s %s | %s' % (qual, desc, '; '.join('%s %s' % (o, m[:200]) for o, s, m in res if s == 'violated')[:500]), flush=True)
            if mode == 'quiet' and v == 'undecided':
                print('undecided %s %s | %s' % (qual, desc, '; '.join('%s %s' % (o, m[:120]) for o, s, m in res if s == 'undecided')[:260]), flush=True)
    print(tally, '%.0fs' % (time.time() - t0))


if __name__ == '__main__':
    main()
