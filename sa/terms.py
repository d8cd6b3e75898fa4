"""Hash-consed value-graph terms with a canonical form.

A term is an immutable node ``T(op, args)``; equal terms are the same Python object, so
"the two computations have the same value" is decided by identity after normalisation:

* numbers   - generalised polynomials with rational coefficients and exponents over atoms;
* booleans  - reduced ordered decision diagrams over atoms (``ite`` nodes), so negated, nested,
              merged or early-return forms of one decision have one representation;
* sequences - concatenations of literal lists and indexed comprehensions ``comp(n, i, list)``;
* binders   - closed with a height-based name, so alpha-equivalent bodies are identical.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', 'id', '_bh', '_syms', '_sz')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_table = {}
_counter = [0]


def raw(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _counter[0] += 1
        t.id = _counter[0]
        t._bh = None
        t._syms = None
        t._sz = None
        _table[key] = t
    return t


def _wrapkey(x):
    return x


# ----------------------------------------------------------------------------------- constants
TRUE = raw('true')
FALSE = raw('false')
NONE = raw('none')
INF = raw('inf')
UNDEF = raw('undef')
PI = raw('pi')


def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return raw('num', Fraction(v))
    if isinstance(v, float):
        if v != v:
            return raw('nan')
        if v == float('inf'):
            return INF
        if v == float('-inf'):
            return neg(INF)
        return raw('num', Fraction(repr(v)))
    return raw('num', Fraction(v))


ZERO = num(0)
ONE = num(1)


def string(s):
    return raw('str', s)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if isinstance(v, tuple):
        return raw('tuple', *[const(x) for x in v])
    if v is Ellipsis:
        return raw('ellipsis')
    return raw('pyconst', repr(v))


def sym(name):
    return raw('sym', name)


_fresh = [0]


def fresh(hint='i'):
    _fresh[0] += 1
    return raw('sym', '%s#%d' % (hint, _fresh[0]))


# ----------------------------------------------------------------------------------- traversal
def subargs(t):
    """child terms (flattening tuples)"""
    st = list(t.args)
    out = []
    while st:
        a = st.pop()
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            st.extend(a)
    return out


def size(t):
    if t._sz is None:
        t._sz = 1 + sum(size(a) for a in subargs(t))
    return t._sz


def binder_height(t):
    if t._bh is None:
        h = 0
        for a in subargs(t):
            h = max(h, binder_height(a))
        if t.op in BINDERS:
            h += 1
        t._bh = h
    return t._bh


def syms(t):
    """free symbols of t (open binder variables included)"""
    if t._syms is None:
        if t.op == 'sym':
            t._syms = frozenset([t])
        else:
            s = frozenset()
            for a in subargs(t):
                s = s | syms(a)
            t._syms = s
    return t._syms


def walk(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(subargs(x))


def contains(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


def has_op(t, *ops):
    return contains(t, lambda x: x.op in ops)


# ----------------------------------------------------------------------------------- booleans
# the classes of the program, each with everything it derives from
LINEAGE = {}
PLAIN = {'builtins.str', 'builtins.list', 'builtins.tuple', 'builtins.dict', 'builtins.set', 'builtins.float', 'numpy.ndarray'}


def kind_of(a, b):
    """whether every instance of the class a is one of b"""
    return a == b or b in LINEAGE.get(a, ())


def kinds_apart(a, b):
    """whether no object is an instance of both classes"""
    if a in PLAIN and b in PLAIN:
        return a != b
    return a in LINEAGE and b in LINEAGE and not any(a in k and b in k for k in LINEAGE.values())


BOOL_ATOMS = {'lt0', 'eq0', 'eq', 'isnone', 'is', 'in', 'truthy', 'isinst', 'hasattr', 'exists',
              'raises', 'anytrue', 'alltrue', 'subcls', 'isfin', 'callable'}


def is_bool(t):
    if t.op in BOOL_ATOMS or t is TRUE or t is FALSE:
        return True
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


_ite_memo = {}


def _top(t):
    if t.op == 'ite':
        return t.args[0]
    if t.op in BOOL_ATOMS:
        return t
    return None


def _cof(t, atom, val):
    """cofactor at the top of the diagram"""
    if t is atom:
        return TRUE if val else FALSE
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    if _top(c) is None:
        # non boolean condition: make it one
        c = raw('truthy', c)
        r = ite(c, a, b)
        _ite_memo[key] = r
        return r
    v = min(tops, key=lambda x: x.id)
    hi = ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True))
    lo = ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False))
    r = _node(v, hi, lo)
    _ite_memo[key] = r
    return r


def _node(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    r = _node_special(v, hi, lo)
    if r is not None:
        return r
    return raw('ite', v, hi, lo)


def upd(base, kvs):
    """an object that equals base except for the listed fields (sorted, last write wins)"""
    if base.op == 'ite' and not is_bool(base):
        return ite(base.args[0], upd(base.args[1], kvs), upd(base.args[2], kvs))
    d = {}
    if base.op == 'upd':
        d.update(base.args[1])
        base = base.args[0]
    d.update(kvs)
    out = tuple(sorted(((k, v) for k, v in d.items() if v is not raw('attr', base, k)), key=lambda kv: kv[0]))
    if not out:
        return base
    return raw('upd', base, out)


def _node_special(v, hi, lo):
    if hi.op == 'upd' or lo.op == 'upd':
        hb = hi.args[0] if hi.op == 'upd' else hi
        lb = lo.args[0] if lo.op == 'upd' else lo
        if hb is lb:
            hd = dict(hi.args[1]) if hi.op == 'upd' else {}
            ld = dict(lo.args[1]) if lo.op == 'upd' else {}
            d = []
            for k in set(hd) | set(ld):
                x = hd.get(k) or raw('attr', hb, k)
                y = ld.get(k) or raw('attr', hb, k)
                d.append((k, ite(v, x, y)))
            return upd(hb, d)
    # min / max / abs written as a comparison:  ite(a-b<0, a, b) = min(a, b)
    if v.op == 'lt0':
        d = v.args[0]
        try:
            df = sub(hi, lo)
        except Exception:
            return None
        if is_numeric_like(hi) and is_numeric_like(lo):
            s = _same_direction(d, df)
            if s == 1:
                return minmax('min', hi, lo)
            if s == -1:
                return minmax('max', hi, lo)
    # ite(x.ndim == 1, as2d(x), x) = as2d(x)
    if hi.op == 'as2d' and hi.args[0] is lo and v.op in ('eq0', 'lt0') and has_op(v, 'ndim') and one_dimensional(v, lo):
        return hi
    if lo.op == 'as2d' and lo.args[0] is hi and v.op in ('eq0', 'lt0') and has_op(v, 'ndim') and not one_dimensional(v, hi):
        return lo
    # "None first, then accumulate" is a plain accumulation once one element exists
    return None


def one_dimensional(v, x):
    """the literal holds for one-dimensional x and not for two-dimensional x"""
    def at_(n):
        e = subst(v.args[0], {raw('ndim', x): num(n)})
        return None if e.op != 'num' else (e.args[0] == 0 if v.op == 'eq0' else e.args[0] < 0)
    return at_(1) is True and at_(2) is False


def _same_direction(d, df):
    """1 if df = k*d with k > 0, -1 if k < 0, else 0"""
    p, q = to_poly(d), to_poly(df)
    if not p or set(p) != set(q):
        return 0
    ratio = None
    for m, c in p.items():
        r = q[m] / c
        if ratio is None:
            ratio = r
        elif ratio != r:
            return 0
    return 1 if ratio > 0 else -1


def is_numeric_like(t):
    return t.op in ('poly', 'num', 'sym', 'attr', 'at', 'call', 'app', 'inf', 'max', 'min', 'len', 'bv', 'pow',
                    'exp', 'log', 'abs', 'sum', 'rmin', 'rmax', 'efn')


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, truth(c), FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, truth(c))
    return r


def truth(t):
    if is_bool(t):
        return t
    if t is NONE:
        return FALSE
    if t.op == 'num':
        return FALSE if t.args[0] == 0 else TRUE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op in ('tuple', 'list'):
        return TRUE if t.args else FALSE
    if t.op in ('cat', 'comp', 'sorted', 'fliplist'):
        return b_not(eq(length(t), ZERO))
    if t.op in ('fun', 'cls', 'pymod', 'ext', 'bm', 'lam', 'bmeth', 'new', 'dict'):
        if t.op == 'dict':
            return TRUE if t.args else FALSE
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if kind(t) in ('int', 'num'):
        return b_not(eq(t, ZERO))
    return raw('truthy', t)


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op in ('sym', 'attr', 'call', 'app', 'at', 'kwget', 'item', 'dictget', 'bv', 'proj', 'car', 'last'):
        if kind(t) in ('int', 'num', 'list', 'str') or is_int(t):
            return FALSE
        return raw('isnone', t)
    return FALSE


# kinds: an environment of facts about symbols; filled by the interpreter (type hints)
KINDS = {}


def kind(t):
    k = KINDS.get(t)
    if k is not None:
        return k
    o = t.op
    if o in ('num',):
        return 'int' if t.args[0].denominator == 1 else 'num'
    if o in ('len', 'dim', 'ndim', 'size', 'ix', 'argmin', 'argmax', 'cols') or (o == 'bv'):
        if o == 'bv':
            return t.args[2] if len(t.args) > 2 else None
        return 'int'
    if o == 'poly':
        ks = set()
        for c, m in t.args[0]:
            if c.denominator != 1:
                return 'num' if all(kind(a) in ('int', 'num') for a, e in m) else None
            for a, e in m:
                ks.add(kind(a) if (e.denominator == 1 and e > 0) else ('num' if kind(a) in ('int', 'num') else None))
        if ks <= {'int'}:
            return 'int'
        if ks <= {'int', 'num'}:
            return 'num'
        return None
    if o == 'floordiv' or o == 'mod':
        ks = [kind(a) for a in t.args]
        return 'int' if all(k == 'int' for k in ks) else 'num' if ks[0] in ('int', 'num') else None
    if o in ('min', 'max'):
        ks = set(kind(a) for a in t.args)
        return 'int' if ks == {'int'} else None
    if o == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else None
    if o in ('list', 'cat', 'comp', 'sorted', 'slist', 'keys', 'values', 'items'):
        return 'list'
    if o in ('str', 'strcat', 'tostr'):
        return 'str'
    if o == 'sum' and kind(t.args[2]) == 'int':
        return 'int'
    if o in ('int',):
        return 'int'
    if o == 'attr' and t.args[1] in COUNTERS:
        return 'int'
    return None


def is_int(t):
    return kind(t) == 'int'


COUNTERS = set()      # attributes that only ever hold an integer counted up from zero

# terms the reference takes for arrays of at least so many dimensions (an index written x[i, :])
RANKS = {}
RANKING = []


def _nonneg(t):
    return t.op in ('len', 'dim', 'size', 'ndim') or t.op == 'attr' and t.args[1] in COUNTERS


def lt(a, b):
    """a < b"""
    return lift(lambda x, y: _lt0(sub(x, y)), a, b)


def le(a, b):
    return b_not(lt(b, a))


def _lt0(d):
    if d.op == 'num':
        return TRUE if d.args[0] < 0 else FALSE
    if d is INF:
        return FALSE
    p = to_poly(d)
    if not p:
        return FALSE
    # infinities dominate
    infs = [(m, c) for m, c in p.items() if m == ((INF, Fraction(1)),)]
    if infs:
        return TRUE if infs[0][1] < 0 else FALSE
    lead = max(p.keys(), key=_mono_key)
    c = p[lead]
    if lead == ():
        return TRUE if c < 0 else FALSE
    if is_int(d):
        g = _int_content(p)
        p = {m: v / g for m, v in p.items()}
        # tighten the constant: sum + c < 0 over integers
        cst = p.get((), Fraction(0))
        if cst.denominator != 1:
            import math
            p[()] = Fraction(math.floor(cst)) if True else cst
        if p[lead] < 0:
            q = {m: -v for m, v in p.items()}
            q[()] = q.get((), Fraction(0)) - 1
            if q[()] == 0:
                del q[()]
            return b_not(_lt0_atom(from_poly(q)))
        return _lt0_atom(from_poly(p))
    s = abs(c)
    p = {m: v / s for m, v in p.items()}
    return _lt0_atom(from_poly(p))


def _int_content(p):
    from math import gcd
    g = 0
    for m, c in p.items():
        if m == ():
            continue
        g = gcd(g, abs(c.numerator)) if c.denominator == 1 else 1
    return Fraction(g or 1)


def _lt0_atom(d):
    if d.op == 'num':
        return TRUE if d.args[0] < 0 else FALSE
    p = to_poly(d)
    # d = nonneg + const >= 0 is never < 0
    if all(c >= 0 for c in p.values()) and all(all(_nonneg(a) for a, e in m) for m in p):
        return FALSE
    # -(nonneg) - const < 0 always
    if all(c <= 0 for c in p.values()) and p.get((), 0) < 0 and all(all(_nonneg(a) for a, e in m) for m in p):
        return TRUE
    return raw('lt0', d)


_DISTINCT = ('num', 'str', 'none', 'true', 'false', 'cls', 'ext')


def eq(a, b):
    return lift(_eq, a, b)


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('str', 'none', 'true', 'false', 'num', 'tuple', 'list', 'ext', 'cls') and \
       b.op in ('str', 'none', 'true', 'false', 'num', 'tuple', 'list', 'ext', 'cls'):
        if a.op in ('true', 'false') and b.op == 'num':
            return TRUE if b.args[0] == (1 if a is TRUE else 0) else FALSE
        if b.op in ('true', 'false') and a.op == 'num':
            return _eq(b, a)
        if a.op == b.op in ('tuple', 'list'):
            if len(a.args) != len(b.args):
                return FALSE
            return b_and(*[_eq(x, y) for x, y in zip(a.args, b.args)])
        return FALSE
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if is_bool(a) and b in (TRUE, FALSE):
        return a if b is TRUE else b_not(a)
    if is_bool(b) and a in (TRUE, FALSE):
        return b if a is TRUE else b_not(b)
    if a.op in ('str', 'true', 'false', 'tuple') or b.op in ('str', 'true', 'false', 'tuple') or a.op in ('ref', 'cls') or b.op in ('ref', 'cls'):
        x, y = (a, b) if a.id < b.id else (b, a)
        return raw('eq', x, y)
    d = sub(a, b)
    if d.op == 'num':
        return TRUE if d.args[0] == 0 else FALSE
    p = to_poly(d)
    if p.get(((INF, Fraction(1)),)):
        return raw('eq', *sorted((a, b), key=lambda t: t.id))
    lead = max(p.keys(), key=_mono_key)
    c = p[lead]
    p = {m: v / c for m, v in p.items()}
    d = from_poly(p)
    if is_int(d) or all(kind(x) == 'int' for x in subatoms(d)):
        # n == 0 for a nonnegative n is n < 1
        if len(p) == 1 and len(lead) == 1 and _nonneg(lead[0][0]):
            return _lt0_atom(sub(d, ONE))
        cst = p.get((), Fraction(0))
        if cst.denominator != 1:
            return FALSE
    return raw('eq0', d)


def subatoms(d):
    out = []
    for c, m in (d.args[0] if d.op == 'poly' else [(1, ((d, 1),))]):
        for a, e in m:
            out.append(a)
    return out


def implied(atom, val, other):
    """truth value of ``other`` implied by ``atom == val``, or None"""
    if atom is other:
        return val
    ao, oo = atom.op, other.op
    if ao == 'lt0' and oo == 'lt0':
        p, q = to_poly(atom.args[0]), to_poly(other.args[0])
        c1, c2 = p.get((), Fraction(0)), q.get((), Fraction(0))
        p1 = {m: c for m, c in p.items() if m != ()}
        q1 = {m: c for m, c in q.items() if m != ()}
        if p1 == q1:
            # atom: v < -c1 ; other: v < -c2
            if val and c2 <= c1:
                return True
            if not val and c2 >= c1:
                return False
        elif p1 == {m: -c for m, c in q1.items()}:
            # atom: v < -c1 ; other: v > c2
            if val and c2 >= -c1:
                return False
            if not val and c2 < -c1:
                return True
        return None
    if ao == 'lt0' and oo == 'eq0' or ao == 'eq0' and oo == 'lt0':
        e, l = (atom, other) if ao == 'eq0' else (other, atom)
        p, q = to_poly(e.args[0]), to_poly(l.args[0])
        p1 = {m: c for m, c in p.items() if m != ()}
        q1 = {m: c for m, c in q.items() if m != ()}
        if set(p1) != set(q1) or not p1:
            return None
        k = None
        for m in p1:
            r = q1[m] / p1[m]
            if k is None:
                k = r
            elif k != r:
                return None
        v = k * (-p.get((), Fraction(0))) + q.get((), Fraction(0))  # value of l when e holds
        holds = v < 0
        if ao == 'eq0':
            return holds if val else None
        # atom is lt0
        if val != holds:
            return False
        return None
    if ao == 'eq0' and oo == 'eq0':
        p, q = to_poly(atom.args[0]), to_poly(other.args[0])
        c1, c2 = p.get((), Fraction(0)), q.get((), Fraction(0))
        p1 = {m: c for m, c in p.items() if m != ()}
        q1 = {m: c for m, c in q.items() if m != ()}
        if p1 == q1 and val and c1 != c2:
            return False
        return None
    if ao == 'eq' and val:
        x = _eqconst(atom)
        if x:
            v, c = x
            if oo == 'eq':
                y = _eqconst(other)
                if y and y[0] is v and y[1] is not c:
                    return False
            if oo == 'isnone' and other.args[0] is v:
                return False
            if oo == 'truthy' and other.args[0] is v and c.op == 'str':
                return bool(c.args[0])
        return None
    if ao == 'isnone':
        v = atom.args[0]
        if val:
            if oo == 'eq':
                y = _eqconst(other)
                if y and y[0] is v:
                    return False
            if oo in ('truthy', 'isinst', 'hasattr') and other.args[0] is v:
                return False
            if oo in ('lt0', 'eq0'):
                return None
        return None
    if ao == 'isinst' and oo == 'isinst' and atom.args[0] is other.args[0]:
        if val:
            if kind_of(atom.args[1], other.args[1]):
                return True
            if kinds_apart(atom.args[1], other.args[1]):
                return False
        elif kind_of(other.args[1], atom.args[1]):
            return False
    if ao in ('truthy', 'isinst') and val and oo == 'isnone' and other.args[0] is atom.args[0]:
        return False
    if ao == 'eq0' and val and oo == 'isnone':
        if other.args[0] in subatoms(atom.args[0]):
            return False
    return None


def _eqconst(t):
    a, b = t.args
    if a.op == 'str':
        return b, a
    if b.op == 'str':
        return a, b
    return None


def restrict(t, atom, val, memo=None):
    """t under the assumption atom == val (deep)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BOOL_ATOMS:
        iv = implied(atom, val, t)
        if iv is not None:
            r = TRUE if iv else FALSE
            memo[t] = r
            return r
    if t.op == 'ite':
        r = ite(restrict(t.args[0], atom, val, memo), restrict(t.args[1], atom, val, memo), restrict(t.args[2], atom, val, memo))
    elif not t.args or t.op in ('sym', 'num', 'str', 'bv'):
        r = t
    else:
        r = rebuild(t, lambda x: restrict(x, atom, val, memo))
    memo[t] = r
    return r


def assume(t, cond, val=True):
    """t under a conjunction of literals"""
    if cond is TRUE or cond is FALSE:
        return t
    for a, v in literals(cond if val else b_not(cond)):
        t = restrict(t, a, v)
    return t


def literals(c):
    """literals implied by c when c is a conjunction"""
    out = []
    while True:
        if c in (TRUE, FALSE):
            return out
        if c.op == 'ite':
            v, hi, lo = c.args
            if lo is FALSE:
                out.append((v, True))
                c = hi
                continue
            if hi is FALSE:
                out.append((v, False))
                c = lo
                continue
            return out
        if c.op in BOOL_ATOMS:
            out.append((c, True))
        return out


_simp_memo = {}


def simp(t):
    """prune theory-inconsistent branches of the whole term"""
    r = _simp_memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        v, hi, lo = t.args
        v2 = simp(v)
        hi2 = simp(_assume_shallow(hi, v, True))
        lo2 = simp(_assume_shallow(lo, v, False))
        r = ite(v2, hi2, lo2)
    elif not t.args or t.op in ('sym', 'num', 'str', 'bv'):
        r = t
    else:
        r = rebuild(t, simp)
    _simp_memo[t] = r
    return r


def _assume_shallow(t, atom, val):
    return restrict(t, atom, val)


# ----------------------------------------------------------------------------------- lifting
LIFT_MAX = 48


def leaves(t, lim=200):
    if t.op != 'ite':
        return 1
    n = 0
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite' and not is_bool(x):
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            n += 1
            if n > lim:
                return n
    return n


def lift(fn, *args):
    """apply fn to the leaves of the decision diagrams of its arguments"""
    n = 1
    any_ = False
    for a in args:
        if isinstance(a, T) and a.op == 'ite' and not is_bool(a):
            n *= leaves(a)
            any_ = True
    if not any_ or n > LIFT_MAX:
        return fn(*args)
    tops = [a.args[0] for a in args if isinstance(a, T) and a.op == 'ite' and not is_bool(a)]
    v = min(tops, key=lambda x: x.id)
    hi = lift(fn, *[_cofv(a, v, True) for a in args])
    lo = lift(fn, *[_cofv(a, v, False) for a in args])
    return ite(v, hi, lo)


def _cofv(a, v, val):
    if isinstance(a, T) and a.op == 'ite' and a.args[0] is v:
        return a.args[1] if val else a.args[2]
    return a


# ----------------------------------------------------------------------------------- polynomials
def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def to_poly(t):
    if t.op == 'poly':
        return {m: c for c, m in t.args[0]}
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return raw('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple((p[m], m) for m in sorted(p, key=_mono_key))
    return raw('poly', items)


def _norm_mono(c, facs):
    """merge factors {atom: exp}; returns (coef, mono) or a poly dict when expansion is needed"""
    expo = None
    out = {}
    pend = []
    for a, e in facs.items():
        if e == 0:
            continue
        if a.op == 'exp':
            x = scale(a.args[0], e)
            expo = x if expo is None else add(expo, x)
            continue
        if a.op == 'num':
            # radical of a rational
            v = a.args[0]
            ip = e.numerator // e.denominator
            fp = e - ip
            c *= v ** ip
            if fp != 0:
                out[a] = out.get(a, Fraction(0)) + fp
            continue
        if a.op == 'poly' and e.denominator == 1 and e > 0:
            pend.append((a, e))
            continue
        out[a] = out.get(a, Fraction(0)) + e
    # merge sqrt(2)*sqrt(3)-style radicals stay separate (canonical by prime factorisation at creation)
    if expo is not None:
        ex = _exp(expo)
        if ex.op == 'exp':
            out[ex] = Fraction(1)
        elif ex.op == 'num':
            c *= ex.args[0]
        else:
            pend.append((ex, Fraction(1)))
    mono = tuple(sorted(((a, e) for a, e in out.items() if e != 0), key=lambda ae: (ae[0].id, ae[1])))
    return c, mono, pend


def _mul_poly(p, q):
    res = {}
    if len(p) * len(q) > 4000:
        return None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            f = {}
            for a, e in m1:
                f[a] = f.get(a, Fraction(0)) + e
            for a, e in m2:
                f[a] = f.get(a, Fraction(0)) + e
            c, m, pend = _norm_mono(c1 * c2, f)
            if pend:
                part = {m: c}
                for a, e in pend:
                    for _ in range(int(e)):
                        part = _mul_poly(part, to_poly(a))
                for mm, cc in part.items():
                    res[mm] = res.get(mm, Fraction(0)) + cc
            else:
                res[m] = res.get(m, Fraction(0)) + c
    return {m: c for m, c in res.items() if c != 0}


def _add(a, b):
    if a is INF and b is not INF and not has_inf(b):
        return INF
    if b is INF and not has_inf(a):
        return INF
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        p[m] = p.get(m, Fraction(0)) + c
        if p[m] == 0:
            del p[m]
    return from_poly(p)


def has_inf(t):
    return t is INF or (t.op == 'poly' and any(any(a is INF for a, e in m) for c, m in t.args[0]))


def add(a, b):
    return lift(_add, a, b)


def scale(a, k):
    k = Fraction(k)
    if k == 1:
        return a
    if a.op == 'ite' and not is_bool(a):
        return ite(a.args[0], scale(a.args[1], k), scale(a.args[2], k))
    return from_poly({m: c * k for m, c in to_poly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    r = _mul_poly(to_poly(a), to_poly(b))
    if r is None:
        x, y = sorted((a, b), key=lambda t: t.id)
        return raw('bigmul', x, y)
    return from_poly(r)


def mul(a, b):
    # a 0/1 indicator times something
    if a.op == 'ite' and is_bool(a):
        a = ite(a, ONE, ZERO)
    if b.op == 'ite' and is_bool(b):
        b = ite(b, ONE, ZERO)
    return lift(_mul, a, b)


def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _rat_pow(c, e):
    """c**e for positive rational c, as (coef, [(atom, exp)])"""
    if e.denominator == 1:
        return c ** int(e), []
    coef = Fraction(1)
    rad = []
    f = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _primes(n).items():
            f[pr] = f.get(pr, 0) + s * k
    for pr, k in f.items():
        ee = e * k
        ip = ee.numerator // ee.denominator
        fp = ee - ip
        coef *= Fraction(pr) ** ip
        if fp:
            rad.append((raw('num', Fraction(pr)), fp))
    return coef, rad


def _pow(a, b):
    if b.op != 'num':
        if a.op == 'num' and a.args[0] == 1:
            return ONE
        return raw('powt', a, b)
    e = b.args[0]
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'num' and a.args[0] == 0:
        return ZERO if e > 0 else INF
    if a is INF:
        return INF if e > 0 else ZERO
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c < 0 and e.denominator != 1:
            return raw('powt', a, b)
        coef, rad = _rat_pow(abs(c), e)
        if c < 0 and e.numerator % 2:
            coef = -coef
        facs = {}
        for x, ex in m:
            if e.denominator != 1 and ex.denominator == 1 and ex.numerator % 2 == 0 and x.op not in ('exp', 'num', 'abs'):
                x = absval(x)
            facs[x] = facs.get(x, Fraction(0)) + ex * e
        for x, ex in rad:
            facs[x] = facs.get(x, Fraction(0)) + ex
        cc, mm, pend = _norm_mono(coef, facs)
        r = {mm: cc}
        for x, ex in pend:
            for _ in range(int(ex)):
                r = _mul_poly(r, to_poly(x))
        return from_poly(r)
    if e.denominator == 1 and 0 < e <= 4:
        r = {(): Fraction(1)}
        for _ in range(int(e)):
            r = _mul_poly(r, p)
            if r is None:
                return raw('powt', a, b)
        return from_poly(r)
    # sum to a non-natural power: normalise the content
    lead = max(p.keys(), key=_mono_key)
    c = abs(p[lead]) if e.denominator != 1 else p[lead]
    base = from_poly({m: v / c for m, v in p.items()})
    coef, rad = _rat_pow(abs(c), e)
    if c < 0 and e.numerator % 2:
        coef = -coef
    facs = {base: e}
    for x, ex in rad:
        facs[x] = facs.get(x, Fraction(0)) + ex
    mono = tuple(sorted(facs.items(), key=lambda ae: (ae[0].id, ae[1])))
    return from_poly({mono: coef})


def power(a, b):
    return lift(_pow, a, b)


def div(a, b):
    return mul(a, power(b, num(-1)))


def sqrt(a):
    return power(a, raw('num', Fraction(1, 2)))


def absval(a):
    def f(x):
        if x.op == 'num':
            return raw('num', abs(x.args[0]))
        if x.op in ('abs', 'exp', 'len', 'dim', 'size'):
            return x
        p = to_poly(x)
        if p:
            lead = max(p.keys(), key=_mono_key)
            c = p[lead]
            if len(p) == 1 and len(lead) == 1 and lead[0][1] == 1:
                return scale(raw('abs', lead[0][0]), abs(c))
            if c < 0:
                x = neg(x)
        return raw('abs', x)
    return lift(f, a)


def _exp(x):
    if x.op == 'num' and x.args[0] == 0:
        return ONE
    if x.op == 'log':
        return x.args[0]
    return raw('exp', x)


def exp(a):
    return lift(_exp, a)


def log(a):
    def f(x):
        if x.op == 'exp':
            return x.args[0]
        if x is ONE:
            return ZERO
        return raw('log', x)
    return lift(f, a)


def ncdf(u):
    """standard normal distribution function"""
    return lift(lambda x: raw('ncdf', x), u)


def efn(name, u):
    """a named function of every element"""
    return lift(lambda x: raw('efn', name, x), u)


def npdf(u):
    return div(exp(scale(mul(u, u), Fraction(-1, 2))), sqrt(mul(num(2), PI)))


def erfc(x):
    # erfc(x) = 2*ncdf(-x*sqrt(2))
    return scale(ncdf(neg(mul(x, sqrt(num(2))))), 2)


def minmax(op, *args):
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    other_inf = INF if op == 'min' else neg(INF)
    flat = [a for a in flat if a is not other_inf]
    nums = [a for a in flat if a.op == 'num']
    if len(nums) > 1:
        f = min if op == 'min' else max
        best = raw('num', f(a.args[0] for a in nums))
        flat = [a for a in flat if a.op != 'num'] + [best]
    flat = sorted(set(flat), key=lambda t: t.id)
    if not flat:
        return other_inf
    if len(flat) == 1:
        return flat[0]
    return raw(op, *flat)


def num_equal(a, b, limit=12):
    """equality of rational expressions: clears denominators of a - b"""
    if a is b:
        return True
    d = sub(a, b)
    for _ in range(limit):
        if d is ZERO:
            return True
        if d.op != 'poly':
            return False
        den = None
        for c, m in d.args[0]:
            for x, e in m:
                if x.op == 'poly' and e < 0 and (den is None or x is den[0] and e < den[1]):
                    den = (x, e)
        if den is None:
            return False
        res = {}
        for c, m in d.args[0]:
            f = dict(m)
            f[den[0]] = f.get(den[0], Fraction(0)) - den[1]
            c2, mm, pend = _norm_mono(c, f)
            part = {mm: c2}
            for x, e in pend:
                for _i in range(int(e)):
                    part = _mul_poly(part, to_poly(x))
            for k, v in part.items():
                res[k] = res.get(k, Fraction(0)) + v
        d = from_poly(res)
    return d is ZERO


# ----------------------------------------------------------------------------------- sequences
def mklist(items):
    return raw('list', *items)


EMPTY = mklist(())


def cat(*parts):
    """concatenation of list terms"""
    def f(*ps):
        flat = []
        for p in ps:
            if p.op == 'cat':
                flat.extend(p.args)
            else:
                flat.append(p)
        out = []
        for p in flat:
            if p.op == 'list' and not p.args:
                continue
            if out and p.op == 'list' and out[-1].op == 'list':
                out[-1] = mklist(out[-1].args + p.args)
            else:
                out.append(p)
        if not out:
            return EMPTY
        if len(out) == 1:
            return out[0]
        return raw('cat', *out)
    return lift(f, *parts)


BINDERS = {'comp', 'sum', 'exists', 'stores', 'fold', 'first', 'until', 'lam', 'prod', 'evloop', 'rmin', 'rmax', 'last', 'argbest',
           'dictcomp', 'setcomp', 'keyed'}


def binder(op, n, var, body, *extra):
    """op(n, i -> body): closes var"""
    return close(op, n, (var,), (body,) + tuple(extra))


def close(op, n, vars_, bodies):
    h = 0
    for b in bodies:
        h = max(h, _bh_any(b))
    bvs = {}
    names = []
    for j, v in enumerate(vars_):
        k = kind(v)
        bv = raw('bv', h, j, k) if k else raw('bv', h, j)
        bvs[v] = bv
        names.append(bv)
    bodies = tuple(subst_any(b, bvs) for b in bodies)
    # the substitution may have changed heights (never increases them)
    return raw(op, n, tuple(names), *bodies)


def _bh_any(b):
    if isinstance(b, T):
        return binder_height(b)
    if isinstance(b, tuple):
        return max([0] + [_bh_any(x) for x in b])
    return 0


def subst_any(b, m):
    if isinstance(b, T):
        return subst(b, m)
    if isinstance(b, tuple):
        return tuple(subst_any(x, m) for x in b)
    return b


def open_binder(t):
    """-> fresh vars, bodies"""
    names = t.args[1]
    vs = []
    m = {}
    for bv in names:
        f = fresh('o')
        if len(bv.args) > 2:
            KINDS[f] = bv.args[2]
        vs.append(f)
        m[bv] = f
    return vs, tuple(subst_any(b, m) for b in t.args[2:])


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('num', 'str', 'sym', 'bv'):
        return t
    if all(k.op == 'sym' for k in m) and not (syms(t) & set(m)):
        return t
    r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def instantiate(t, *vals):
    """bodies of binder t with its variables replaced"""
    m = dict(zip(t.args[1], vals))
    return tuple(subst_any(b, m) for b in t.args[2:])


def comp(n, var, body):
    """flat comprehension: concatenation over var in [0, n) of list term body"""
    if body is EMPTY:
        return EMPTY
    if n.op == 'num':
        k = int(n.args[0])
        if k <= 0:
            return EMPTY
        if k <= 6:
            return cat(*[subst(body, {var: num(j)}) for j in range(k)])
    # [S[i] for i in range(len(S))] = S
    if body.op == 'list' and len(body.args) == 1:
        e = body.args[0]
        if e.op == 'rows' and e.args[0].op == 'at' and e.args[0].args[1] == (var,) and kind(e.args[0].args[0]) != 'list':
            e = e.args[0]         # a row listed out: the listed matrix is the list of its listed rows
        if e.op == 'at' and e.args[1] == (var,) and n is length(e.args[0]) and kind(e.args[0]) == 'list' \
                and var not in syms(e.args[0]):
            return e.args[0]
        if e.op == 'at' and e.args[1] == (var,) and n is length(e.args[0]) and var not in syms(e.args[0]):
            return raw('rows', e.args[0])
    # flattening nested comprehension sources: [g(x) for x in [f(y) for y in S]] is handled by at()
    return binder('comp', n, var, body)


def comp_single(t):
    """if comp yields exactly one element per index: function index -> element"""
    if t.op != 'comp':
        return None
    b = t.args[2]
    if _single(b):
        return lambda k: _elem(instantiate(t, k)[0])
    return None


def _single(b):
    if b.op == 'list':
        return len(b.args) == 1
    if b.op == 'ite':
        return _single(b.args[1]) and _single(b.args[2])
    return False


def _elem(b):
    if b.op == 'list':
        return b.args[0]
    if b.op == 'ite':
        return ite(b.args[0], _elem(b.args[1]), _elem(b.args[2]))
    return raw('elem', b)


def length(t):
    if t.op == 'list' or t.op == 'tuple':
        return num(len(t.args))
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == 'cat':
        r = ZERO
        for p in t.args:
            r = add(r, length(p))
        return r
    if t.op == 'comp':
        if comp_single(t):
            return t.args[0]
        vs, (b,) = open_binder(t)
        return summ(t.args[0], vs[0], length(b))
    if t.op == 'dict':
        return num(len(t.args))
    if t.op == 'str':
        return num(len(t.args[0]))
    if t.op in ('keys', 'values', 'items', 'rows', 'sorted', 'fliplist', 'aslist'):
        return length(t.args[0])
    if t.op == 'take':   # first k elements
        return minmax('min', t.args[1], length(t.args[0]))
    if t.op == 'poly' or t.op in ('exp', 'ncdf', 'log', 'abs', 'efn'):
        pass
    if t.op == 'arr':
        return length(t.args[0])
    if t.op in ('zeros', 'ones', 'empty', 'full'):
        s = t.args[0]
        if s.op in ('tuple', 'list') and s.args:
            return s.args[0]
        if kind(s) == 'int':
            return s
    if t.op == 'store':
        return length(t.args[0])
    if t.op == 'stores':
        return length(t.args[3])
    if t.op == 'vstack':
        parts = t.args[0]
        if parts.op in ('list',):
            if all(p.op == 'as2d' and p.args[0].op == 'at' for p in parts.args):
                return num(len(parts.args))
    if t.op == 'call' and t.args[0] in ROW_BY_ROW and len(t.args[2]) >= 1:
        items = t.args[2]
        return length(dict(items).get('x', dict(items).get('X', items[0][1])))
    return raw('len', t)


# the library's own operations that answer one row for each row of their argument (each is itself an obligation)
ROW_BY_ROW = {'._expand_vector', '.zip_inputs', '.unzip_inputs'}


def summ(n, var, body):
    """sum over var in [0, n) of a number"""
    if body.op == 'ite' and not is_bool(body):
        c, a, b = body.args
        if var not in syms(c):
            return ite(c, summ(n, var, a), summ(n, var, b))
    if n.op == 'num' and n.args[0] <= 4:
        r = ZERO
        for j in range(int(n.args[0])):
            r = add(r, subst(body, {var: num(j)}))
        return r
    if body.op == 'ite':
        return binder('sum', n, var, body)
    p = to_poly(body)
    total = ZERO
    for m, c in p.items():
        dep, ind = [], []
        for a, e in m:
            (dep if var in syms(a) else ind).append((a, e))
        out = from_poly({tuple(ind): c})
        if not dep:
            total = add(total, mul(out, n))
            continue
        inner = from_poly({tuple(dep): Fraction(1)})
        if inner is var:
            # 0 + 1 + ... + n-1
            s = scale(mul(n, sub(n, ONE)), Fraction(1, 2))
        else:
            s = binder('sum', n, var, inner)
        total = add(total, mul(out, s))
    return total


def exists(n, var, cond):
    if cond is FALSE:
        return FALSE
    if var not in syms(cond):
        return b_and(cond, lt(ZERO, n))
    if n.op == 'num' and n.args[0] <= 6:
        return b_or(*[subst(cond, {var: num(j)}) for j in range(int(n.args[0]))])
    # pull out disjuncts/conjuncts not depending on var
    return binder('exists', n, var, cond)


def seq_at(s, k):
    """element k of a sequence term (python sequence semantics for literal containers)"""
    if s.op == 'ite' and not is_bool(s):
        return ite(s.args[0], seq_at(s.args[1], k), seq_at(s.args[2], k))
    if s.op in ('list', 'tuple'):
        if k.op == 'num' and k.args[0].denominator == 1:
            j = int(k.args[0])
            if -len(s.args) <= j < len(s.args):
                return s.args[j]
            return raw('undef')
    f = comp_single(s)
    if f:
        if k.op == 'num' and k.args[0] < 0:
            return f(add(s.args[0], k))
        return f(k)
    if s.op == 'cat' and k.op == 'num' and k.args[0] >= 0:
        j = int(k.args[0])
        first = s.args[0]
        if first.op == 'list':
            if j < len(first.args):
                return first.args[j]
    if s.op == 'cat' and k.op == 'num' and k.args[0] < 0:
        lastp = s.args[-1]
        if lastp.op == 'list' and -int(k.args[0]) <= len(lastp.args):
            return lastp.args[int(k.args[0])]
    if s.op == 'rows':
        s = s.args[0]
    if s.op == 'at' and kind(s.args[0]) != 'list' and plain_index(k) and all(plain_index(x) for x in s.args[1]):
        return raw('at', s.args[0], s.args[1] + (k,))
    if s.op == 'at' and len(s.args[1]) == 1 and s.args[1][0].op == 'slc' and k.op == 'num' and k.args[0] >= 0:
        lo, hi, st = s.args[1][0].args
        if st is NONE and (lo is NONE or lo.op == 'num' and lo.args[0] >= 0) and (hi is NONE or hi.op == 'num' and hi.args[0] > k.args[0] + (0 if lo is NONE else lo.args[0])):
            return seq_at(s.args[0], k if lo is NONE else add(lo, k))
    return raw('at', s, (k,))


def plain_index(x):
    return x.op in ('num', 'bv') or kind(x) == 'int'


# ----------------------------------------------------------------------------------- generic rebuild
_REBUILD = {}


def rebuild(t, f):
    """rebuild t with f applied to its children, through the smart constructors"""
    o = t.op
    if o == 'poly':
        total = ZERO
        ch = False
        new = []
        for c, m in t.args[0]:
            fs = []
            for a, e in m:
                a2 = f(a)
                if a2 is not a:
                    ch = True
                fs.append((a2, e))
            new.append((c, fs))
        if not ch:
            return t
        for c, fs in new:
            term = raw('num', c)
            for a, e in fs:
                term = mul(term, power(a, raw('num', e)))
            total = add(total, term)
        return total
    if o in BINDERS:
        # keep the bound variables, rebuild under an opened body
        n2 = f(t.args[0]) if isinstance(t.args[0], T) else t.args[0]
        vs, bodies = open_binder(t)
        nb = tuple(_map_any(b, f) for b in bodies)
        if n2 is t.args[0] and nb == bodies:
            return t
        return rebuild_binder(o, n2, vs, nb)
    args2 = tuple(_map_any(a, f) for a in t.args)
    if args2 == t.args:
        return t
    g = _REBUILD.get(o)
    if g:
        return g(*args2)
    return raw(o, *args2)


def rebuild_binder(o, n, vs, bodies):
    if o == 'comp':
        return comp(n, vs[0], bodies[0])
    if o == 'sum':
        return summ(n, vs[0], bodies[0])
    if o == 'exists':
        return exists(n, vs[0], bodies[0])
    return close(o, n, tuple(vs), bodies)


def _map_any(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_any(x, f) for x in a)
    return a


_REBUILD.update({
    'ite': ite,
    'lt0': lambda d: lift(_lt0, d),
    'eq0': lambda d: eq(d, ZERO),
    'eq': eq,
    'isnone': isnone,
    'truthy': lambda x: truth(x),
    'exp': exp, 'log': log, 'abs': absval, 'ncdf': ncdf, 'efn': efn,
    'min': lambda *a: lift(lambda *x: minmax('min', *x), *a),
    'max': lambda *a: lift(lambda *x: minmax('max', *x), *a),
    'powt': power,
    'cat': cat,
    'upd': upd,
    'len': length,
    'bigmul': mul,
})


# ----------------------------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '...'
    o = t.op
    d = depth - 1
    if o == 'num':
        return str(t.args[0])
    if o == 'str':
        return repr(t.args[0])
    if o == 'sym':
        return t.args[0]
    if o == 'bv':
        return '$%d.%d' % (t.args[0], t.args[1])
    if o in ('true', 'false', 'none', 'inf', 'pi', 'undef'):
        return o
    if o == 'poly':
        out = []
        for c, m in t.args[0]:
            f = [] if c == 1 and m else [str(c)]
            for a, e in m:
                f.append(show(a, d) + ('' if e == 1 else '^%s' % e))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if o == 'ite':
        return 'if(%s; %s; %s)' % (show(t.args[0], d), show(t.args[1], d), show(t.args[2], d))
    if o == 'lt0':
        return show(t.args[0], d) + '<0'
    if o == 'eq0':
        return show(t.args[0], d) + '==0'
    if o == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if o == 'list':
        return '[' + ', '.join(show(x, d) for x in t.args) + ']'
    if o == 'at':
        return '%s[%s]' % (show(t.args[0], d), ', '.join(show(x, d) for x in t.args[1]))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in t.args))
