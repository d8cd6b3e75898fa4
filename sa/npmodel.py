"""Meaning of numpy / scipy / builtin operations on value-graph terms (elementwise, shape-agnostic)."""
import re
from .terms import *
from . import terms as tm
from .terms import _elem, _single

BUILTINS = set('''abs all any bool callable dict dir divmod enumerate eval exec filter float format frozenset getattr globals
hasattr hash id input int isinstance issubclass iter len list locals map max min next object open ord pow print property range repr
reversed round set setattr slice sorted str sum super tuple type vars zip Exception ValueError TypeError KeyError IndexError
AttributeError RuntimeError NotImplementedError AssertionError ImportError StopIteration ZeroDivisionError ArithmeticError OSError
IOError Warning DeprecationWarning UserWarning BaseException NameError LookupError staticmethod classmethod bytes complex delattr
FileNotFoundError KeyboardInterrupt __import__ __name__ __file__ NotImplemented Ellipsis object_init'''.split())

CONSTS = {'numpy.pi': PI, 'math.pi': PI, 'numpy.inf': INF, 'numpy.Infinity': INF, 'numpy.Inf': INF, 'numpy.PINF': INF, 'math.inf': INF,
          'numpy.NINF': neg(INF), 'numpy.newaxis': NONE, 'numpy.nan': raw('nan'), 'numpy.NaN': raw('nan'), 'numpy.NAN': raw('nan'),
          'math.nan': raw('nan')}
ALIASES = {'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.random.rand': 'numpy.random.rand', 'numpy.absolute': 'numpy.abs',
           'numpy.linalg.linalg.LinAlgError': 'numpy.linalg.LinAlgError', 'numpy.product': 'numpy.prod', 'numpy.row_stack': 'numpy.vstack',
           'scipy.stats.norm': 'scipy.stats.norm', 'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log',
           'math.fabs': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.true_divide': 'numpy.divide', 'numpy.concatenate': 'numpy.concatenate',
           'numpy.float_power': 'numpy.power', 'numpy.random.random_sample': 'numpy.random.random'}


def ext_name(d):
    for a, b in (('scipy.special.', 'scipy.special.'),):
        pass
    if d in CONSTS:
        return CONSTS[d]
    return raw('ext', ALIASES.get(d, d))


FULL = raw('slc', NONE, NONE, NONE)


# ------------------------------------------------------------------------------------ indexing
def from_zero(t):
    """an integer that is never negative"""
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('len', 'dim', 'size', 'ndim', 'cols', 'bv'):
        return True
    if t.op == 'sum' and len(t.args) == 3:
        return from_zero(t.args[2])
    if t.op == 'ite':
        return from_zero(t.args[1]) and from_zero(t.args[2])
    if t.op == 'poly':
        return all(c >= 0 and all(e > 0 and from_zero(b) for b, e in m) for c, m in t.args[0])
    return False


def run_of(x):
    """the slice selecting the consecutive positions listed by x"""
    if x.op == 'asarr':
        x = x.args[0]
    if x.op != 'comp':
        return None
    f = tm.comp_single(x)
    if f is None:
        return None
    n = x.args[0]
    lo = f(ZERO)
    if lo is ZERO or not from_zero(lo) or tm.sub(f(PROBE), PROBE) is not lo:
        return None
    return raw("slc", lo, tm.add(lo, n), NONE)


PROBE = raw('sym', '?position')


def norm_idx(idx):
    out = []
    for x in idx:
        if x.op == 'slc':
            lo, hi, st = x.args
            if lo is ZERO:
                lo = NONE
            if st is ONE:
                st = NONE
            x = raw('slc', lo, hi, st)
        elif x.op == 'ellipsis':
            continue
        out.append(x)
    for j, x in enumerate(out):
        if x.op in ('asarr', 'comp') and all(y.op == 'slc' or is_index(y) for k, y in enumerate(out) if k != j):
            r = run_of(x)
            if r is not None:
                out[j] = r
    while out and out[-1] is FULL:
        out.pop()
    return tuple(out)


def compose_idx(first, then):
    """the single index equivalent to x[first][then], or None"""
    out = []
    rest = list(then)
    if any(is_bool(y) or not (is_index(y) or y.op == 'slc') for y in rest):
        return None
    for x in first:
        if x.op != 'slc':
            if not is_index(x):
                return None
            out.append(x)
            continue
        if not rest:
            out.append(x)
            continue
        y = rest.pop(0)
        lo, hi, st = x.args
        if x is FULL:
            out.append(y)
        elif st is NONE and is_index(y) and (lo is NONE or lo.op == 'num' and lo.args[0] >= 0 or kind(lo) == 'int' or lo.op == 'sym') \
                and (y.op == 'num' and y.args[0] >= 0 or tm._nonneg(y) or y.op in ('bv', 'sym')):
            out.append(y if lo is NONE else add(lo, y))
        else:
            return None
    return tuple(out) + tuple(rest)


def is_index(x):
    return x.op == 'num' or kind(x) == 'int' or x.op in ('bv',)


def at(t, idx):
    idx = norm_idx(idx)
    if not idx:
        return t
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], at(t.args[1], idx), at(t.args[2], idx))
    for j, x in enumerate(idx):
        if x.op == 'ite' and not is_bool(x):
            return ite(x.args[0], at(t, idx[:j] + (x.args[1],) + idx[j + 1:]), at(t, idx[:j] + (x.args[2],) + idx[j + 1:]))
    if idx == (NONE,):
        return as2d(t)
    if idx == (FULL, NONE):
        return col(t)
    i0 = idx[0]
    o = t.op
    if o in ('num', 'inf', 'none') :
        return raw('at', t, idx)
    if o == 'full' and len(idx) == 1:
        return t.args[1] if t.args[0].op not in ('tuple', 'list') or len(t.args[0].args) == 1 else raw('at', t, idx)
    if o == 'shape':
        if i0.op == 'num' and len(idx) == 1:
            k = int(i0.args[0])
            if k == 0:
                return length(t.args[0])
            if k in (1, -1):
                return cols(t.args[0])
    if o == 'poly' and all(is_index(x) or is_bool(x) or x.op == 'slc' for x in idx):
        # scalar multiple / shift of one array
        r = ZERO
        ok = True
        arrs = set()
        for c, m in t.args[0]:
            term = raw('num', c)
            for a, e in m:
                if is_scalar(a):
                    term = mul(term, power(a, raw('num', e)))
                else:
                    arrs.add(a)
                    term = mul(term, power(at(a, idx), raw('num', e)))
            r = add(r, term)
        if len(arrs) == 1:
            return r
    if o in ('exp', 'log', 'abs', 'ncdf', 'efn') and all(is_index(x) or is_bool(x) or x.op == 'slc' for x in idx):
        return efn(t.args[0], at(t.args[1], idx)) if o == 'efn' else {'exp': exp, 'log': log, 'abs': absval, 'ncdf': ncdf}[o](at(t.args[0], idx))
    if o == 'store':
        b, sidx, v = t.args
        if sidx == idx:
            return v
        if _disjoint(sidx, idx):
            return at(b, idx)
    if len(idx) == 1:
        if o in ('list', 'tuple', 'cat', 'comp') and is_index(i0):
            return seq_at(t, i0)
        if o == 'asarr' and is_index(i0):
            r = seq_at(t.args[0], i0)
            return asarr(r) if r.op in ('list', 'tuple', 'comp', 'cat') else r
        if o == 'as2d' and i0 is ZERO and False:
            return t.args[0]
        if o == 'rows':
            return at(t.args[0], idx)
        if o == 'dictupd' or o == 'dict':
            items = t.args if o == 'dict' else t.args[1]
            for k, v in items:
                if k is i0:
                    return v
            if o == 'dictupd' and all(eq(k, i0) is FALSE for k, v in items):
                return raw('item', t.args[0], i0)
        if i0.op == 'str' or i0.op == 'at' and i0.args[0].op == 'keys' and i0.args[0].args[0] is t:
            return raw('item', t, i0)
        if i0.op == 'slc' and o in ('list', 'cat', 'comp'):
            from .exprs import slice_list
            return slice_list(t, *i0.args)
    if o == 'asarr' and len(idx) > 1 and is_index(i0):
        return at(at(t, (i0,)), idx[1:])
    if o == 'at' and all(is_index(x) for x in t.args[1]) and all(is_index(x) or x.op == 'slc' for x in idx) and not is_seq(t.args[0]):
        return raw('at', t.args[0], norm_idx(t.args[1] + idx))
    if o == 'at' and any(x.op == 'slc' for x in t.args[1]) and not is_seq(t.args[0]):
        r = compose_idx(t.args[1], idx)
        if r is not None:
            return at(t.args[0], r)
    if o == 'vstack' and t.args[0].op == 'list':
        pass
    if o == 'T' and len(idx) == 2 and all(is_index(x) or x is FULL for x in idx):
        return at(t.args[0], (idx[1], idx[0]))
    if o == 'col' and idx == (FULL, ZERO):
        return t.args[0]
    if o == 'flat' and False:
        return t
    return raw('at', t, idx)


def is_seq(t):
    return kind(t) == 'list'


def is_scalar(a):
    if a.op == 'ite':
        return is_scalar(a.args[1]) and is_scalar(a.args[2])
    if a.op in ('asum', 'aprod', 'amax', 'amin', 'amean') and a.args[-1] is NONE:
        return True
    return kind(a) in ('num', 'int') or a.op in ('num', 'pi', 'len', 'cols', 'inf') or (a.op in ('poly', 'exp', 'log', 'ncdf', 'efn') and all(is_scalar(x) for x in _leaf(a)))


def _leaf(a):
    if a.op == 'poly':
        return subatoms(a)
    return [a.args[-1]]


def _disjoint(a, b):
    for x, y in zip(a, b):
        if is_index(x) and is_index(y) and eq(x, y) is FALSE:
            return True
    return False


def mask_of(idx):
    if len(idx) == 1 and is_bool(idx[0]) and idx[0] not in (TRUE, FALSE):
        return idx[0]
    return None


def unmask(v, m):
    """drop X[m] to X inside a value stored under the same mask"""
    def f(x):
        if x.op == 'at' and x.args[1] == (m,):
            return f(x.args[0])
        if not x.args or x.op in ('sym', 'num', 'str', 'bv'):
            return x
        return rebuild(x, f)
    return f(v)


def store(base, idx, v):
    idx = norm_idx(idx)
    if base.op == 'ite' and not is_bool(base):
        return ite(base.args[0], store(base.args[1], idx, v), store(base.args[2], idx, v))
    for j, x in enumerate(idx):
        if x.op == 'ite' and not is_bool(x):
            return ite(x.args[0], store(base, idx[:j] + (x.args[1],) + idx[j + 1:], v), store(base, idx[:j] + (x.args[2],) + idx[j + 1:], v))
    if not idx:
        return v if base.op not in ('empty', 'full') or not is_scalar(v) else raw('full', base.args[0], v)
    m = mask_of(idx)
    if m is not None:
        return ite(m, unmask(v, m), base)
    if base.op == 'dictupd' or base.op == 'dict':
        pass
    if v.op == 'at' and v.args[0] is base and v.args[1] == idx:
        return base
    if base.op == 'store':
        b, i2, v2 = base.args
        if i2 == idx:
            return store(b, idx, v)
        if _disjoint(i2, idx) and _ikey(idx) < _ikey(i2):
            return raw('store', store(b, idx, v), i2, v2)
    return raw('store', base, idx, v)


def _ikey(idx):
    return tuple((0, float(x.args[0])) if x.op == 'num' else (1, x.id) for x in idx)


# ------------------------------------------------------------------------------------ shapes
def as2d(t):
    def f(x):
        if x.op in ('as2d', 'vstack', 'col', 'reshape2', 'hstack', 'T') and x.op != 'T':
            return x
        if x.op == 'T' and x.args[0].op in ('as2d', 'vstack', 'col'):
            return x
        return raw('as2d', x)
    return lift(f, t)


def row(t):
    return as2d(t)


def col(t):
    def f(x):
        if x.op == 'flat' and x.args[0].op == 'col':
            return x.args[0]
        if x.op == 'full' and x.args[0].op not in ('tuple', 'list', 'shape'):
            return raw('full', raw('tuple', x.args[0], ONE), x.args[1])
        return raw('col', x)
    return lift(f, t)


def flat(t):
    def f(x):
        while x.op in ('as2d', 'col', 'flat', 'reshape'):
            x = x.args[0]
        return raw('flat', x)
    return lift(f, t)


def transpose(t):
    def f(x):
        if x.op == 'T':
            return x.args[0]
        if x.op in ('num', 'inf'):
            return x
        return raw('T', x)
    return lift(f, t)


def cols(t):
    def f(x):
        if x.op == 'as2d':
            return raw('cols', x)
        if x.op == 'T':
            return length(x.args[0])
        if x.op == 'col':
            return ONE
        if x.op in ('full', 'empty') and x.args[0].op in ('tuple', 'list') and len(x.args[0].args) == 2:
            return x.args[0].args[1]
        if x.op == 'store':
            return cols(x.args[0])
        if x.op == 'vstack' and x.args[0].op == 'list' and x.args[0].args:
            return cols(x.args[0].args[0])
        return raw('cols', x)
    return lift(f, t)


def dot(a, b):
    def f(x, y):
        if is_scalar(x) or is_scalar(y):
            return mul(x, y)
        cx, x = _coef(x)
        cy, y = _coef(y)
        return scale(raw('dot', x, y), cx * cy)
    return lift(f, a, b)


def _coef(x):
    """pull out the rational content of a one-term polynomial"""
    if x.op == 'poly' and len(x.args[0]) == 1:
        c, m = x.args[0][0]
        return c, scale(x, 1 / c)
    return Fraction(1), x


def asarr(l):
    """numpy array from a list term"""
    def f(x):
        if x.op in ('list', 'tuple', 'cat', 'comp') or kind(x) == 'list':
            if x.op == 'tuple':
                x = mklist(x.args)
            if x.op == 'comp' and comp_single(x):
                # array([X[i] for i in range(len(X))]) = X
                vs, (b,) = open_binder(x)
                e = _elem(b)
                if e.op == 'at' and e.args[1] == (vs[0],) and x.args[0] is length(e.args[0]) and vs[0] not in syms(e.args[0]):
                    return e.args[0]
            if x.op == 'rows':
                return x.args[0]
            return raw('asarr', x)
        if x.op == 'rows':
            return x.args[0]
        if x.op == 'range':
            from .exprs import aslist_term
            return asarr(aslist_term(x))
        return x
    return lift(f, l)


def strip2d(x):
    return x.args[0] if x.op == 'as2d' else x


def no_rows(t):
    return t.op in ('full', 'empty') and t.args[0].op == 'tuple' and t.args[0].args[0] is ZERO


def vstack(l):
    """l: list term of blocks"""
    if l.op == 'cat' or l.op == 'list':
        parts = []
        for p in (l.args if l.op == 'cat' else (l,)):
            if p.op == 'list':
                p = mklist([y for y in p.args if not no_rows(y)])
                if not p.args:
                    continue
            parts.append(p)
        if parts:
            l = cat(*parts)
    def f(x):
        parts = x.args if x.op == 'cat' else [x]
        out = []
        for p in parts:
            if p.op == 'list':
                for y in p.args:
                    y = strip2d(y)
                    if y.op == 'vstack':
                        out.append(y.args[0])
                    else:
                        out.append(mklist([y]))
            elif p.op == 'comp' and comp_single(p):
                vs, (b,) = open_binder(p)
                e = _elem(b)
                out.append(comp(p.args[0], vs[0], mklist([strip2d(e)])))
            else:
                out.append(p)
        l2 = cat(*out)
        if l2.op == 'list' and len(l2.args) == 1:
            return as2d(l2.args[0])
        return raw('vstack', l2)
    return lift(f, l)


def hstack(l):
    def f(x):
        if x.op == 'list' and len(x.args) == 1:
            return x.args[0]
        return raw('hstack', x)
    return lift(f, l)


# ------------------------------------------------------------------------------------ reductions
def reduce_(name, x, axis, keep=False):
    def f(y):
        if name == 'asum':
            if y.op == 'poly' and len(y.args[0]) > 0:
                r = ZERO
                for c, m in y.args[0]:
                    sc, ar = [], []
                    for a, e in m:
                        (sc if is_scalar(a) else ar).append((a, e))
                    if not ar and len(y.args[0]) > 1:
                        r = None
                        break
                    t = raw('num', c)
                    for a, e in sc:
                        t = mul(t, power(a, raw('num', e)))
                    z = ONE
                    for a, e in ar:
                        z = mul(z, power(a, raw('num', e)))
                    if len(y.args[0]) > 1:
                        # keep sums of several arrays together, only the common coefficient is pulled out
                        r = None
                        break
                    r = mul(t, raw('asum', z, axis))
                if r is not None:
                    return r
            if y.op == 'asarr' and axis is NONE:
                return sum_list(y.args[0])
        if name in ('amax', 'amin') and y.op == 'asarr' and y.args[0].op == 'list' and axis in (NONE, ZERO) and y.args[0].args and \
                all(is_scalar(e) for e in y.args[0].args):
            return minmax(name[1:], *y.args[0].args)
        if name == 'amin':
            y2 = neg(y)
            if y.op == 'poly' and len(y.args[0]) == 1 and y.args[0][0][0] < 0:
                return neg(reduce_('amax', y2, axis))
        if name in ('amax', 'amin') and y.op == 'poly' and len(y.args[0]) == 1 and y.args[0][0][0] < 0:
            return neg(reduce_('amin' if name == 'amax' else 'amax', neg(y), axis))
        if y.op in ('flat', 'as2d', 'col') and axis is NONE:
            return reduce_(name, y.args[0], axis)
        return raw(name, y, axis)
    r = lift(f, x)
    return kept(r, axis) if keep else r


def kept(r, axis):
    if axis is ONE:
        return col(r)
    if axis is ZERO:
        return as2d(r)
    return raw('keepdims', r)


def sum_list(l):
    if l.op == 'ite' and not is_bool(l):
        return ite(l.args[0], sum_list(l.args[1]), sum_list(l.args[2]))
    if l.op == 'list':
        r = ZERO
        for x in l.args:
            r = add(r, numof(x))
        return r
    if l.op == 'cat':
        r = ZERO
        for p in l.args:
            r = add(r, sum_list(p))
        return r
    if l.op == 'comp':
        vs, (b,) = open_binder(l)
        return summ(l.args[0], vs[0], sum_list(b))
    n = length(l)
    v = fresh('i')
    KINDS[v] = 'int'
    return summ(n, v, seq_at(l, v))


def numof(x):
    return ite(x, ONE, ZERO) if is_bool(x) else x


def any_of(x, axis=NONE):
    if x in (TRUE, FALSE):
        return x
    if x.op == 'asarr':
        x = x.args[0]
    if x.op in ('list', 'cat', 'comp', 'tuple'):
        return any_list(x)
    if x.op == 'anytrue' and x.args[1] is NONE and axis is NONE:
        return x
    if x.op == 'ite' and not is_bool(x):
        return ite(x.args[0], any_of(x.args[1], axis), any_of(x.args[2], axis))
    x = truth(x) if not is_bool(x) else x
    if x in (TRUE, FALSE):
        return x
    # array-independent conjuncts stay inside: shape unknown
    return raw('anytrue', x, axis)


def any_list(l):
    if l.op == 'ite' and not is_bool(l):
        return ite(l.args[0], any_list(l.args[1]), any_list(l.args[2]))
    if l.op in ('list', 'tuple'):
        return b_or(*[truth(x) for x in l.args])
    if l.op == 'cat':
        return b_or(*[any_list(p) for p in l.args])
    if l.op == 'comp':
        vs, (b,) = open_binder(l)
        return exists(l.args[0], vs[0], any_list(b))
    v = fresh('i')
    KINDS[v] = 'int'
    return exists(length(l), v, truth(seq_at(l, v)))


def notlist(l):
    """element-wise negation of a list of truth values"""
    if l.op == 'ite' and not is_bool(l):
        return ite(l.args[0], notlist(l.args[1]), notlist(l.args[2]))
    if l.op in ('list', 'tuple'):
        return mklist([b_not(truth(x)) for x in l.args])
    if l.op == 'cat':
        return cat(*[notlist(p) for p in l.args])
    if l.op == 'comp':
        vs, (b,) = open_binder(l)
        return comp(l.args[0], vs[0], notlist(b))
    v = fresh('i')
    KINDS[v] = 'int'
    return comp(length(l), v, mklist([b_not(truth(seq_at(l, v)))]))


def all_of(x, axis=NONE):
    if x in (TRUE, FALSE):
        return x
    if x.op == 'asarr':
        x = x.args[0]
    if x.op in ('list', 'cat', 'comp', 'tuple') or kind(x) == 'list':
        return b_not(any_list(notlist(x)))
    if x.op == 'ite' and not is_bool(x):
        return ite(x.args[0], all_of(x.args[1], axis), all_of(x.args[2], axis))
    return b_not(any_of(b_not(truth(x) if not is_bool(x) else x), axis))


def extreme_list(op, l):
    if l.op == 'ite' and not is_bool(l):
        return ite(l.args[0], extreme_list(op, l.args[1]), extreme_list(op, l.args[2]))
    if l.op in ('list', 'tuple') and l.args:
        return minmax(op, *l.args)
    if l.op == 'cat':
        parts = [extreme_list(op, p) for p in l.args]
        return lift(lambda *ps: minmax(op, *ps), *parts)
    if l.op == 'comp' and comp_single(l):
        vs, (b,) = open_binder(l)
        return binder('r' + op, l.args[0], vs[0], _elem(b))
    return raw('a' + op, asarr(l) if kind(l) == 'list' else l, NONE)


# ------------------------------------------------------------------------------------ array attributes / methods
def array_attr(I, t, name):
    if name == 'shape':
        if t.op == 'asarr' and t.args[0].op != 'list':
            return raw('shape', t)
        return raw('shape', t)
    if name == 'T':
        return transpose(t)
    if name == 'size' and t.op != 'sym':
        return raw('size', t)
    if name == 'size':
        return raw('size', t)
    if name == 'ndim':
        if t.op in ('as2d', 'vstack', 'col'):
            return num(2)
        return raw('ndim', t)
    if name == 'dtype':
        return raw('attr', t, 'dtype')
    if name == 'flat':
        return flat(t)
    return None


_RED = {'sum': 'asum', 'max': 'amax', 'min': 'amin', 'mean': 'amean', 'std': 'astd', 'var': 'avar', 'prod': 'aprod', 'ptp': 'aptp',
        'argmin': 'argmin', 'argmax': 'argmax', 'argsort': 'argsort', 'cumsum': 'acumsum', 'cumprod': 'acumprod', 'median': 'amedian',
        'nanmin': 'ananmin', 'nanmax': 'ananmax'}


def _arg(args, kwargs, k, name, default=NONE):
    if k < len(args):
        return args[k]
    return kwargs.get(name, default)


def array_method(I, b, t, name, args, kwargs, node):
    fa = [I.fz(a) for a in args]
    kw = {k: I.fz(v) for k, v in kwargs.items()}
    if t.op == 'ite' and not is_bool(t) and name not in ('sort', 'fill'):
        x = array_method(I, t.args[1], t.args[1], name, args, kwargs, node)
        y = array_method(I, t.args[2], t.args[2], name, args, kwargs, node)
        if x is None or y is None:
            return None
        return ite(t.args[0], I.fz(x), I.fz(y))
    if name in ('flatten', 'ravel') :
        return flat(t)
    if name == 'copy':
        return I.alloc(_cell('val', t))
    if name == 'astype' or name == 'view':
        ty = fa[0] if fa else NONE
        if ty.op == 'ext' and ty.args[0] in ('builtins.float', 'numpy.float64'):
            return I.alloc(_cell('val', t))
        if ty.op == 'ext' and ty.args[0] in ('builtins.int', 'numpy.int64'):
            return raw('int', t)
        return I.alloc(_cell('val', raw('astype', t, ty)))
    if name == 'tolist':
        return I.new_list(rowslist(t))
    if name == 'reshape':
        return reshape(t, fa)
    if name in ('squeeze',):
        return raw('squeeze', t)
    if name == 'item':
        return number_of(t) if not fa else at(t, tuple(fa))
    if name in ('transpose',) and not fa:
        return transpose(t)
    if name == 'dot' and len(fa) == 1:
        return dot(t, fa[0])
    if name == 'any':
        return any_of(t, _arg(fa, kw, 0, 'axis'))
    if name == 'all':
        return all_of(t, _arg(fa, kw, 0, 'axis'))
    if name == 'argsort':
        kw.pop('kind', None)         # any of them sorts
    if name in _RED and not (set(kw) - {'axis', 'keepdims'}):
        return red(name, t, _arg(fa, kw, 0, 'axis'), kw.get('keepdims', FALSE))
    if name == 'clip' and len(fa) == 2:
        return clip(t, fa[0], fa[1])
    if name == 'fill' and b.op == 'ref':
        c = I.cell(b)
        I.mutated(b, node)
        I.set_cell(b, c.with_(data=raw('full', raw('shape', t), fa[0])))
        return NONE
    if name == 'sort' and b.op == 'ref':
        c = I.cell(b)
        I.mutated(b, node)
        I.set_cell(b, c.with_(data=raw('asort', t)))
        return NONE
    return None


def _cell(kind_, data):
    from .interp import Cell
    return Cell(kind_, data)


def rowslist(t):
    if t.op == 'asarr':
        return t.args[0]
    if kind(t) == 'list':
        return t
    return raw('rows', t)


def reshape(t, fa):
    shp = fa[0] if len(fa) == 1 else raw('tuple', *fa)
    if shp.op == 'list':
        shp = raw('tuple', *shp.args)
    if shp.op == 'num' or (shp.op == 'tuple' and len(shp.args) == 1):
        return flat(t)
    if shp.op == 'tuple' and len(shp.args) == 2 and shp.args[1] is ONE:
        return col(flat(t)) if shp.args[0] is num(-1) or shp.args[0] is length(t) else raw('reshape', t, shp)
    if shp.op == 'tuple' and len(shp.args) == 2 and shp.args[0] is ONE and shp.args[1] is num(-1):
        return as2d(flat(t))
    return raw('reshape', t, shp)


def shifted(n, y):
    """y = array + numbers: the numbers come out of a location statistic and do not affect a spread"""
    if y.op != 'poly' or len(y.args[0]) < 2:
        return None

    def number(a):
        return is_scalar(a) or a.op in ('amean', 'amax', 'amin', 'astd', 'asum', 'aptp', 'avar', 'amedian') and a.args[1] is NONE
    out, rest = [], []
    for c, m in y.args[0]:
        (out if all(number(a) for a, e in m) else rest).append((c, m))
    if not out or not rest:
        return None

    def build(ms):
        r = ZERO
        for c, m in ms:
            t = raw('num', c)
            for a, e in m:
                t = mul(t, power(a, raw('num', e)))
            r = add(r, t)
        return r
    return build(out) if n in ('amean', 'amax', 'amin') else ZERO, build(rest)


def red(name, t, axis, keep):
    n = _RED[name]
    if axis is NONE and n in ('amean', 'amax', 'amin', 'astd', 'avar', 'aptp') and t.op == 'poly':
        q = shifted(n, t)
        if q is not None:
            return add(q[0], red(name, q[1], axis, keep)) if q[0] is not ZERO else red(name, q[1], axis, keep)
    if n in ('asum', 'amax', 'amin'):
        return reduce_(n, t, axis, keep is TRUE)
    if n in ('argmin', 'argmax'):
        def f(y):
            if y.op == 'poly' and len(y.args[0]) == 1 and y.args[0][0][0] < 0:
                return raw('argmax' if n == 'argmin' else 'argmin', neg(y), axis)
            if y.op in ('flat', 'as2d', 'col') and axis is NONE:
                return f(y.args[0])
            return raw(n, y, axis)
        return lift(f, t)
    r = lift(lambda y: raw(n, y, axis), t)
    return kept(r, axis) if keep is TRUE else r


def clip(x, lo, hi):
    r = x
    if lo is not NONE:
        r = lift(lambda a, b: minmax('max', a, b), r, lo)
    if hi is not NONE:
        r = lift(lambda a, b: minmax('min', a, b), r, hi)
    return r


# ------------------------------------------------------------------------------------ containers
def container_method(I, b, c, name, args, kwargs, node):
    from .interp import Cell
    if c is None:
        c = I.cell(b)
    if c.kind == 'list':
        d = c.data
        if name == 'append':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=cat(d, mklist([I.box(args[0])]))))
            return NONE
        if name == 'extend':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=cat(d, I.as_list(args[0]))))
            return NONE
        if name == 'insert':
            k = I.fz(args[0])
            I.mutated(b, node)
            if k is ZERO:
                I.set_cell(b, c.with_(data=cat(mklist([I.box(args[1])]), d)))
            else:
                I.set_cell(b, c.with_(data=raw('linsert', I.fz(d), k, I.fz(args[1]))))
            return NONE
        if name == 'copy':
            return I.new_list(d)
        if name == 'pop':
            I.mutated(b, node)
            k = I.fz(args[0]) if args else num(-1)
            if d.op == 'list' and k.op == 'num' and -len(d.args) <= int(k.args[0]) < len(d.args):
                items = list(d.args)
                r = items.pop(int(k.args[0]))
                I.set_cell(b, c.with_(data=mklist(items)))
                return r
            f = I.fz(d)
            I.set_cell(b, c.with_(data=raw('lpop', f, k)))
            return I.elem(seq_at(f, k), f)
        if name == 'clear':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=EMPTY))
            return NONE
        if name == 'index':
            return raw('lindex', I.fz(d), I.fz(args[0]))
        if name == 'count':
            return raw('lcount', I.fz(d), I.fz(args[0]))
        if name == 'sort':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=raw('sorted', I.fz(d), I.fz(kwargs.get('key', NONE)), I.fz(kwargs.get('reverse', FALSE)))))
            return NONE
        if name == 'reverse':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=revlist(I.fz(d))))
            return NONE
        if name == 'remove':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=raw('lremove', I.fz(d), I.fz(args[0]))))
            return NONE
        return I.ext_method(b, name, args, kwargs, node)
    if c.kind == 'dict':
        if name == 'get':
            key = I.fz(args[0])
            dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            return I.dict_get(c, key, lambda: dflt)
        if name == 'keys':
            return I.new_list(I.dict_keys(c))
        if name == 'items':
            return raw('items', b)
        if name == 'values':
            return raw('values', b)
        if name == 'copy':
            return I.alloc(Cell('dict', c.data, base=c.base))
        if name == 'update':
            I.mutated(b, node)
            new = dict(c.data)
            base = c.base
            for a in args:
                if a.op == 'ref' and I.cell(a).kind == 'dict':
                    ac = I.cell(a)
                    if ac.base is not None:
                        base = raw('dictmerge', base, ac.base) if base is not None else ac.base
                    for k, v in ac.data:
                        new.pop(k, None)
                        new[k] = v
                else:
                    base = raw('dictmerge', base if base is not None else raw('dict'), I.fz(a))
            for k, v in kwargs.items():
                new[string(k)] = I.box(v)
            I.set_cell(b, c.with_(data=tuple(new.items()), base=base))
            return NONE
        if name == 'setdefault':
            key = I.fz(args[0])
            dv = I.box(args[1]) if len(args) > 1 else NONE
            r = I.dict_get(c, key, lambda: dv)
            I.set_item(b, (key,), r, node)
            return r
        if name == 'pop':
            key = I.fz(args[0])
            r = I.dict_get(c, key, (lambda: args[1]) if len(args) > 1 else None)
            I.mutated(b, node)
            c = I.cell(b)
            I.set_cell(b, c.with_(data=tuple((k, v) for k, v in c.data if k is not key), base=raw('without', c.base, key) if c.base is not None else None))
            return r
        return I.ext_method(b, name, args, kwargs, node)
    if c.kind == 'set':
        if name == 'add':
            I.mutated(b, node)
            I.set_cell(b, c.with_(data=cat(c.data, mklist([I.box(args[0])]))))
            return NONE
        if name == 'update':
            I.mutated(b, node)
            d = c.data
            for a in args:
                d = cat(d, I.as_list(a, True))
            I.set_cell(b, c.with_(data=d))
            return NONE
        if name == 'union':
            d = c.data
            for a in args:
                d = cat(d, I.as_list(a, True))
            return I.alloc(Cell('set', d))
        if name == 'copy':
            return I.alloc(Cell('set', c.data))
        if name in ('difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint'):
            r = raw('set' + {'difference': 'sub', 'intersection': 'and'}.get(name, name), I.fz(b), I.fz(args[0]))
            return r
        return I.ext_method(b, name, args, kwargs, node)
    return I.ext_method(b, name, args, kwargs, node)


def revlist(d):
    if d.op == 'list':
        return mklist(d.args[::-1])
    if d.op == 'fliplist':
        return d.args[0]
    return raw('fliplist', d)


def str_method(I, t, name, args, kwargs):
    from .exprs import str_format, strcat, tostr
    if name == 'format' and t.op == 'str':
        return str_format(t.args[0], args, kwargs)
    if name == 'join' and args:
        l = args[0]
        if l.op in ('list', 'tuple'):
            out = []
            for j, x in enumerate(l.args):
                if j:
                    out.append(t)
                out.append(tostr(x))
            return strcat(*out)
        return raw('join', t, l)
    if t.op == 'str' and all(a.op == 'str' for a in args) and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace'):
        r = getattr(t.args[0], name)(*[a.args[0] for a in args])
        if isinstance(r, list):
            return I.new_list(mklist([string(x) for x in r]))
        return const(r)
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'encode', 'zfill'):
        r = lift(lambda *x: raw('smeth', name, *x), t, *args)
        KINDS[r] = 'str'
        return r
    if name in ('split',):
        r = raw('smeth', name, t, *args)
        KINDS[r] = 'list'
        return r
    if name in ('startswith', 'endswith', 'isdigit'):
        return raw('truthy', raw('smeth', name, t, *args))
    return None


def code_text(t):
    """program text given as a literal prefix followed by computed text -> (normalised prefix, rest)"""
    if t.op == 'strcat' and t.args and t.args[0].op == 'str':
        head, rest = t.args[0].args[0], t.args[1:]
    elif t.op == 'str':
        head, rest = t.args[0], ()
    else:
        return None
    head = re.sub(r'\s+', ' ', head.strip())
    head = re.sub(r' ?([=:,()]) ?', r'\1', head)
    return head, rest


def bind_sig(sig, fa, kw):
    """sig: ((name, default or None), ...) -> canonical items or None"""
    out = {}
    names = [s[0] for s in sig]
    if len(fa) > len(names):
        return None
    for n, v in zip(names, fa):
        out[n] = v
    extra = []
    for k, v in kw.items():
        if k == 'Xnew' and 'X' in names:
            k = 'X'
        if k in out:
            return None
        if k in names:
            out[k] = v
        else:
            extra.append((k, v))
    items = []
    for n, d in sig:
        if n in out and out[n] is not d:
            items.append((n, out[n]))
    return tuple(items) + tuple(sorted(extra, key=lambda kv: kv[0]))


# ------------------------------------------------------------------------------------ functions
NP = {}


def npf(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def _simple(name, fn, n):
    def f(I, a, kw, node):
        if kw or len(a) != n:
            return None
        return fn(*a)
    NP[name] = f


for _n in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsin', 'arccos', 'floor', 'ceil', 'sign', 'cbrt'):
    _simple('numpy.' + _n, lambda x, n=_n: efn(n, x), 1)
    if _n not in ('sign', 'cbrt', 'floor', 'ceil', 'arctan', 'arcsin', 'arccos'):
        _simple('math.' + _n, lambda x, n=_n: efn(n, x), 1)
for _n, _f in (('numpy.exp', exp), ('numpy.log', log), ('numpy.sqrt', sqrt), ('numpy.abs', absval), ('builtins.abs', absval),
               ('numpy.square', lambda x: mul(x, x)), ('numpy.negative', neg),
               ('scipy.special.erfc', erfc), ('scipy.special.erf', lambda x: sub(ONE, erfc(x))), ('scipy.stats.norm.cdf', ncdf),
               ('scipy.special.ndtr', ncdf), ('scipy.stats.norm.pdf', npdf), ('scipy.stats.norm.logcdf', lambda x: log(ncdf(x))),
               ('scipy.special.log_ndtr', lambda x: log(ncdf(x))), ('math.erfc', erfc), ('math.erf', lambda x: sub(ONE, erfc(x))),
               ('scipy.stats.norm.logpdf', lambda x: log(npdf(x))),
               ('numpy.log1p', lambda x: log(add(ONE, x))), ('math.log1p', lambda x: log(add(ONE, x))), ('numpy.expm1', lambda x: sub(exp(x), ONE)),
               ('numpy.reciprocal', lambda x: div(ONE, x))):
    _simple(_n, _f, 1)
for _n, _f in (('numpy.multiply', mul), ('numpy.add', add), ('numpy.subtract', sub), ('numpy.divide', div), ('numpy.power', power),
               ('builtins.pow', power), ('numpy.dot', dot), ('numpy.matmul', dot),
               ('numpy.less', lt), ('numpy.less_equal', le), ('numpy.greater', lambda a, b: lt(b, a)), ('numpy.greater_equal', lambda a, b: le(b, a)),
               ('numpy.equal', eq), ('numpy.not_equal', lambda a, b: b_not(eq(a, b))),
               ('numpy.logical_and', lambda a, b: b_and(a, b)), ('numpy.logical_or', lambda a, b: b_or(a, b)),
               ('numpy.maximum', lambda a, b: lift(lambda x, y: minmax('max', x, y), a, b)),
               ('numpy.minimum', lambda a, b: lift(lambda x, y: minmax('min', x, y), a, b)),
               ('numpy.fmax', lambda a, b: lift(lambda x, y: minmax('max', x, y), a, b)),
               ('numpy.fmin', lambda a, b: lift(lambda x, y: minmax('min', x, y), a, b)),
               ('numpy.mod', lambda a, b: lift(lambda x, y: raw('rem', x, y), a, b)),
               ('numpy.outer', lambda a, b: raw('outer', a, b)),
               ):
    _simple(_n, _f, 2)
_simple('numpy.logical_not', b_not, 1)
_simple('numpy.isinf', lambda x: lift(lambda y: TRUE if y is INF else FALSE if y.op == 'num' else raw('isfin', 'inf', y), x), 1)
_simple('numpy.isnan', lambda x: lift(lambda y: FALSE if y.op == 'num' else raw('isfin', 'nan', y), x), 1)
_simple('numpy.isfinite', lambda x: lift(lambda y: TRUE if y.op == 'num' else raw('isfin', 'fin', y), x), 1)
_simple('numpy.shape', lambda x: raw('shape', x), 1)
_simple('numpy.ndim', lambda x: raw('ndim', x), 1)
_simple('numpy.size', lambda x: raw('size', x), 1)
_simple('numpy.ravel', flat, 1)
_simple('numpy.transpose', transpose, 1)
_simple('numpy.squeeze', lambda x: raw('squeeze', x), 1)


@npf('numpy.copy', 'copy.deepcopy', 'copy.copy')
def _(I, a, kw, node):
    return a[0] if not kw and len(a) == 1 else None


@npf('numpy.array_split', 'numpy.split')
def _(I, a, kw, node):
    if len(a) < 2 or kw or not (kind(a[1]) == 'int' or a[1].op in ('num', 'attr', 'sym')):
        return None
    n, ln = a[1], length(a[0])
    q, r = raw('floordiv', ln, n), raw('rem', ln, n)
    k = fresh('i')
    KINDS[k] = 'int'
    KINDS[q] = KINDS[r] = 'int'
    lo = add(mul(k, q), minmax('min', k, r))
    hi = add(mul(add(k, ONE), q), minmax('min', add(k, ONE), r))
    return comp(n, k, mklist([at(a[0], (raw('slc', lo, hi, NONE),))]))


@npf('numpy.flip', 'numpy.flipud')
def _(I, a, kw, node):
    return at(a[0], (raw('slc', NONE, NONE, num(-1)),)) if len(a) == 1 and not kw else None


@npf('numpy.sort')
def _(I, a, kw, node):
    return raw('asort', asarr(a[0])) if len(a) == 1 and not (set(kw) - {'kind'}) else None


def close(a, kw):
    if not 2 <= len(a) <= 4 or set(kw) - {'rtol', 'atol'}:
        return None
    rtol = a[2] if len(a) > 2 else kw.get('rtol', num(Fraction(1, 10 ** 5)))
    atol = a[3] if len(a) > 3 else kw.get('atol', num(Fraction(1, 10 ** 8)))
    return le(absval(add(asarr(a[0]), neg(asarr(a[1])))), add(atol, mul(rtol, absval(asarr(a[1])))))


@npf('numpy.isclose')
def _(I, a, kw, node):
    return close(a, kw)


@npf('math.isclose')
def _(I, a, kw, node):
    if len(a) != 2 or set(kw) - {'rel_tol', 'abs_tol'}:
        return None
    m = mul(kw.get('rel_tol', num(Fraction(1, 10 ** 9))), minmax('max', absval(a[0]), absval(a[1])))
    return le(absval(add(a[0], neg(a[1]))), minmax('max', m, kw.get('abs_tol', ZERO)))


@npf('numpy.allclose')
def _(I, a, kw, node):
    c = close(a, kw)
    return None if c is None else all_of(c)


@npf('numpy.linalg.norm')
def _(I, a, kw, node):
    if len(a) != 1 or set(kw) - {'axis'}:
        return None
    x = asarr(a[0])
    return sqrt(reduce_('asum', mul(x, x), kw.get('axis', NONE)))


@npf('numpy.minimum.accumulate')
def _(I, a, kw, node):
    return raw('accmin', a[0]) if len(a) == 1 and not kw else None


@npf('numpy.maximum.accumulate')
def _(I, a, kw, node):
    return raw('accmax', a[0]) if len(a) == 1 and not kw else None


@npf('numpy.zeros')
def _(I, a, kw, node):
    sh = the_shape(a, kw)
    return raw('full', shp(sh), ZERO) if sh is not None else None


@npf('numpy.ones')
def _(I, a, kw, node):
    sh = the_shape(a, kw)
    return raw('full', shp(sh), ONE) if sh is not None else None


@npf('numpy.full')
def _(I, a, kw, node):
    return raw('full', shp(a[0]), a[1]) if len(a) == 2 and not kw else None


@npf('numpy.empty')
def _(I, a, kw, node):
    sh = the_shape(a, kw)
    return raw('empty', shp(sh)) if sh is not None else None


def the_shape(a, kw):
    k = {x: v for x, v in kw.items() if not (x == 'dtype' and v.op == 'ext' and v.args[0] in ('builtins.float', 'numpy.float64'))}
    if len(a) == 1 and not k:
        return a[0]
    if not a and set(k) == {'shape'}:
        return k['shape']
    return None


def shp(s):
    if s.op == 'list':
        return raw('tuple', *s.args)
    if s.op == 'tuple' and len(s.args) == 1:
        return s.args[0]
    if s.op == 'shape' and False:
        return s
    return s


@npf('numpy.zeros_like')
def _(I, a, kw, node):
    return raw('full', raw('shape', a[0]), ZERO) if len(a) == 1 and not kw else None


@npf('numpy.ones_like')
def _(I, a, kw, node):
    return raw('full', raw('shape', a[0]), ONE) if len(a) == 1 and not kw else None


@npf('numpy.clip')
def _(I, a, kw, node):
    lo = _arg(a, kw, 1, 'a_min')
    hi = _arg(a, kw, 2, 'a_max')
    return clip(a[0], lo, hi)


@npf('numpy.where')
def _(I, a, kw, node):
    if len(a) == 3:
        return ite(truth(a[0]), a[1], a[2])
    return None


@npf('numpy.any')
def _(I, a, kw, node):
    return any_of(a[0], _arg(a, kw, 1, 'axis'))


@npf('numpy.all')
def _(I, a, kw, node):
    return all_of(a[0], _arg(a, kw, 1, 'axis'))


@npf('numpy.vstack')
def _(I, a, kw, node):
    return vstack(tolist(a[0]))


@npf('numpy.concatenate')
def _(I, a, kw, node):
    ax = _arg(a, kw, 1, 'axis', ZERO)
    if ax is ONE:
        return hstack(tolist(a[0]))
    return raw('concat', tolist(a[0]))


@npf('numpy.hstack', 'numpy.column_stack')
def _(I, a, kw, node):
    return hstack(tolist(a[0]))


@npf('numpy.append')
def _(I, a, kw, node):
    ax = _arg(a, kw, 2, 'axis')
    if ax is ZERO:
        return vstack(mklist([a[0], a[1]]))
    return None


def tolist(t):
    if t.op == 'tuple':
        return mklist(t.args)
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], tolist(t.args[1]), tolist(t.args[2]))
    if t.op == 'asarr':
        return t.args[0]
    return t


@npf('numpy.dot')
def _(I, a, kw, node):
    return dot(a[0], a[1])


@npf('numpy.reshape')
def _(I, a, kw, node):
    return reshape(a[0], list(a[1:]) or [kw.get('newshape', NONE)])


for _n in _RED:
    def _mk(n):
        def f(I, a, kw, node):
            if n == 'argsort':
                kw = {k: v for k, v in kw.items() if k != 'kind'}
            if set(kw) - {'axis', 'keepdims'} or len(a) > 2:
                return None
            return red(n, asarr(a[0]), _arg(a, kw, 1, 'axis'), kw.get('keepdims', FALSE))
        return f
    NP['numpy.' + _n] = _mk(_n)


@npf('numpy.arange')
def _(I, a, kw, node):
    from .exprs import aslist_term
    if len(a) == 1 and not kw:
        return asarr(aslist_term(raw('range', ZERO, a[0], ONE)))
    if len(a) in (2, 3) and not kw and (len(a) == 2 or a[2].op == 'num' and a[2].args[0].denominator == 1 and a[2].args[0] != 0):
        r = BF['builtins.range'](I, a, kw, node)
        if r.op == 'range':
            return asarr(aslist_term(r))
    return None


@npf('numpy.expand_dims')
def _(I, a, kw, node):
    ax = _arg(a, kw, 1, 'axis')
    if ax is ZERO:
        return as2d(a[0])
    if ax in (ONE, num(-1)):
        return col(a[0])
    return None


@npf('numpy.float64', 'builtins.float', 'numpy.float')
def _(I, a, kw, node):
    if not a:
        return ZERO
    x = a[0]
    if x.op == 'str':
        v = x.args[0].lower().lstrip('+')
        if v == 'inf':
            return INF
        if v == '-inf':
            return neg(INF)
        return None
    if is_bool(x):
        return ite(x, ONE, ZERO)
    return number_of(x)


def number_of(x):
    """the Python number in a value of one element"""
    return lift(lambda y: raw('float', y) if y.op in ('attr', 'sym', 'call', 'item') and kind(y) not in ('num', 'int') else y, x)


@npf('builtins.int', 'numpy.int64', 'numpy.int')
def _(I, a, kw, node):
    if not a:
        return ZERO
    if is_bool(a[0]):
        return ite(a[0], ONE, ZERO)
    return lift(lambda y: y if kind(y) == 'int' else raw('int', y), a[0])


@npf('builtins.bool')
def _(I, a, kw, node):
    return truth(a[0]) if a else FALSE


# builtins working on values (not frozen): name -> fn(I, args, kwargs, node)
BF = {}


def bf(*names):
    def deco(f):
        for n in names:
            BF['builtins.' + n if '.' not in n else n] = f
        return f
    return deco


@bf('builtins.dict.fromkeys')
def _(I, a, kw, node):
    if kw or len(a) not in (1, 2):
        return None
    l = I.as_list(a[0])
    if l.op != 'list' or any(x.op == 'splice' for x in l.args):
        return None
    v = a[1] if len(a) > 1 else NONE
    from .interp import Cell
    out = {}
    for x in l.args:
        out[I.fz(x)] = v
    return I.alloc(Cell('dict', tuple(out.items())))


@bf('len')
def _(I, a, kw, node):
    v = a[0]
    if v.op == 'ite' and has_ref2(v):
        return I.fork(v.args[0], lambda: BF['builtins.len'](I, [v.args[1]], kw, node), lambda: BF['builtins.len'](I, [v.args[2]], kw, node))
    if v.op == 'ref':
        c = I.cell(v)
        if c.kind == 'list':
            return length(c.data)
        if c.kind == 'obj':
            cl = I.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
            m = I.p.find_method(cl, '__len__') if cl is not None else None
            if m is not None:
                return I.call_fun(I.fun_value(m), [], {}, node, recv=v)
        if c.kind == 'dict' and c.base is None:
            return num(len(c.data))
    return length(I.fz(v))


def has_ref2(t):
    return has_op(t, 'ref')


@bf('range', 'xrange')
def _(I, a, kw, node):
    fa = [I.fz(x) for x in a]
    lo, hi, st = ZERO, None, ONE
    if len(fa) == 1:
        hi = fa[0]
    elif len(fa) == 2:
        lo, hi = fa
    else:
        lo, hi, st = fa
    if st is ONE:
        n = sub(hi, lo)
    elif st.op == 'num' and st.args[0] < 0:
        return raw('range', lo, sub(lo, hi), st) if st is num(-1) else raw('range', lo, raw('rangelen', lo, hi, st), st)
    else:
        if lo.op == hi.op == st.op == 'num':
            return raw('range', lo, num(len(range(int(lo.args[0]), int(hi.args[0]), int(st.args[0])))), st)
        n = raw('rangelen', lo, hi, st)
    if n.op == 'num' and n.args[0] < 0:
        n = ZERO
    return raw('range', lo, n, st)


@bf('enumerate')
def _(I, a, kw, node):
    return raw('enum', a[0], I.fz(a[1]) if len(a) > 1 else I.fz(kw.get('start', ZERO)))


@bf('zip')
def _(I, a, kw, node):
    return raw('zip', *a)


@bf('reversed')
def _(I, a, kw, node):
    return raw('reversed', a[0])


@bf('iter')
def _(I, a, kw, node):
    return a[0]


@bf('list')
def _(I, a, kw, node):
    if not a:
        return I.new_list(EMPTY)
    return I.new_list(listing(I, a[0], node))


def listing(I, v, node=None, adds=False):
    """list term of any iterable value"""
    if v.op == 'ite':
        return ite(v.args[0], listing(I, v.args[1], node, adds), listing(I, v.args[2], node, adds))
    if v.op in ('zip', 'enum', 'items', 'values', 'reversed', 'filter', 'map'):
        r = I.iter_of(v)
        if r[0] == 'items':
            return mklist(r[1])
        i = fresh('i')
        KINDS[i] = 'int'
        e = r[1](i)
        return comp(r[0], i, mklist([I.fz(e)]))
    return I.as_list(v, adds)


@bf('tuple')
def _(I, a, kw, node):
    if not a:
        return raw('tuple')
    l = listing(I, a[0], node)
    if l.op == 'list':
        return raw('tuple', *l.args)
    return I.fz(l)


@bf('set', 'frozenset')
def _(I, a, kw, node):
    from .interp import Cell
    return I.alloc(Cell('set', listing(I, a[0], adds=True) if a else EMPTY))


@bf('dict', 'collections.OrderedDict')
def _(I, a, kw, node):
    from .interp import Cell
    items = []
    base = None
    if a:
        v = a[0]
        if v.op == 'ref' and I.cell(v).kind == 'dict':
            items = list(I.cell(v).data)
            base = I.cell(v).base
        elif v.op == 'zip' or (v.op == 'ref' and I.cell(v).kind == 'list'):
            l = listing(I, v)
            if l.op == 'list' and all(x.op == 'tuple' and len(x.args) == 2 for x in l.args):
                items = [(I.fz(x.args[0]), I.box(x.args[1])) for x in l.args]
            else:
                base = raw('dictof', I.fz(l))
        else:
            base = I.fz(v)
            if base.op in ('list', 'tuple') and all(x.op in ('tuple', 'list') and len(x.args) == 2 for x in base.args):
                items, base = [(x.args[0], I.box(x.args[1])) for x in base.args], None
    d = dict(items)
    for k, v in kw.items():
        if k == '**':
            base = I.fz(v)
        else:
            d[string(k)] = I.box(v)
    return I.alloc(Cell('dict', tuple(d.items()), base=base))


@bf('map')
def _(I, a, kw, node):
    if len(a) != 2:
        return I.top('map', node)
    f = a[0]
    return I.new_list(map_list(I, f, a[1], node))


def map_list(I, f, v, node, filt=False):
    r = I.iter_of(v)
    if r[0] == 'items':
        if filt:
            return cat(*[ite(I.truth_of(I.call(f, [x], {}, node)), mklist([x]), EMPTY) for x in r[1]])
        return mklist([I.box(I.call(f, [x], {}, node)) for x in r[1]])
    i = fresh('i')
    KINDS[i] = 'int'
    x = r[1](i)
    y = I.call(f, [x], {}, node)
    if filt:
        return comp(r[0], i, ite(I.truth_of(y), mklist([I.fz(x)]), EMPTY))
    return comp(r[0], i, mklist([I.fz(y)]))


@bf('filter')
def _(I, a, kw, node):
    return I.new_list(map_list(I, a[0], a[1], node, True))


@bf('sorted')
def _(I, a, kw, node):
    l = I.fz(listing(I, a[0]))
    if a[0].op == 'ref' and I.cell(a[0]).kind == 'set':
        l = I.fz(a[0])
    if l.op == 'list' and all(x.op == 'str' for x in l.args) and not kw:
        return I.new_list(mklist(sorted(l.args, key=lambda t: t.args[0])))
    if l.op == 'list' and all(x.op == 'num' for x in l.args) and not kw:
        return I.new_list(mklist(sorted(l.args, key=lambda t: t.args[0])))
    return I.new_list(raw('sorted', l, I.fz(kw.get('key', NONE)), truth(I.fz(kw.get('reverse', FALSE)))))


@bf('any')
def _(I, a, kw, node):
    return any_of(I.fz(listing(I, a[0], adds=True)) if not is_arr(I, a[0]) else I.fz(a[0]))


@bf('all')
def _(I, a, kw, node):
    return all_of(I.fz(listing(I, a[0], adds=True)) if not is_arr(I, a[0]) else I.fz(a[0]))


def is_arr(I, v):
    return v.op == 'ref' and I.cell(v).kind == 'val' and I.fz(v).op not in ('asarr',)


@bf('sum')
def _(I, a, kw, node):
    start = I.fz(a[1]) if len(a) > 1 else I.fz(kw.get('start', ZERO))
    l = listing(I, a[0])
    if start is not ZERO and (start.op in ('list',) or kind(start) == 'list'):
        # list concatenation
        l = I.fz(l)
        if l.op == 'comp':
            vs, (b,) = open_binder(l)
            if _single(b):
                e = _elem(b)
                return I.new_list(cat(start, comp(l.args[0], vs[0], I.as_list(e))))
        if l.op == 'list':
            return I.new_list(cat(start, *[I.as_list(x) for x in l.args]))
        v = fresh('i')
        KINDS[v] = 'int'
        e = seq_at(l, v)
        KINDS[e] = 'list'
        return I.new_list(cat(start, comp(length(l), v, e)))
    return add(start, sum_list(I.fz(l)))


def _mm(op):
    def f(I, a, kw, node):
        if 'key' in kw:
            l = I.fz(listing(I, a[0])) if len(a) == 1 else mklist([I.fz(x) for x in a])
            k = kw['key']
            r = raw('arg' + op + 'key', l, I.fz(k), I.fz(kw.get('default', UNDEF)))
            return I.elem(r, l)
        if len(a) == 1:
            l = I.fz(listing(I, a[0]))
            if l.op == 'rows' or l.op == 'aslist':
                return raw('a' + op, l.args[0], ZERO)
            return extreme_list(op, l)
        fa = [I.fz(x) for x in a]
        return lift(lambda *x: minmax(op, *x), *fa)
    return f


BF['builtins.min'] = _mm('min')
BF['builtins.max'] = _mm('max')


@bf('str')
def _(I, a, kw, node):
    from .exprs import tostr
    return tostr(I.fz(a[0])) if a else string('')


@bf('repr')
def _(I, a, kw, node):
    return raw('repr', I.fz(a[0]))


@bf('warnings.warn', 'logging.warning')
def _(I, a, kw, node):
    return NONE


@bf('print')
def _(I, a, kw, node):
    from .exprs import strcat, tostr
    h = kw.get('file')
    if h is not None and I.fz(h).op == 'file':
        sep = I.fz(kw['sep']) if 'sep' in kw else string(' ')
        out = []
        for j, x in enumerate(a):
            if j:
                out.append(sep)
            out.append(tostr(I.fz(x)))
        out.append(I.fz(kw['end']) if 'end' in kw else string('\n'))
        I.event('write', strcat(*out))
    return NONE


@bf('logging.getLogger')
def _(I, a, kw, node):
    return raw('logger')


@bf('object_init')
def _(I, a, kw, node):
    return NONE


@bf('object')
def _(I, a, kw, node):
    return raw('new', 'object', ())


@bf('callable')
def _(I, a, kw, node):
    v = a[0]
    if v.op in ('fun', 'bm', 'cls', 'ext', 'bmeth', 'lam'):
        return TRUE
    if v.op in ('num', 'str', 'none', 'tuple'):
        return FALSE
    return raw('callable', I.fz(v))


@bf('round', 'numpy.round', 'numpy.around', 'numpy.rint')
def _(I, a, kw, node):
    fa = [I.fz(x) for x in a]
    fa += [I.fz(kw[k]) for k in ('decimals', 'ndigits') if k in kw]
    if set(kw) - {'decimals', 'ndigits', 'number', 'a'} or not 1 <= len(fa) <= 2:
        return None
    return raw('round', *(fa[:1] if fa[1:] and fa[1] is num(0) else fa))


@bf('type')
def _(I, a, kw, node):
    v = a[0]
    if v.op == 'ref':
        c = I.cell(v)
        if c.kind == 'obj' and c.base is None and not isinstance(c.cls, str):
            return raw('cls', c.cls.qual)
    return raw('typeof', I.fz(v))


@bf('isinstance')
def _(I, a, kw, node):
    v, c = a
    cls = list(c.args) if c.op == 'tuple' else [c]
    r = FALSE
    for k in cls:
        r = b_or(r, isinst1(I, v, k))
    return r


_PYK = {'builtins.list': 'list', 'builtins.dict': 'dict', 'builtins.set': 'set'}


def isinst1(I, v, k):
    if v.op == 'ite':
        return ite(v.args[0], isinst1(I, v.args[1], k), isinst1(I, v.args[2], k))
    kn = k.args[0] if k.op in ('ext', 'cls') else show(k)
    if v.op == 'ref':
        c = I.cell(v)
        if c.kind == 'obj' and c.base is None and c.cls != 'file':
            if k.op == 'cls':
                return TRUE if any(m.qual == kn for m in I.p.mro(c.cls)) else FALSE
            return FALSE
        if c.kind in ('list', 'dict', 'set'):
            return TRUE if _PYK.get(kn) == c.kind else FALSE
        if c.kind == 'obj' and k.op == 'cls':
            cl = I.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
            if cl is not None and any(m.qual == kn for m in I.p.mro(cl)):
                return TRUE
        v = I.fz(v)
        return isinst1(I, v, k) if v.op != 'ref' and v.op not in ('sym', 'attr') and v.op == 'ite' else raw('isinst', v, kn)
    if v is NONE:
        return FALSE
    if v.op == 'str':
        return TRUE if kn == 'builtins.str' else FALSE
    if v.op == 'num':
        return TRUE if kn in (('builtins.int',) if v.args[0].denominator == 1 else ('builtins.float',)) else raw('isinst', v, kn)
    if v.op == 'tuple':
        return TRUE if kn == 'builtins.tuple' else FALSE
    if v.op in ('fun', 'bm', 'cls'):
        return FALSE
    return raw('isinst', I.fz(v), kn)


@bf('issubclass')
def _(I, a, kw, node):
    return raw('subcls', I.fz(a[0]), I.fz(a[1]))


@bf('hasattr')
def _(I, a, kw, node):
    v, n = a[0], a[1]
    if v.op == 'ite':
        return ite(v.args[0], BF['builtins.hasattr'](I, [v.args[1], n], kw, node), BF['builtins.hasattr'](I, [v.args[2], n], kw, node))
    if v.op == 'ref' and n.op == 'str':
        c = I.cell(v)
        if c.kind == 'obj' and c.cls != 'file':
            if dict(c.data).get(n.args[0]) is not None:
                return TRUE
            cl = I.p.cls(c.cls) if isinstance(c.cls, str) else c.cls
            if cl is not None and (I.p.find_method(cl, n.args[0]) or I.p.find_const(cl, n.args[0])):
                return TRUE
            if c.base is None:
                return FALSE
    return raw('hasattr', I.fz(v), I.fz(n))


@bf('getattr')
def _(I, a, kw, node):
    v, n = a[0], I.fz(a[1])
    if n.op == 'str':
        if len(a) == 3:
            h = BF['builtins.hasattr'](I, [v, n], {}, node)
            return I.fork(h, lambda: I.get_attr(v, n.args[0], node), lambda: a[2])
        return I.get_attr(v, n.args[0], node)
    if n.op == 'ite':
        return I.fork(n.args[0], lambda: BF['builtins.getattr'](I, [v, n.args[1]] + list(a[2:]), kw, node),
                      lambda: BF['builtins.getattr'](I, [v, n.args[2]] + list(a[2:]), kw, node))
    if v.op == 'pymod':
        return raw('attr', v, 'dyn:' + show(n))
    return raw('dynattr', I.fz(v), n)


@bf('setattr')
def _(I, a, kw, node):
    if a[1].op == 'str':
        I.set_attr(a[0], a[1].args[0], a[2], node)
        return NONE
    I.event('setattr', I.fz(a[0]), I.fz(a[1]), I.fz(a[2]))
    return NONE


@bf('next')
def _(I, a, kw, node):
    l = listing(I, a[0])
    d = l
    if d.op == 'ite' or len(a) > 1:
        n = length(I.fz(d))
        if len(a) > 1:
            return I.fork(lt(ZERO, n), lambda: first_of(I, d), lambda: a[1])
    return first_of(I, d)


def first_of(I, d):
    d = I.fz(d)
    if d.op == 'comp' and not comp_single(d):
        vs, (b,) = open_binder(d)
        return raw('first', d)
    return I.elem(seq_at(d, ZERO), d)


@bf('open')
def _(I, a, kw, node):
    from .interp import Cell
    mode = I.fz(a[1]) if len(a) > 1 else I.fz(kw.get('mode', string('r')))
    I.event('open', I.fz(a[0]), mode)
    return I.alloc(Cell('obj', (), cls='file'))


@bf('slice')
def _(I, a, kw, node):
    fa = [I.fz(x) for x in a]
    if len(fa) == 1:
        fa = [NONE, fa[0], NONE]
    if len(fa) == 2:
        fa = fa + [NONE]
    return raw('slc', *fa)


@bf('functools.partial')
def _(I, a, kw, node):
    return raw('partial', a[0], tuple(a[1:]), tuple(sorted(kw.items())))


@bf('vars')
def _(I, a, kw, node):
    return raw('vars', I.fz(a[0])) if a else I.top('vars', node)


@bf('time.process_time', 'time.thread_time', 'time.clock')
def _(I, a, kw, node):
    I.ntime += 1
    t = raw('cputime', num(I.ntime), raw('tuple', *I.loopvars()))     # processor time: not the time that passes
    KINDS[t] = 'num'
    return t


@bf('time.time', 'time.perf_counter', 'time.monotonic', 'timeit.default_timer')
def _(I, a, kw, node):
    I.ntime += 1
    t = raw('time', num(I.ntime), raw('tuple', *I.loopvars()))
    KINDS[t] = 'num'
    return t


@bf('numpy.atleast_2d', 'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.ascontiguousarray')
def _(I, a, kw, node):
    dotted = kw.pop('__dotted__')
    v = a[0]
    root = None
    if v.op == 'ref':
        c = I.cell(v)
        root = c.root if c.kind == 'val' else None
    t = asarr(I.fz(v))
    if dotted.endswith('2d'):
        t = as2d(t)
    elif dotted.endswith('1d'):
        t = t if t.op == 'asarr' else raw('as1d', t)
    return I.alloc(_cell2('val', t, root))


def _cell2(kind_, data, root):
    from .interp import Cell
    return Cell(kind_, data, root)


@bf('numpy.array')
def _(I, a, kw, node):
    kw.pop('__dotted__', None)
    t = asarr(I.fz(a[0]))
    return I.alloc(_cell2('val', t, None))


@bf('itertools.chain.from_iterable')
def _(I, a, kw, node):
    return BF['builtins.sum'](I, [a[0], I.new_list(EMPTY)], {}, node)


@bf('itertools.chain')
def _(I, a, kw, node):
    return I.new_list(cat(*[listing(I, x) for x in a]))


_NEEDS_DOTTED = ('numpy.atleast_2d', 'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.array', 'numpy.ascontiguousarray')

RANDOM = ('numpy.random.', 'random.')


def apply_ext(I, dotted, args, kwargs, node):
    dotted = ALIASES.get(dotted, dotted)
    f = BF.get(dotted)
    if f is not None and not any(a.op == 'star' for a in args):
        kw = dict(kwargs)
        if dotted in _NEEDS_DOTTED:
            kw['__dotted__'] = dotted
        try:
            r = f(I, list(args), kw, node)
        except (IndexError, ValueError, KeyError):
            r = None
        if r is not None:
            return r
    # forks over reference-valued alternatives
    for j, a in enumerate(args):
        if a.op == 'ite' and has_op(a, 'ref'):
            rest = list(args)
            return I.fork(a.args[0], lambda: apply_ext(I, dotted, rest[:j] + [a.args[1]] + rest[j + 1:], kwargs, node),
                          lambda: apply_ext(I, dotted, rest[:j] + [a.args[2]] + rest[j + 1:], kwargs, node))
    fa = [I.fz(x) for x in args]
    kw = {k: I.fz(v) for k, v in kwargs.items()}
    if any(x.op == 'top' for x in fa):
        pass
    f = NP.get(dotted)
    if f is not None and not any(a.op == 'star' for a in fa) and '**' not in kw:
        try:
            r = f(I, fa, kw, node)
        except (IndexError, KeyError):
            r = None
        if r is not None:
            if dotted in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.copy', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like'):
                return I.alloc(_cell('val', r))
            return r
    if dotted.startswith(RANDOM):
        if dotted.endswith('.seed'):
            I.event('seed', *fa)
            return NONE
        I.nrand = getattr(I, 'nrand', {})
        k = I.nrand.get(dotted, 0)
        I.nrand[dotted] = k + 1
        from . import model
        sig = model.EXT_SIGS.get(dotted)
        items = bind_sig(sig, fa, kw) if sig else None
        if items is None:
            items = tuple((str(j), x) for j, x in enumerate(fa)) + tuple(sorted(kw.items()))
        return raw('rand', dotted.split('.')[-1], items, num(k), raw('tuple', *I.loopvars()))
    if dotted in ('builtins.globals', 'builtins.locals') and not fa:
        return raw('namespace')
    if dotted == 'builtins.exec' and fa:
        m = code_text(fa[0])
        q = m and re.match(r'(\w+)=(lambda\b.*)', m[0])
        if q:
            code = raw('usercode', string(q.group(2)), *m[1])
            into = args[-1] if len(args) > 1 else None
            if into is None or fa[-1].op == 'namespace':
                I.st.frames[I.fid][q.group(1)] = code
                return NONE
            if into.op == 'ref' and I.cell(into).kind == 'dict':
                I.set_item(into, (string(q.group(1)),), code, node)
                return NONE
            return I.top(dotted, node)
        return I.top(dotted, node)
    if dotted == 'builtins.eval' and fa:
        m = code_text(fa[0])
        if m:
            return raw('usercode', string(m[0]), *m[1])
        return I.top(dotted, node)
    last = dotted.split('.')[-1]
    if dotted.startswith('builtins.') and (last.endswith('Error') or last in ('Exception', 'StopIteration', 'Warning')):
        return raw('exc', last)
    from . import model
    sig = model.EXT_SIGS.get(dotted)
    items = bind_sig(sig, fa, kw) if sig else None
    if items is None:
        items = tuple((str(j), x) for j, x in enumerate(fa)) + tuple(sorted(kw.items()))
    I.ext_used.add(dotted)
    if dotted in ('multiprocessing.Pipe', 'multiprocessing.Queue', 'multiprocessing.SimpleQueue') and I.loopvars():
        items += (('in', raw('tuple', *I.loopvars())),)      # another one in every iteration
    return I.opaque_result('ext:' + dotted, None, None, items, node)


tm._REBUILD['store'] = store
tm._REBUILD['at'] = at
