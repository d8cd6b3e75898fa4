"""Random interpretation of value-graph terms.

Two normal forms that differ may still denote the same value (one law of arithmetic or of sequences too few in
``terms``).  Before a difference is reported as a violation it has to be confirmed: both terms are given the same
interpretation - every unknown of the source (parameter, field, result of an interface call) an arbitrary value of the
sort its uses require, every operation outside the theory an uninterpreted function - and they must disagree.  This is
global value numbering by random interpretation (Gulwani & Necula): terms are evaluated, the program never is.

refute(a, b) -> ('differs', n) | ('agrees', n) | ('unknown', n), n the number of interpretations that were defined."""
import math
import time
from fractions import Fraction
from hashlib import blake2b
from . import terms as tm
from .terms import T, is_bool, BINDERS, kind

DIGITS = 9


class Fail(Exception):
    """the interpretation leaves a term undefined"""


class Again(Exception):
    """a sort was refined; start the interpretation over"""


class Undef(object):
    pass


U_ = Undef()


def H(*parts):
    return int.from_bytes(blake2b(repr(parts).encode('utf8', 'replace'), digest_size=8).digest(), 'big')


class U(object):
    """an unknown value: ``path`` identifies it, ``cls`` the unknowns that share its sort"""
    __slots__ = ('path', 'cls')

    def __init__(self, path, cls):
        self.path, self.cls = path, cls


class Obj(object):
    """an unknown object some of whose fields are known"""
    __slots__ = ('base', 'fields')

    def __init__(self, base, fields):
        self.base, self.fields = base, fields


class D(object):
    """a dictionary: known entries over an unknown (or no) rest"""
    __slots__ = ('base', 'items', 'gone')

    def __init__(self, base, items, gone=()):
        self.base, self.items, self.gone = base, items, gone


class Fn(object):
    __slots__ = ('I', 't', 'env', 'n')

    def __init__(self, I, t, env):
        self.I, self.t, self.env, self.n = I, t, env, len(t.args[1])


class Slice(object):
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Events(object):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l


NUMS = (int, float, Fraction)
SMALL = [Fraction(x) for x in (-2, -1, 0, 1, 2, 3)] + [Fraction(1, 2)]


def is_num(v):
    return isinstance(v, NUMS) and not isinstance(v, bool)


_free = {}


def free(t):
    """bound variables of enclosing binders that t mentions"""
    r = _free.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset([t])
        else:
            r = frozenset()
            for a in tm.subargs(t):
                r |= free(a)
            if t.op in BINDERS:
                r = frozenset(b for b in r if b not in t.args[1]) | (free(t.args[0]) if isinstance(t.args[0], T) else frozenset())
        _free[t] = r
    return r


class Interp(object):
    def __init__(self, seed, sorts, pool, mode):
        self.seed, self.sorts, self.pool, self.mode = seed, sorts, pool, mode
        self.vary = H(seed, 'vary') % 3 == 0
        self.unint = set()
        self.memo = {}
        self.steps = 0
        self.nones = set()
        self.fixed = set()
        self.forced = {}
        self.alias = {}
        self.given = {}
        self.texts = {}
        self.asking = None
        self.near = SMALL
        self.depth = {}
        self.path = []
        self.deadline = None
        self.haskeys = {}
        self.keypool = ()
        self.scale = None
        self.kinds = ()
        self.measured = self.maybe_empty = frozenset()
        self.zeros = set()
        self.perm = seed % 3 == 1
        self.parent = {}
        self.big = 0
        self.place = {}
        self.lens = {}
        self.signs = {}

    # ------------------------------------------------------------------------------ unknowns
    def sort(self, u):
        s = self.sorts.get(u.cls)
        return 'seq' if s == 'arr' else s

    def open_rank(self, v):
        """an unknown array whose rank the program examines has one or two dimensions"""
        if isinstance(v, U) and self.sorts.get(v.cls) in (None, 'seq') and self.sorts.get(self.child(v, 0).cls) is None:
            self.sorts[v.cls] = 'arr'
            raise Again()

    def refine(self, u, s):
        old = self.sorts.get(u.cls)
        if old == s:
            return
        if old is None or old in ('num', 'int') and s == 'seq' or old == 'num' and s == 'int' or old == 'seq' and s == 'dict':
            if s == 'seq' and self.depth.get(u.cls, 0) > 3:
                raise Fail('rank')
            if u.cls in self.fixed and s == 'seq':
                raise Fail('an element of a one-dimensional array as sequence')
            self.sorts[u.cls] = s
            raise Again()

    def r(self, *k):
        return H(self.seed, *k)

    def child(self, u, i):
        if self.sorts.get(u.cls) == 'arr':
            two = self.r('rank', u.cls) % 2
            c = H('at', u.cls, '*', 'rank', two)
            if not two:
                self.fixed.add(c)
            self.sorts.setdefault(c, 'seq' if two else 'num')
            return U(H('at', u.path, canon_index(i)), c)
        c = H('at', u.cls, '*' if is_num(i) else i)
        p = H('at', u.path, canon_index(i))
        if is_num(i):
            self.depth[c] = self.depth.get(u.cls, 0) + 1
            if self.perm:
                self.parent[p] = u
            if self.big:
                self.place[p] = self.place.get(u.path, i)
        return U(p, c)

    def resize(self, u, n):
        """an unknown sequence whose length is free has the length its use requires"""
        if isinstance(u, U) and n and u.cls not in self.lens and u.cls not in self.zeros:
            self.lens[u.cls] = n
            raise Again()

    def length(self, u):
        if u.cls in self.zeros:
            return 0
        if u.cls in self.lens:
            return self.lens[u.cls]
        if self.big and not self.depth.get(u.cls) and self.r('big', u.cls) % 2:
            return self.big + self.r('long', u.cls) % (self.big // 2 + 4)
        h = self.r('len', u.cls)
        lev = self.r('n')
        base = 2 + lev % 2
        if h % 3 == 0 and self.vary:
            return 1 + (h >> 8) % 3
        return base

    def num(self, v):
        """the number (or array of numbers) a value is"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, NUMS):
            return v
        if isinstance(v, list):
            return [self.num(x) for x in v]
        if isinstance(v, U):
            s = self.sort(v)
            if v.path in self.nones:
                raise Fail('arithmetic on None')
            if s is None:
                self.refine(v, 'num')
            if s == 'seq':
                return [self.num(x) for x in self.seq(v)]
            if s == 'int':
                if v.path in self.given:
                    return self.given[v.path]
                h = self.r('int', v.path)
                if v.path in self.parent:
                    # the numbers of a sequence are a permutation: positions of something
                    u = self.parent[v.path]
                    return sum(self.r('int', H('at', u.path, canon_index(i))) < h for i in range(self.length(u)))
                return h % 2 if self.mode == 3 else 1 + h % 3 if self.mode == 0 else h % 4
            if s == 'str':
                raise Fail('arithmetic on a text')
            if v.path in self.given:
                return self.given[v.path]
            h = self.r('num', v.path)
            if self.scale:
                return Fraction(1 + h % 97, 23) * (self.signs.get(v.cls) or (-1 if self.r('flip', v.cls) % 5 == 0 else 1)) \
                    * (self.scale if self.r('scaled', v.cls) % 4 else 1)
            if v.cls in self.signs:
                return Fraction(1 + h % 97, 23) * self.signs[v.cls]
            if self.big and v.path in self.place and self.r('trend', v.cls) % 3:
                # a long sequence that rises or falls
                return Fraction(h % 97, 23) + self.place[v.path] * (1 if self.r('trend', v.cls) % 3 == 1 else -1)
            if self.mode == 0:
                return Fraction(1 + h % 97, 23) * (-1 if self.seed % 2 and self.r('flip', v.cls) % 3 == 0 else 1)
            if not self.depth.get(v.cls) and h % 5 == 0:
                return self.near[(h >> 8) % len(self.near)]
            if self.mode == 1:
                return self.near[h % len(self.near)]
            if self.mode == 3:
                return Fraction(h % 2)
            if self.mode == 5:
                return self.near[self.r('same', v.cls if self.r('each') % 2 else 0) % len(self.near)]
            if self.mode == 4:
                return Fraction(-1 - h % 97, 23) if h % 3 else Fraction(1 + h % 97, 23)
            return Fraction(h % 401 - 150, 37)
        if isinstance(v, Undef):
            raise Fail('undefined')
        if isinstance(v, str):
            raise Fail('arithmetic on a text')
        raise Fail('not a number')

    def scalar(self, v):
        v = self.num(v)
        while isinstance(v, list):
            if len(v) != 1:
                raise Fail('array where a number is needed')
            v = v[0]
        return v

    def int(self, v):
        if isinstance(v, U) and self.sort(v) in (None, 'num'):
            self.refine(v, 'int')
        v = self.scalar(v)
        if v != v or v in (math.inf, -math.inf) or v != int(v):
            raise Fail('not an integer')
        return int(v)

    def seq(self, v):
        """the list of elements of a sequence"""
        if isinstance(v, list):
            return v
        if isinstance(v, U):
            if v.path in self.nones:
                raise Fail('sequence is None')
            s = self.sort(v)
            if s == 'str':
                raise Fail('text as sequence')
            if s == 'dict':
                return self.keys(v)
            if s != 'seq':
                self.refine(v, 'seq')
            return [self.child(v, i) for i in range(self.length(v))]
        if isinstance(v, D):
            return self.keys(v)
        if isinstance(v, str):
            return list(v)
        raise Fail('not a sequence')

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, NUMS):
            f = float(v)
            return str(int(f)) if f == int(f) else repr(round(f, DIGITS))
        if isinstance(v, U):
            s = self.sort(v)
            if s in ('num', 'int', 'seq'):
                return self.text(self.num(v))
            if v.path in self.texts:
                return self.texts[v.path]
            h = self.r('str', v.path)
            if self.pool and h % 5:
                return self.pool[h // 5 % len(self.pool)]
            return '<%x>' % (v.path % 65536)
        if isinstance(v, list):
            return '[' + ', '.join(self.text(x) for x in v) + ']'
        raise Fail('not a text')

    def bool(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, NUMS):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, list):
            return len(v) > 0
        if isinstance(v, U):
            if v.path in self.nones:
                return False
            s = self.sort(v)
            if s in ('num', 'int'):
                return self.num(v) != 0
            if s == 'str':
                return bool(self.text(v))
            if s == 'seq':
                return self.length(v) > 0
            if s == 'dict':
                return len(self.keys(v)) > 0
            f = self.forced.get(('truth', v.path))
            if f is None and self.depth.get(v.cls) and self.r('none', v.cls) % 4 == 0:
                return False
            return self.r('truth', v.path) % 2 == 0 if f is None else f
        if isinstance(v, D):
            if v.base is None:
                return bool(v.items)
            return True
        return True

    def truth(self, t, env):
        c = self.ev(t, env)
        return all(self.bool(x) for x in self.flatlist(c)) if isinstance(c, list) else self.bool(c)

    def coin(self, *k):
        if self.asking is not None:
            self.forced.setdefault(('coin',) + k, self.asking)
        v = self.forced.get(('coin',) + k)
        return self.r('coin', *k) % 2 == 0 if v is None else v

    # ------------------------------------------------------------------------------ directed choice
    def force(self, c, want, env):
        """make an undetermined condition true or false where the interpretation is free to"""
        if c.op == 'ite':
            if c.args[1] in (tm.TRUE, tm.FALSE) and c.args[2] in (tm.TRUE, tm.FALSE):
                self.force(c.args[0], want == (c.args[1] is tm.TRUE), env)
                return
            ways = []
            for k, sub in ((True, c.args[1]), (False, c.args[2])):
                if sub in (tm.TRUE, tm.FALSE):
                    if (sub is tm.TRUE) == want:
                        ways.append((k, None))
                else:
                    ways.append((k, sub))
            if ways:
                k, sub = ways[self.r('way', tm.size(c)) % len(ways)]
                self.force(c.args[0], k, env)
                if sub is not None:
                    self.force(sub, want, env)
            return
        if c.op in ('isnone', 'truthy'):
            v = self.ev(c.args[0], env)
            if isinstance(v, U):
                if c.op == 'truthy':
                    self.forced[('truth', v.path)] = want
                elif v.path not in self.forced:
                    self.forced[v.path] = want
                    (self.nones.add if want else self.nones.discard)(v.path)
            return
        if c.op == 'eq':
            for x, y in (c.args[:2], c.args[1::-1]):
                if isinstance(y, T) and y.op == 'str':
                    v = self.ev(x, env)
                    if isinstance(v, U) and v.path not in self.texts:
                        self.texts[v.path] = y.args[0] if want else '<other>'
            return
        if c.op in ('lt0', 'eq0') and c.args[0].op == 'poly':
            self.settle(c, want, env)
            return
        if c.op in COINS or c.op == 'in':
            n = len(self.forced)
            self.asking = want
            try:
                self.ev(c, env)
            finally:
                self.asking = None
                if self.alias:
                    self.memo.clear()

    def settle(self, c, want, env):
        """make a comparison of numbers come out as wanted, at or close to where it changes"""
        if self.r('settle') % 2 or c.op == 'eq0' and not want:
            return
        ways = []
        for k, m in c.args[0].args[0]:
            if len(m) == 1 and m[0][1] == 1 and not free(m[0][0]):
                v = self.ev(m[0][0], env)
                if isinstance(v, U) and v.path not in self.given and v.path not in self.nones and self.sort(v) in (None, 'num', 'int'):
                    ways.append((k, v))
        if not ways:
            return
        k, v = ways[self.r('which', len(ways)) % len(ways)]
        if self.sort(v) is None:
            self.refine(v, 'num')
        p, x = self.scalar(self.ev(c.args[0], env)), self.scalar(v)
        h = self.r('by')
        if self.sort(v) == 'int':
            by = 1 + h % 2
        else:
            by = (Fraction(1, 10 ** 9), Fraction(1, 2), Fraction(7, 3))[h % 3]
        to = 0 if c.op == 'eq0' else -by if want else (0, by)[(h >> 8) % 2]
        x += (to - p) / Fraction(k)
        if self.sort(v) == 'int' and x != int(x):
            return
        self.given[v.path] = x
        self.memo.clear()

    def assume(self, g):
        """choose the unknowns an assumption is about so that it holds, where that is simple"""
        if g.op == 'ite' and g.args[2] is tm.FALSE:
            self.assume(g.args[0])
            self.assume(g.args[1])
            return
        if g.op != 'eq0' or g.args[0].op != 'poly':
            return
        items = g.args[0].args[0]
        for c, m in items:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len' and m[0][0].args[0].op == 'shape' and len(items) == 2:
                u = self.ev(m[0][0].args[0].args[0], {})
                n = sum(-d / c for d, k in items if not k)
                for _ in range(int(n)):
                    if not isinstance(u, U):
                        return
                    self.refine(u, 'seq')
                    u = self.child(u, 0)
                if isinstance(u, U):
                    self.fixed.add(u.cls)
                    self.refine(u, 'num')
                return
        for c, m in items:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'attr':
                u = self.ev(m[0][0], {})
                if isinstance(u, U) and u.path not in self.given:
                    self.refine(u, 'int')
                    n = self.num(u) - self.scalar(self.ev(g.args[0], {})) / c
                    self.given[u.path] = n
                    self.memo.clear()
                return

    def direct(self, a, b, env, depth=0):
        """walk both terms towards a place where they differ"""
        if a is b or depth > 60 or not isinstance(a, T) or not isinstance(b, T):
            return
        for x, y, swap in ((a, b, False), (b, a, True)):
            if x.op == 'ite' and not free(x.args[0]):
                if y.op == 'ite' and y.args[0] is x.args[0]:
                    ways = [i for i in (1, 2) if x.args[i] is not y.args[i]]
                    i = ways[self.r('dir', depth) % len(ways)]
                    self.force(x.args[0], i == 1, env)
                    self.direct(x.args[i], y.args[i], env, depth + 1)
                else:
                    i = 1 + self.r('dir', depth) % 2
                    self.force(x.args[0], i == 1, env)
                    self.direct(x.args[i], y, env, depth + 1)
                return
        if a.op == b.op:
            xs, ys = list(tm.subargs(a)), list(tm.subargs(b))
            if len(xs) == len(ys):
                ways = [k for k in range(len(xs)) if xs[k] is not ys[k]]
                if ways:
                    k = ways[self.r('dir', depth) % len(ways)]
                    self.direct(xs[k], ys[k], env, depth + 1)
                return
        for x in (a, b):
            for y in tm.subargs(x):
                if y.op == 'ite' and not free(y.args[0]):
                    self.direct(y, tm.NONE, env, depth + 1)
                    return
        # forms of different kinds: settle some of the choices made anywhere inside
        conds = []
        for x in (a, b):
            for y in tm.walk(x):
                if y.op == 'ite' and y.args[0] not in conds and not free(y.args[0]):
                    conds.append(y.args[0])
                    if len(conds) > 40:
                        break
        conds.sort(key=tm.size)
        for j in range(min(2, len(conds))):
            c = conds[self.r('cond', depth, j) % len(conds)]
            try:
                self.force(c, self.r('side', depth, j) % 2 == 0, env)
            except Fail:
                pass

    # ------------------------------------------------------------------------------ identity of values
    def canon(self, v):
        if isinstance(v, bool):
            return H('b', v)
        if isinstance(v, NUMS):
            f = float(v)
            if f != f or f in (math.inf, -math.inf):
                return H('n', repr(f))
            return H('n', '%.*g' % (DIGITS, f + 0.0) if f else '0')
        if isinstance(v, str):
            return H('s', v)
        if v is None:
            return H('none')
        if isinstance(v, list):
            return H('l', *[self.canon(x) for x in v])
        if isinstance(v, U):
            s = self.sort(v)
            if v.path in self.nones:
                return H('none')
            if s in ('num', 'int'):
                return self.canon(self.num(v))
            if s == 'seq':
                return self.canon(self.seq(v))
            if s == 'str':
                return self.canon(self.text(v))
            if s == 'dict':
                return self.canon_dict(v)
            return H('u', v.path)
        if isinstance(v, Obj):
            return H('o', self.canon(v.base), *sorted((k, self.canon(x)) for k, x in v.fields.items() if not self.same_field(v.base, k, x)))
        if isinstance(v, D):
            if v.base is not None and not v.items and not v.gone:
                return self.canon(v.base)
            b = v
            while isinstance(b, D):
                b = b.base
            if b is None or self.sort(b) == 'dict':
                return self.canon_dict(v)
            return H('d', None if v.base is None else self.canon(v.base), *(sorted((self.canon(k), self.canon(x)) for k, x in v.items)
                                                                       + sorted(self.canon(k) for k in v.gone)))
        if isinstance(v, Fn):
            args = [U(H('sample', j), H('sample', j)) for j in range(v.n)]
            return H('f', v.n, self.canon(self.apply(v, args)))
        if isinstance(v, Slice):
            return H('slice', self.canon(v.lo), self.canon(v.hi), self.canon(v.st))
        if isinstance(v, Events):
            return H('e', *[self.canon(x) for x in v.l])
        if isinstance(v, Undef):
            return H('undef')
        return H('?', repr(v))

    def canon_dict(self, d):
        return H('dd', *sorted((self.canon(k), self.canon(self.get(d, k))) for k in self.keys(d)))

    def same_field(self, base, k, x):
        """a field set to the value it has"""
        if isinstance(base, U):
            return self.canon(U(H('attr', base.path, k), H('attr', base.cls, k))) == self.canon(x)
        return False

    def unknown(self, op, vals, cls=()):
        u = U(H(op, *[self.canon(v) for v in vals]), H('cls', op, *cls))
        return self.alias.get(u.path, u) if self.alias else u

    # ------------------------------------------------------------------------------ evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > (400000 if self.big else 60000) or self.deadline and self.steps % 256 == 0 and time.process_time() > self.deadline:
            raise Fail('budget')
        f = free(t)
        if f:
            try:
                key = (t, tuple(self.canon(env[b]) for b in sorted(f)))
            except KeyError:
                raise Fail('open term')
        else:
            key = t
        r = self.memo.get(key, self)
        if r is not self:
            return r
        m = OPS.get(t.op)
        if m is not None:
            r = m(self, t, env)
        else:
            r = self.other(t, env)
        if isinstance(r, U) and t in self.measured and self.sort(r) is None:
            self.refine(r, 'seq')
        if isinstance(r, U) and t in self.maybe_empty and r.cls not in self.zeros and self.sort(r) in ('seq', None) and self.r('zero', r.cls) % 5 == 0:
            self.zeros.add(r.cls)
            self.sorts[r.cls] = self.sorts.get(r.cls) or "seq"
            raise Again()
        if isinstance(r, U) and t in tm.RANKS:
            c = r.cls
            new = False
            for _ in range(min(tm.RANKS[t], 3)):
                if self.sorts.get(c) is None:
                    self.sorts[c] = 'seq'
                    new = True
                elif self.sorts[c] != 'seq':
                    break
                c = H('at', c, '*')
            else:
                if self.sorts.get(c) is None:
                    self.sorts[c] = 'num'
                    new = True
            if new:
                raise Again()
        k = kind(t)
        if isinstance(r, U) and k in ('int', 'num', 'str') and self.sort(r) is None:
            self.refine(r, k)
        self.memo[key] = r
        return r

    def any(self, a, env):
        if isinstance(a, T):
            return self.ev(a, env)
        if isinstance(a, tuple):
            return [self.any(x, env) for x in a]
        if isinstance(a, (str, bool)) or a is None:
            return a
        if isinstance(a, NUMS):
            return a
        return str(a)

    def other(self, t, env):
        """an operation outside the theory: an uninterpreted function of its arguments"""
        self.unint.add(t.op)
        if t.op in BINDERS:
            n = self.ev(t.args[0], env)
            e2 = dict(env)
            for j, b in enumerate(t.args[1]):
                e2[b] = U(H('sample', t.op, j), H('sample', t.op, j))
            vals = [n] + [self.any(b, e2) for b in t.args[2:]]
        else:
            vals = [self.any(a, env) for a in t.args]
        if is_bool(t):
            return self.coin(t.op, *[self.canon(v) for v in vals])
        return self.unknown(t.op, vals)

    def apply(self, f, args):
        if isinstance(f, Fn) and f.n == len(args):
            env = dict(f.env)
            for b, a in zip(f.t.args[1], args):
                env[b] = a
            return self.any(f.t.args[2], env)
        return self.unknown('app', [f] + list(args))

    # ------------------------------------------------------------------------------ dictionaries
    def keys(self, d):
        if isinstance(d, D):
            if d.base is None:
                return [k for k, _ in d.items]
            b = [k for k in self.keys(d.base) if not any(self.eq(k, g) for g in d.gone)]
            return b + [k for k, _ in d.items if not any(self.eq(k, x) for x in b)]
        if not isinstance(d, U):
            raise Fail('keys')
        self.refine(d, 'dict')
        return [k for k in self.keypool if self.haskey(d, k)]

    def haskey(self, u, k):
        v = self.haskeys.get((u.path, k))
        if v is None:
            v = self.coin('in', self.canon(k), u.path)
            self.haskeys[(u.path, k)] = v
        return v

    def get(self, d, k):
        if isinstance(d, D):
            for x, v in d.items:
                if self.eq(x, k):
                    return v
            if d.base is None or any(self.eq(k, g) for g in d.gone):
                raise Fail('no such key')
            return self.get(d.base, k)
        if isinstance(d, U):
            if d.path in self.nones:
                raise Fail('None subscripted')
            if isinstance(k, str) and self.sort(d) in (None, 'dict') and not self.haskeys.setdefault((d.path, k), True):
                raise Fail('no such key')
            return U(H('at', d.path, self.canon(k)), H('at', d.cls, self.canon(k) if isinstance(k, str) else '*'))
        if isinstance(d, list) and is_num(k):
            return self.index(d, [k])
        raise Fail('subscript')

    def has(self, x, d):
        if isinstance(d, D):
            if any(self.eq(x, k) for k, _ in d.items):
                return True
            if d.base is None or any(self.eq(x, g) for g in d.gone):
                return False
            return self.has(x, d.base)
        if isinstance(d, U) and self.sort(d) != 'seq':
            if isinstance(x, U) and self.sort(x) == 'str':
                x = self.text(x)
            if isinstance(x, str):
                if self.sort(d) == 'dict' and x not in self.keypool:
                    return False
                return self.haskey(d, x)
            return self.coin('in', self.canon(x), d.path)
        if isinstance(d, (list, U)):
            l = self.seq(d)
            if any(self.eq(x, y) for y in l):
                return True
            if self.asking and isinstance(x, U) and self.sort(x) is None and x.path not in self.given:
                # it can be one of them
                l = [y for y in l if isinstance(y, U) and self.sort(y) is None and y.path not in self.given]
                if l:
                    self.alias.setdefault(x.path, l[self.r('member', x.path) % len(l)])
                    return True
            return False
        if isinstance(d, str) and isinstance(x, str):
            return x in d
        if isinstance(d, Obj):
            return self.coin('in', self.canon(x), self.canon(d))
        raise Fail('membership')

    def put(self, d, k, v):
        items = list(d.items) if isinstance(d, D) else []
        for j, (x, _) in enumerate(items):
            if self.eq(x, k):
                items[j] = (x, v)
                break
        else:
            items.append((k, v))
        if isinstance(d, D):
            return D(d.base, items, [g for g in d.gone if not self.eq(g, k)])
        return D(d, items)

    def without(self, d, k):
        if isinstance(d, D):
            return D(d.base, [(x, v) for x, v in d.items if not self.eq(x, k)], list(d.gone) + ([k] if d.base is not None else []))
        return D(d, [], [k])

    # ------------------------------------------------------------------------------ comparison
    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, U):
                if self.sort(a) in ('num', 'int', 'seq'):
                    return False
                a = self.text(a)
            if isinstance(b, U):
                if self.sort(b) in ('num', 'int', 'seq'):
                    return False
                b = self.text(b)
            return a == b
        return self.same(a, b)

    def same(self, a, b, loose=False):
        if a is None or b is None:
            a_ = a is None or isinstance(a, U) and a.path in self.nones
            b_ = b is None or isinstance(b, U) and b.path in self.nones
            return a_ and b_
        if isinstance(a, U) and isinstance(b, U):
            if a.path == b.path:
                return True
            if self.sort(a) is None and self.sort(b) is None:
                return False
        if isinstance(a, (bool,) + NUMS) and isinstance(b, U) or isinstance(b, (bool,) + NUMS) and isinstance(a, U):
            if isinstance(a, U):
                a, b = b, a
            if isinstance(a, bool):
                return self.bool(b) == a
            b = self.num(b)
        if isinstance(a, (bool,) + NUMS) and isinstance(b, (bool,) + NUMS):
            return close(a, b)
        if isinstance(a, list) or isinstance(b, list):
            if not isinstance(a, (list, U)) or not isinstance(b, (list, U)):
                if loose:
                    a, b = flat(self, a), flat(self, b)
                else:
                    return False
            for u, l in ((a, b), (b, a)):
                if isinstance(u, U) and isinstance(l, list) and 1 < len(l) < 5 and all(isinstance(x, U) and x.path == self.child(u, i).path for i, x in enumerate(l)):
                    self.resize(u, len(l))      # taken apart and put together again
            a, b = self.seq(a), self.seq(b)
            if loose:
                a, b = flat(self, a), flat(self, b)
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Events) and isinstance(b, Events):
            return len(a.l) == len(b.l) and all(self.same(x, y, True) for x, y in zip(a.l, b.l))
        if isinstance(a, str) or isinstance(b, str):
            return self.eq(a, b)
        return self.canon(a) == self.canon(b)

    # ------------------------------------------------------------------------------ arrays
    def rank(self, v):
        if isinstance(v, list):
            if not v:
                return 1
            return 1 + self.rank(v[0])
        if isinstance(v, U) and self.sort(v) == 'seq':
            return 1 + self.rank(self.child(v, 0))
        return 0

    def matrix(self, v):
        """a two-dimensional array; an unknown of unknown rank is one already"""
        if isinstance(v, U):
            self.seq(v)
            self.open_rank(v)
        r = self.rank(v)
        if r == 0:
            return [[v]]
        if r == 1:
            if all(isinstance(x, U) and self.sort(x) is None for x in self.seq(v)):
                pass
            return [self.seq(v)]
        return v

    def index(self, v, idx):
        if not idx:
            return v
        if isinstance(v, U) and v.path in self.nones:
            raise Fail('None subscripted')
        i, rest = idx[0], idx[1:]
        if i is None:
            return [self.index(v, rest)]
        if isinstance(i, str):
            return self.index(self.get(v, i), rest)
        if isinstance(v, D):
            return self.index(self.get(v, i), rest)
        if isinstance(i, Slice):
            s = self.seq(v)[self.pyslice(i)]
            return [self.index(x, rest) for x in s] if rest else s
        if isinstance(i, U) and isinstance(v, U) and self.sort(v) != 'seq' and self.sort(i) is None:
            return self.index(self.get(v, i), rest)
        if isinstance(i, U):
            if self.sort(i) == 'seq':
                i = self.seq(i)
            else:
                i = self.int(i)
        if isinstance(i, list):
            i = self.flatlist(i) if self.rank(i) > 1 and all(len(x) == 1 for x in i if isinstance(x, list)) else i
            if i and all(isinstance(x, bool) for x in i):
                s = self.seq(v)
                if len(s) != len(i):
                    self.resize(v, len(i))
                    raise Fail('mask of another length')
                s = [x for x, b in zip(s, i) if b]
                return [self.index(x, rest) for x in s] if rest else s
            if any(isinstance(x, list) for x in i):
                raise Fail('index of rank 2')
            s = self.seq(v)
            return [self.index(self.elem(s, self.int(x)), rest) for x in i]
        if isinstance(i, bool) or not is_num(i):
            raise Fail('index')
        i = self.int(i)
        if isinstance(v, U) and self.sort(v) != 'seq' and i >= 0:
            return self.index(self.child(v, i), rest)
        return self.index(self.elem(self.seq(v), i), rest)

    def elem(self, s, i):
        if not -len(s) <= i < len(s):
            raise Fail('index out of range')
        return s[i]

    def pyslice(self, s):
        f = lambda x: None if x is None else self.int(x)
        st = f(s.st)
        if st == 0:
            raise Fail('slice step zero')
        return slice(f(s.lo), f(s.hi), st)

    def assign(self, v, idx, x):
        """copy of v with v[idx] = x"""
        i, rest = idx[0], idx[1:]
        if isinstance(i, str) or isinstance(v, D) or isinstance(v, U) and self.sort(v) != 'seq' and not rest and not isinstance(i, (Slice, list)) \
                and not is_num(i):
            if rest:
                raise Fail('store')
            return self.put(v, i, x)
        s = list(self.seq(v))
        if isinstance(i, U):
            i = self.seq(i) if self.sort(i) == 'seq' else self.int(i)
        if isinstance(i, Slice):
            pos = list(range(len(s)))[self.pyslice(i)]
        elif isinstance(i, list):
            if i and all(isinstance(y, bool) for y in i):
                if len(i) != len(s):
                    raise Fail('mask')
                pos = [j for j, b in enumerate(i) if b]
            else:
                pos = [self.int(y) for y in i]
        elif is_num(i):
            j = self.int(i)
            self.elem(s, j)
            s[j] = self.assign(s[j], rest, x) if rest else self.fit(x, s[j])
            return s
        else:
            raise Fail('store index')
        if isinstance(x, U) and self.sort(x) is None and not rest and len(pos) > 1 and self.r('spread', x.cls) % 2:
            x = [self.child(x, j) for j in range(len(pos))]     # nothing else tells whether it is one value or one for each place
        many = isinstance(x, list) or isinstance(x, U) and self.sort(x) == 'seq'
        if many:
            xs = self.seq(x)
            if rest and isinstance(xs and xs[0], list) is False and self.rank(xs) == 1 and (isinstance(rest[0], (Slice, list)) or isinstance(
                    rest[0], U) and self.sort(rest[0]) == 'seq'):
                xs = [xs] * len(pos)
            if len(xs) == 1 and len(pos) != 1:
                xs = xs * len(pos)
            if len(xs) != len(pos):
                raise Fail('store shape')
        else:
            xs = [x] * len(pos)
        for j, y in zip(pos, xs):
            self.elem(s, j)
            s[j] = self.assign(s[j], rest, y) if rest else y
        return s

    def fit(self, x, old):
        """a row assigned a number, a number assigned a singleton"""
        if isinstance(old, list) and not isinstance(x, list) and is_num(x):
            return [self.fit(x, y) for y in old]
        if is_num(old) and isinstance(x, list) and len(x) == 1:
            return x[0]
        return x

    def flatlist(self, v):
        if isinstance(v, list):
            out = []
            for x in v:
                out.extend(self.flatlist(x))
            return out
        if isinstance(v, U) and self.sort(v) == 'seq':
            return self.flatlist(self.seq(v))
        return [v]

    def zipmap(self, f, *vs):
        """elementwise with broadcasting"""
        if not any(isinstance(v, list) for v in vs):
            return f(*vs)
        rk = max(self.rank(v) for v in vs)
        vs = [self.lift(v, rk) for v in vs]
        n = max(len(v) for v in vs)
        for v in vs:
            if len(v) not in (1, n):
                raise Fail('shapes do not match')
        if any(len(v) == 0 for v in vs):
            return []
        return [self.zipmap(f, *[v[0] if len(v) == 1 else v[i] for v in vs]) for i in range(n)]

    def lift(self, v, rk):
        while self.rank(v) < rk:
            v = [v]
        return v

    def reduce(self, v, axis, f):
        """f maps a list of numbers to a value"""
        v = self.num(v)
        if not isinstance(v, list):
            if axis is not None and self.int(axis) not in (0, -1):
                raise Fail('axis')
            return f([v])
        if axis is None:
            return f(self.flatlist(v))
        axis = self.int(axis)
        rk = self.rank(v)
        if axis < 0:
            axis += rk
        if not 0 <= axis < rk:
            raise Fail('axis')
        return self.along(v, axis, f)

    def along(self, v, axis, f):
        if axis == 0:
            if v and isinstance(v[0], list):
                w = [len(x) if isinstance(x, list) else -1 for x in v]
                if len(set(w)) != 1:
                    raise Fail('ragged')
                return [self.along([x[j] for x in v], 0, f) for j in range(w[0])]
            return f(v)
        return [self.along(x, axis - 1, f) for x in v]

    def shape(self, v):
        out = []
        while isinstance(v, list) or isinstance(v, U) and self.sort(v) == 'seq':
            s = self.seq(v)
            out.append(len(s))
            if not s:
                break
            v = s[0]
        return out


def canon_index(i):
    if is_num(i):
        f = float(i)
        return H('n', '%.*g' % (DIGITS, f + 0.0) if f else '0')
    return i


ABSENT = H('absent')


def close(a, b):
    if a == b:
        return True
    try:
        x, y = float(a), float(b)
    except OverflowError:
        return False
    if x != x and y != y:
        return True
    if x != x or y != y or math.inf in (abs(x), abs(y)):
        return False
    return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))


def flat(I, v):
    return I.flatlist(v) if isinstance(v, list) or isinstance(v, U) else [v]


# ------------------------------------------------------------------------------------ operations
OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


for _n, _v in (('none', None), ('true', True), ('false', False), ('inf', math.inf), ('nan', math.nan), ('pi', math.pi), ('undef', U_)):
    OPS[_n] = lambda I, t, env, v=_v: v


@op('num')
def _(I, t, env):
    return t.args[0]


@op('str')
def _(I, t, env):
    return t.args[0]


@op('sym')
def _(I, t, env):
    n = t.args[0]
    k = kind(t)
    return U(H('sym', n), H('sym', n, k))


@op('bv')
def _(I, t, env):
    return env[t]


def power(b, e):
    if e.denominator == 1:
        if b == 0 and e < 0:
            raise Fail('division by zero')
        return b ** int(e)
    if b < 0:
        raise Fail('root of a negative number')
    if b == 0:
        if e < 0:
            raise Fail('division by zero')
        return Fraction(0)
    r = float(b) ** float(e)
    q = Fraction(r).limit_denominator(10000)
    if isinstance(b, Fraction) and e.denominator == 2 and q ** 2 == b ** (e * 2):
        return q
    return r


@op('poly')
def _(I, t, env):
    total = None
    vals = {}
    for c, m in t.args[0]:
        for a, e in m:
            if a not in vals:
                vals[a] = I.num(I.ev(a, env))
    for c, m in t.args[0]:
        r = c
        for a, e in m:
            v = vals[a]
            r = I.zipmap(lambda x, y, e=e: x * power(y, e), r, v)
        total = r if total is None else I.zipmap(lambda x, y: x + y, total, r)
    return total


@op('bigmul')
def _(I, t, env):
    r = Fraction(1)
    for a in t.args:
        r = I.zipmap(lambda x, y: x * y, r, I.num(I.ev(a, env)))
    return r


def unary(name, f):
    def g(I, t, env):
        return I.zipmap(f, I.num(I.ev(t.args[0], env)))
    OPS[name] = g


def fexp(x):
    if x > 300:
        raise Fail('overflow')
    return math.exp(x) if x else Fraction(1)


def flog(x):
    if x <= 0:
        raise Fail('log')
    return math.log(x) if x != 1 else Fraction(0)


unary('exp', fexp)


@op('log')
def _(I, t, env):
    v = I.num(I.ev(t.args[0], env))
    try:
        return I.zipmap(flog, v)
    except Fail:
        # the unknown numbers whose logarithm is taken may be such that it exists
        x, sign = t.args[0], 1
        while True:
            if x.op in ('rows', 'asarr', 'as2d', 'col', 'flat', 'squeeze', 'copyarr', 'reshape', 'T'):
                x = x.args[0]
            elif x.op == 'poly' and len([m for c, m in x.args[0] if m]) == 1:
                c, m = [(c, m) for c, m in x.args[0] if m][0]
                if len(m) != 1 or m[0][1] != 1:
                    raise
                x, sign = m[0][0], sign * (1 if c > 0 else -1)
            else:
                break
        us = I.ev(x, env)
        if isinstance(us, U) and I.sort(us) == 'seq':
            us = I.seq(us)
        new = {u.cls for u in (I.flatlist(us) if isinstance(us, list) else [us]) if isinstance(u, U) and u.path not in I.given} - set(I.signs)
        if not new:
            raise
        for c in new:
            I.signs[c] = sign
        raise Again()


unary('abs', abs)
unary('ncdf', lambda x: 0.5 * math.erfc(-float(x) / math.sqrt(2)))
EFN = dict(sin=math.sin, cos=math.cos, tan=math.tan, tanh=math.tanh, arctan=math.atan, floor=math.floor, ceil=math.ceil,
           sign=lambda x: (x > 0) - (x < 0))


@op('efn')
def _(I, t, env):
    f = EFN.get(t.args[0])
    if f is None:
        f = lambda x: math.sin(x * 1.7 + len(t.args[0]))
    return I.zipmap(f, I.num(I.ev(t.args[1], env)))


unary('float', lambda x: x)


@op('round')
def _(I, t, env):
    v = I.num(I.ev(t.args[0], env))
    n = I.int(I.any(t.args[1], env)) if len(t.args) > 1 and t.args[1] is not tm.NONE else 0
    return I.zipmap(lambda x: Fraction(round(x, n)) if math.isfinite(x) else x, v)



def fint(x):
    if x != x or x in (math.inf, -math.inf):
        raise Fail('int')
    return int(x)


unary('int', fint)


def variadic(name, f):
    def g(I, t, env):
        vs = [I.num(I.ev(a, env)) for a in t.args]
        return I.zipmap(lambda *x: f(x), *vs)
    OPS[name] = g


variadic('min', min)
variadic('max', max)


def binary(name, f):
    def g(I, t, env):
        return I.zipmap(f, I.num(I.ev(t.args[0], env)), I.num(I.ev(t.args[1], env)))
    OPS[name] = g


def nz(f):
    def g(a, b):
        if b == 0:
            raise Fail('division by zero')
        return f(a, b)
    return g


binary('mod', nz(lambda a, b: a % b))
binary('rem', nz(lambda a, b: a % b))
binary('floordiv', nz(lambda a, b: Fraction(a // b)))


def fpow(a, b):
    if isinstance(b, (int, Fraction)):
        return power(a, Fraction(b))
    if a <= 0:
        raise Fail('power')
    return float(a) ** float(b)


binary('powt', fpow)


# ---- booleans
@op('ite')
def _(I, t, env):
    c = I.ev(t.args[0], env)
    if isinstance(c, U):
        c = I.bool(c)
    if isinstance(c, list):
        a, b = I.ev(t.args[1], env), I.ev(t.args[2], env)
        if isinstance(a, U):
            a = a if I.sort(a) != 'seq' else I.seq(a)
        if isinstance(b, U):
            b = b if I.sort(b) != 'seq' else I.seq(b)
        return I.zipmap(lambda x, y, z: y if (x if isinstance(x, bool) else I.bool(x)) else z, c, a, b)
    c = I.bool(c)
    if not env:
        I.path.append((t.args[0], c))
    return I.ev(t.args[1] if c else t.args[2], env)


@op('lt0')
def _(I, t, env):
    return I.zipmap(lambda x: bool(x < 0) if not close0(x) else False, I.num(I.ev(t.args[0], env)))


def close0(x):
    return x == 0 or isinstance(x, float) and abs(x) < 1e-11


@op('eq0')
def _(I, t, env):
    return I.zipmap(lambda x: bool(close0(x)), I.num(I.ev(t.args[0], env)))


@op('eq')
def _(I, t, env):
    a, b = I.ev(t.args[0], env), I.ev(t.args[1], env)
    if isinstance(a, list) != isinstance(b, list) and (is_num(a) or is_num(b)):
        return I.zipmap(lambda x, y: close(x, y), I.num(a), I.num(b))
    return I.eq(a, b)


@op('isnone')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if v is None:
        return True
    if isinstance(v, U) and I.sort(v) in (None, 'num', 'seq', 'int', 'str'):
        if v.path in I.forced:
            return v.path in I.nones
        if kind(t.args[0]) is None and I.r('none', v.path) % (3, 9, 2)[I.seed % 3] == 0:
            if v.path not in I.nones:
                I.nones.add(v.path)
                raise Again()
            return True
    return False


@op('truthy')
def _(I, t, env):
    return I.bool(I.ev(t.args[0], env))


@op('in')
def _(I, t, env):
    return I.has(I.ev(t.args[0], env), I.ev(t.args[1], env))


@op('exists')
def _(I, t, env):
    n = I.int(I.ev(t.args[0], env))
    for j in range(n):
        c = I.ev(t.args[2], bind(env, t, [j]))
        if isinstance(c, list):
            c = any(I.flatlist(c))
        if I.bool(c):
            return True
    return False


def bind(env, t, vals):
    e = dict(env)
    for b, v in zip(t.args[1], vals):
        e[b] = v
    return e


def demand(I, t, env, s):
    """the unknowns an integer (or array) is made of are integers (arrays)"""
    if not isinstance(t, T):
        return
    if t.op == 'poly':
        for c, m in t.args[0]:
            for a, e in m:
                demand(I, a, env, s)
    elif t.op in ('min', 'max', 'abs', 'exp', 'log', 'ncdf', 'float', 'floordiv', 'mod', 'efn'):
        for a in t.args:
            if isinstance(a, T):
                demand(I, a, env, s)
    elif s != 'int' and t.op in RED:
        demand(I, t.args[0], env, s + 1)
    elif s != 'int' and t.op == 'col':
        demand(I, t.args[0], env, s - 1)
    elif t.op in ('rows', 'asarr', 'as2d') or t.op == 'int' and s != 'int':
        demand(I, t.args[0], env, s)
    elif t.op == 'ite':
        if free(t.args[0]) <= set(env):
            demand(I, t.args[1 if I.truth(t.args[0], env) else 2], env, s)
    else:
        v = I.ev(t, env)
        if isinstance(v, U):
            if s == 'int' and I.sort(v) in (None, 'num'):
                I.refine(v, 'int')
            while s != 'int' and s and isinstance(v, U):
                if I.sort(v) in (None, 'num', 'int'):
                    I.refine(v, 'seq')
                s -= 1
                v = I.child(v, 0)


def whole(I, t, env):
    v = I.ev(t, env)
    try:
        return I.int(v)
    except Fail:
        demand(I, t, env, 'int')
        raise


def count(I, t, env):
    n = whole(I, t.args[0], env)
    if n > 12 + 2 * I.big:
        raise Fail('too many iterations')
    return n


@op('anytrue', 'alltrue')
def _(I, t, env):
    v = t.args[0]
    v = I.ev(v.args[0] if v.op == 'truthy' else v, env)          # the truth of each element
    ax = I.any(t.args[1], env) if len(t.args) > 1 else None
    f = (lambda l: any(I.bool(x) for x in l)) if t.op == 'anytrue' else (lambda l: all(I.bool(x) for x in l))
    if isinstance(v, bool):
        return v
    if isinstance(v, U):
        v = I.seq(v)
    if ax is None:
        return f(I.flatlist(v))
    ax = I.int(ax)
    return I.along(v, ax + I.rank(v) if ax < 0 else ax, f)


# ---- sequences
@op('list', 'tuple')
def _(I, t, env):
    out = []
    for a in t.args:
        if isinstance(a, T) and a.op == 'splice':
            out.extend(I.seq(I.ev(a.args[0], env)))
        else:
            out.append(I.any(a, env))
    return out


@op('cat')
def _(I, t, env):
    out = []
    for a in t.args:
        out.extend(I.seq(I.ev(a, env)))
    return out


@op('splice')
def _(I, t, env):
    return I.ev(t.args[0], env)


@op('comp')
def _(I, t, env):
    out = []
    for j in range(count(I, t, env)):
        out.extend(I.seq(I.ev(t.args[2], bind(env, t, [j]))))
    return out


@op('sum')
def _(I, t, env):
    r = Fraction(0)
    for j in range(count(I, t, env)):
        r = I.zipmap(lambda x, y: x + y, r, I.num(I.ev(t.args[2], bind(env, t, [j]))))
    return r


@op('prod')
def _(I, t, env):
    r = Fraction(1)
    for j in range(count(I, t, env)):
        r = I.zipmap(lambda x, y: x * y, r, I.num(I.ev(t.args[2], bind(env, t, [j]))))
    return r


@op('rmin', 'rmax')
def _(I, t, env):
    f = min if t.op == 'rmin' else max
    r = math.inf if t.op == 'rmin' else -math.inf
    for j in range(count(I, t, env)):
        r = I.zipmap(lambda x, y: f(x, y), r, I.num(I.ev(t.args[2], bind(env, t, [j]))))
    return r


@op('until')
def _(I, t, env):
    n = count(I, t, env)
    for j in range(n):
        if I.bool(I.ev(t.args[2], bind(env, t, [j]))):
            return j
    return n


@op('fold')
def _(I, t, env):
    raise Fail('bare fold')


@op('proj')
def _(I, t, env):
    f, q, inits = t.args
    if f.op != 'fold':
        raise Fail('projection')
    vals = [I.ev(x, env) for x in inits.args]
    key = ('fold', f, tuple(I.canon(v) for v in vals), tuple(I.canon(env[b]) for b in sorted(free(f))))
    r = I.memo.get(key)
    if r is None:
        n = count(I, f, env)
        body = f.args[2]
        for j in range(n):
            e = bind(env, f, [j] + vals)
            vals = [I.ev(b, e) for b in body.args]
        r = I.memo[key] = vals
    return r[int(q.args[0])]


@op('len')
def _(I, t, env):
    return len(I.seq(I.ev(t.args[0], env)))


@op('fill')
def _(I, t, env):
    v, n = I.ev(t.args[0], env), I.int(I.ev(t.args[1], env))
    if is_num(v):
        return [v] * n
    v = I.num(v)
    if not isinstance(v, list):
        return [v] * n
    if len(v) not in (1, n):
        raise Fail('shapes do not match')
    return v if len(v) == n else v * n


@op('cols')
def _(I, t, env):
    m = I.ev(t.args[0], env)
    s = I.seq(m)
    if not s:
        raise Fail('columns of an empty array')
    return len(I.seq(s[0]))


@op('shape')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if isinstance(v, U) and I.sort(v) is None:
        I.refine(v, 'seq')
    return I.shape(v)


@op('size')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if isinstance(v, U):
        I.seq(v)
    return len(I.flatlist(v))


@op('ndim')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if isinstance(v, U):
        I.seq(v)
        I.open_rank(v)
    return I.rank(v)


@op('at')
def _(I, t, env):
    b = I.ev(t.args[0], env)
    idx = [I.any(x, env) for x in t.args[1]]
    if isinstance(b, Obj):
        return I.unknown('at', [b] + idx)
    if isinstance(b, Undef):
        return b
    if is_num(b) and all(i is None or isinstance(i, Slice) for i in idx):
        return b
    try:
        return I.index(b, idx)
    except Fail as e:
        if str(e) == 'not a sequence':
            demand(I, t.args[0], env, sum(i is not None for i in idx))
        raise


@op('item')
def _(I, t, env):
    return I.get(I.ev(t.args[0], env), I.ev(t.args[1], env))


@op('slc')
def _(I, t, env):
    for a in t.args:
        if a.op != 'none' and a.op in ('poly', 'min', 'max', 'ite', 'num'):
            if not (a.op == 'ite' and I.ev(a, env) is None):
                whole(I, a, env)
    return Slice(*[I.ev(a, env) for a in t.args])


@op('attr')
def _(I, t, env):
    b = I.ev(t.args[0], env)
    k = t.args[1]
    while isinstance(b, Obj):
        if k in b.fields:
            return b.fields[k]
        b = b.base
    if isinstance(b, U):
        return U(H('attr', b.path, k), H('attr', b.cls, k))
    return I.unknown('attr:' + str(k), [b])


@op('upd')
def _(I, t, env):
    b = I.ev(t.args[0], env)
    f = {k: I.ev(v, env) for k, v in t.args[1]}
    if isinstance(b, Obj):
        return Obj(b.base, dict(b.fields, **f))
    return Obj(b, f)


@op('store')
def _(I, t, env):
    return I.assign(I.ev(t.args[0], env), [I.any(x, env) for x in t.args[1]], I.ev(t.args[2], env))


@op('stores')
def _(I, t, env):
    v = I.ev(t.args[4], env) if len(t.args) > 4 else None
    for j in range(count(I, t, env)):
        e = bind(env, t, [j])
        v = I.assign(v, [I.ev(x, e) for x in t.args[2].args], I.ev(t.args[3], e))
    return v


@op('as2d')
def _(I, t, env):
    return I.matrix(I.ev(t.args[0], env))


@op('atleast1d', 'as1d')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    return v if isinstance(v, (list, U)) else [v]


@op('col')
def _(I, t, env):
    return [[x] for x in I.seq(I.ev(t.args[0], env))]


@op('flat')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if isinstance(v, bool) and t.args[0].op in ('eq0', 'lt0') and t.args[0].args[0].op == 'poly':
        u = [m for c, m in t.args[0].args[0].args[0] if m]
        if len(u) == 1 and len(u[0]) == 1:
            demand(I, u[0][0][0], env, 1)                 # what is flattened has a dimension
    if isinstance(v, U):
        v = I.seq(v)
    return I.flatlist(v)


@op('squeeze')
def _(I, t, env):
    v = I.ev(t.args[0], env)

    def sq(v):
        if isinstance(v, U) and I.sort(v) == 'seq':
            v = I.seq(v)
        if isinstance(v, list):
            if len(v) == 1:
                return sq(v[0])
            v = [sq(x) for x in v]
        return v
    return sq(v)


@op('rows', 'asarr', 'aslist', 'copyarr', 'astype')
def _(I, t, env):
    return I.ev(t.args[0], env)


@op('T')
def _(I, t, env):
    v = I.matrix(I.ev(t.args[0], env))
    s = [I.seq(x) for x in I.seq(v)]
    if len({len(x) for x in s}) != 1:
        raise Fail('ragged')
    return [list(x) for x in zip(*s)]


@op('vstack')
def _(I, t, env):
    parts = [x if I.rank(x) or isinstance(x, U) else [x] for x in I.seq(I.ev(t.args[0], env))]
    for x in parts:
        if isinstance(x, U) and I.sort(x) is None:
            I.refine(x, 'seq')
    if len(parts) > 1 and any(not (isinstance(x, U) and I.sort(x) == 'seq' and x.cls in I.zeros) for x in parts):
        parts = [x for x in parts if not (isinstance(x, U) and I.sort(x) == 'seq' and x.cls in I.zeros)]
    ranks = {I.rank(x) for x in parts}
    for x in parts:
        for y in I.seq(x):
            if isinstance(y, U) and I.sort(y) is None and (isinstance(x, U) or max(ranks) > 1):
                I.refine(y, 'seq')
    rows = [r for x in parts for r in (x if I.rank(x) > 1 and isinstance(x, list) else I.seq(x) if I.rank(x) > 1 else [I.seq(x)])]
    us = rows + [x for x in parts if isinstance(x, U) and I.rank(x) == 1]
    rows = [I.seq(r) for r in rows]
    if len({len(r) for r in rows}) > 1:
        known = [len(r) for r, u in zip(rows, us) if not isinstance(u, U)] or [len(rows[0])]
        for u in us:
            if isinstance(u, U) and I.sort(u) == 'seq' and I.length(u) != known[0]:
                I.resize(u, known[0])
        raise Fail('stacked rows of different length')
    return rows


@op('concat')
def _(I, t, env):
    out = []
    for x in I.seq(I.ev(t.args[0], env)):
        out.extend(I.seq(x))
    return out


@op('hstack')
def _(I, t, env):
    parts = [I.ev(t.args[0], env)]
    parts = I.seq(parts[0])
    for x in parts:
        if isinstance(x, U) and I.sort(x) is None:
            I.refine(x, 'seq')
    if all(I.rank(x) <= 1 for x in parts):
        return [y for x in parts for y in (I.seq(x) if I.rank(x) else [x])]
    ms = [[I.seq(r) for r in I.seq(x)] for x in parts]
    if len({len(m) for m in ms}) != 1:
        raise Fail('joined columns of different height')
    return [[y for r in rs for y in r] for rs in zip(*ms)]


@op('reshape')
def _(I, t, env):
    v, sh = I.ev(t.args[0], env), I.ev(t.args[1], env)
    l = I.flatlist(v) if not isinstance(v, U) else I.flatlist(I.seq(v))
    dims = [I.int(x) for x in (sh if isinstance(sh, list) else [sh])]
    if dims.count(-1) > 1:
        raise Fail('reshape')
    if -1 in dims:
        k = 1
        for d in dims:
            k *= d if d != -1 else 1
        if not k or len(l) % k:
            raise Fail('reshape')
        dims[dims.index(-1)] = len(l) // k
    k = 1
    for d in dims:
        k *= d
    if k > 2000:
        raise Fail('large array')
    if k != len(l):
        if len(l) == 1:
            l = l * k
        else:
            raise Fail('reshape')

    def build(l, dims):
        if len(dims) == 1:
            return list(l)
        m = len(l) // dims[0] if dims[0] else 0
        return [build(l[i * m:(i + 1) * m], dims[1:]) for i in range(dims[0])]
    return build(l, dims)


def filled(dims, f, at=()):
    if math.prod(dims) > 400:
        raise Fail('large array')
    if not dims:
        return f(at)
    return [filled(dims[1:], f, at + (i,)) for i in range(dims[0])]


def dims_of(I, t, env):
    if t.op in ('tuple', 'list'):
        return [whole(I, x, env) for x in t.args]
    v = I.ev(t, env)
    if isinstance(v, list):
        return [I.int(x) for x in v]
    return [whole(I, t, env)]


@op('full')
def _(I, t, env):
    v = I.ev(t.args[1], env)
    return filled(dims_of(I, t.args[0], env), lambda at: v)


@op('empty')
def _(I, t, env):
    return filled(dims_of(I, t.args[0], env), lambda at: U(H('empty', at), H('empty')))


@op('range')
def _(I, t, env):
    a = [whole(I, x, env) for x in t.args]
    if len(a) > 2 and a[2] == 0:
        raise Fail('range')
    r = list(range(*a))
    if len(r) > 40:
        raise Fail('range')
    return r


@op('dot')
def _(I, t, env):
    a, b = I.num(I.ev(t.args[0], env)), I.num(I.ev(t.args[1], env))
    ra, rb = I.rank(a), I.rank(b)
    if ra == 0 or rb == 0:
        return I.zipmap(lambda x, y: x * y, a, b)

    def vec(x, y):
        if len(x) != len(y):
            raise Fail('product of shapes')
        r = Fraction(0)
        for p, q in zip(x, y):
            r = r + p * q
        return r
    if ra == 1 and rb == 1:
        return vec(a, b)
    if rb == 1:
        return [vec(r, b) for r in a]
    bt = [list(x) for x in zip(*b)]
    if ra == 1:
        return [vec(a, c) for c in bt]
    return [[vec(r, c) for c in bt] for r in a]


def ne(f):
    def g(l):
        if not l:
            raise Fail('empty reduction')
        return f(l)
    return g


def mean(l):
    return sum(l[1:], l[0]) / Fraction(len(l))


def var(l):
    m = mean(l)
    return mean([(x - m) ** 2 for x in l])


RED = {'asum': lambda l: sum(l, Fraction(0)), 'amin': ne(min), 'amax': ne(max), 'amean': ne(mean), 'avar': ne(var),
       'astd': ne(lambda l: power(var(l), Fraction(1, 2)) if isinstance(var(l), Fraction) else math.sqrt(var(l))),
       'aptp': ne(lambda l: max(l) - min(l)), 'aprod': lambda l: math.prod(l),
       'argmin': ne(lambda l: l.index(min(l))), 'argmax': ne(lambda l: l.index(max(l))),
       'amedian': ne(lambda l: mean(sorted(l)[(len(l) - 1) // 2:len(l) // 2 + 1]))}
for _n in RED:
    def _mk(n):
        def g(I, t, env):
            v = I.ev(t.args[0], env)
            if isinstance(v, U):
                I.seq(v)
            elif n in ('argmin', 'argmax') and not isinstance(v, (list, dict)):
                demand(I, t.args[0], env, 1)
            ax = I.any(t.args[1], env) if len(t.args) > 1 else None
            try:
                return I.reduce(v, ax, RED[n])
            except Fail as e:
                if str(e) == 'axis':
                    demand(I, t.args[0], env, 1 + I.int(ax) if I.int(ax) >= 0 else -I.int(ax))
                raise
        return g
    OPS[_n] = _mk(_n)


@op('argsort')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if isinstance(v, U):
        I.seq(v)
    else:
        demand(I, t.args[0], env, 1) if I.rank(v) == 0 else None
    v = I.num(v)
    ax = I.any(t.args[1], env) if len(t.args) > 1 else None
    if I.rank(v) != 1:
        if ax is None or I.rank(v) == 0:
            raise Fail('argsort')
        ax = I.int(ax)
        if ax not in (0, -1, 1):
            raise Fail('argsort')
        if ax == 0:
            c = [sorted(range(len(v)), key=lambda i: v[i][j]) for j in range(len(v[0]))]
            return [list(x) for x in zip(*c)]
        return [sorted(range(len(r)), key=lambda i: r[i]) for r in v]
    return sorted(range(len(v)), key=lambda i: v[i])


@op('asort')
def _(I, t, env):
    v = I.ev(t.args[0], env)
    if isinstance(v, U):
        I.seq(v)
    elif I.rank(v) == 0:
        demand(I, t.args[0], env, 1)
    v = I.num(v)
    if not isinstance(v, list) or I.rank(v) != 1:
        raise Fail('sort')
    return sorted(v)


@op('acumsum', 'acumprod', 'accmin', 'accmax')
def _(I, t, env):
    v = I.num(I.ev(t.args[0], env))
    f = {'acumsum': lambda a, b: a + b, 'acumprod': lambda a, b: a * b, 'accmin': min, 'accmax': max}[t.op]
    if t.op.startswith('acum'):
        ax = I.any(t.args[1], env) if len(t.args) > 1 else None
        if ax is None:
            v = I.flatlist(v)
        elif isinstance(ax, U) or int(ax) not in (0, 1, -1):
            raise Fail('axis')
        elif int(ax) == 1 or int(ax) == -1 and v and isinstance(v[0], list):
            if not all(isinstance(x, list) for x in v):
                raise Fail('axis')
            return [run(I, f, x) for x in v]
    return run(I, f, v)


def run(I, f, v):
    out = []
    for x in v:
        out.append(x if not out else I.zipmap(f, out[-1], x))
    return out


@op('keepdims')
def _(I, t, env):
    return I.ev(t.args[0], env)


@op('fliplist')
def _(I, t, env):
    return I.seq(I.ev(t.args[0], env))[::-1]


def order_key(I, v):
    if isinstance(v, U) and I.sort(v) in ('num', 'int', 'seq'):
        v = I.num(v)
    if isinstance(v, (bool,) + NUMS):
        return (0, float(v))
    if isinstance(v, str):
        return (1, v)
    if isinstance(v, list):
        return (2, tuple(order_key(I, x) for x in v))
    return (3, I.canon(v))


@op('sorted')
def _(I, t, env):
    l = list(I.seq(I.ev(t.args[0], env)))
    key = I.any(t.args[1], env) if len(t.args) > 1 else None
    rev = I.any(t.args[2], env) if len(t.args) > 2 else False
    if key is not None and not isinstance(key, Fn):
        raise Fail('sort key')
    l.sort(key=lambda x: order_key(I, x if key is None else I.apply(key, [x])))
    if rev is True:
        l.reverse()
    return l


def dedupe(I, l):
    seen, out = set(), []
    for x in l:
        c = I.canon(x)
        if c not in seen:
            seen.add(c)
            out.append(x)
    return out


@op('set')
def _(I, t, env):
    return sorted(dedupe(I, [x for a in t.args for x in I.seq(I.ev(a, env))]), key=lambda x: order_key(I, x))


@op('setsub', 'setand', 'setunion')
def _(I, t, env):
    a, b = I.seq(I.ev(t.args[0], env)), I.seq(I.ev(t.args[1], env))
    cb = {I.canon(x) for x in b}
    if t.op == 'setsub':
        r = [x for x in a if I.canon(x) not in cb]
    elif t.op == 'setand':
        r = [x for x in a if I.canon(x) in cb]
    else:
        r = a + b
    return sorted(dedupe(I, r), key=lambda x: order_key(I, x))


@op('argminkey')
def _(I, t, env):
    l = I.seq(I.ev(t.args[0], env))
    f = I.ev(t.args[1], env)
    if not l:
        if len(t.args) > 2 and t.args[2] is not tm.UNDEF:
            return I.ev(t.args[2], env)
        raise Fail('minimum of nothing')
    return min(l, key=lambda x: order_key(I, I.apply(f, [x]) if isinstance(f, Fn) else x if f is None else I.apply(f, [x])))


@op('lindex')
def _(I, t, env):
    l, x = I.seq(I.ev(t.args[0], env)), I.ev(t.args[1], env)
    for j, y in enumerate(l):
        if I.eq(x, y):
            return j
    if isinstance(x, U) and x.path not in I.given and I.sort(x) in (None, 'num', 'int') and l and isinstance(l[0], U) and I.sort(l[0]) in (None, 'num', 'int'):
        # one of the list
        for y in l:
            I.refine(y, 'int')
        I.refine(x, 'int')
        I.given[x.path] = I.num(l[I.r('member', x.path) % len(l)])
        raise Again()
    raise Fail('not in the list')


@op('lcount')
def _(I, t, env):
    l, x = I.seq(I.ev(t.args[0], env)), I.ev(t.args[1], env)
    return sum(I.eq(x, y) for y in l)


@op('linsert')
def _(I, t, env):
    l = list(I.seq(I.ev(t.args[0], env)))
    l.insert(I.int(I.ev(t.args[1], env)), I.ev(t.args[2], env))
    return l


@op('lpop')
def _(I, t, env):
    l = list(I.seq(I.ev(t.args[0], env)))
    k = I.int(I.ev(t.args[1], env))
    I.elem(l, k)
    l.pop(k)
    return l


@op('zip')
def _(I, t, env):
    return [list(x) for x in zip(*[I.seq(I.ev(a, env)) for a in t.args])]


@op('reversed')
def _(I, t, env):
    return I.seq(I.ev(t.args[0], env))[::-1]


# ---- dictionaries
@op('dict')
def _(I, t, env):
    return D(None, [(I.any(k, env), I.any(v, env)) for k, v in t.args])


@op('dictupd')
def _(I, t, env):
    d = I.ev(t.args[0], env)
    for k, v in t.args[1]:
        d = I.put(d, I.any(k, env), I.any(v, env))
    return d


@op('dictmerge')
def _(I, t, env):
    a, b = I.ev(t.args[0], env), I.ev(t.args[1], env)
    for k in I.keys(b):
        a = I.put(a, k, I.get(b, k))
    return a


@op('dictcomp')
def _(I, t, env):
    d = D(None, [])
    for j in range(count(I, t, env)):
        e = bind(env, t, [j])
        if len(t.args) > 4 and not I.bool(I.any(t.args[4], e)):
            continue
        v = I.any(t.args[3], e)
        if isinstance(v, U) and v.path == ABSENT:
            continue
        k = I.any(t.args[2], e)
        if isinstance(k, U) and I.sort(k) is None and k.path not in I.nones and I.r('equal keys', tm.size(t)) % 3 == 1:
            I.refine(k, 'str')
        d = I.put(d, k, v)
    return d


@op('without')
def _(I, t, env):
    return I.without(I.ev(t.args[0], env), I.ev(t.args[1], env))


@op('keys')
def _(I, t, env):
    d = I.ev(t.args[0], env)
    return I.keys(d)


@op('values')
def _(I, t, env):
    d = I.ev(t.args[0], env)
    return [I.get(d, k) for k in I.keys(d)]


@op('items')
def _(I, t, env):
    d = I.ev(t.args[0], env)
    return [[k, I.get(d, k)] for k in I.keys(d)]


# ---- text
@op('strcat')
def _(I, t, env):
    return ''.join(I.text(I.ev(a, env)) for a in t.args)


@op('strloop')
def _(I, t, env):
    return ''.join(I.text(x) for x in I.seq(I.ev(t.args[0], env)))


@op('tostr')
def _(I, t, env):
    return I.text(I.ev(t.args[0], env))


@op('join')
def _(I, t, env):
    return I.text(I.ev(t.args[0], env)).join(I.text(x) for x in I.seq(I.ev(t.args[1], env)))


# ---- functions and calls
@op('lam')
def _(I, t, env):
    return Fn(I, t, env)


@op('app')
def _(I, t, env):
    f = I.ev(t.args[0], env)
    args = [I.any(a, env) for a in t.args[1]]
    kw = [(k, I.any(v, env)) for k, v in (t.args[2] if len(t.args) > 2 else ())]
    if isinstance(f, Fn) and not kw and f.n == len(args):
        return I.apply(f, args)
    return I.unknown('app', [f] + args + [x for k, v in kw for x in (k, v)], (cls_of(f),))


def cls_of(v):
    return v.cls if isinstance(v, U) else v.base.cls if isinstance(v, Obj) and isinstance(v.base, U) else '#'


@op('call')
def _(I, t, env):
    name = t.args[0]
    recv = I.ev(t.args[1], env) if isinstance(t.args[1], T) else None
    items = [(k, I.any(v, env)) for k, v in (t.args[2] if len(t.args) > 2 else ())]
    f = CALLS.get(name)
    if f is not None:
        r = f(I, [v for k, v in items if k.isdigit()], {k: v for k, v in items if not k.isdigit()})
        if r is not None:
            return r
    if name.startswith('ext:'):
        I.unint.add(name)
    vals = [recv]
    for k, v in items:
        vals += [k, v]
    vals += [I.any(x, env) for x in t.args[3:]]
    return I.unknown('call:' + name, vals, (cls_of(recv),))


@op('new')
def _(I, t, env):
    return I.unknown('new', [str(t.args[0])] + [I.any(a, env) for a in t.args[1:]])


@op('fnref', 'cls', 'pymod', 'ext', 'fun', 'pyconst', 'ellipsis', 'file', 'exc')
def _(I, t, env):
    return I.unknown(t.op, [I.any(a, env) for a in t.args])


@op('bmeth')
def _(I, t, env):
    return I.unknown('bmeth', [I.any(a, env) for a in t.args])


@op('did')
def _(I, t, env):
    return I.unknown('did', [I.any(a, env) for a in t.args])


@op('rand', 'time', 'usercode', 'raises', 'isinst', 'hasattr', 'callable', 'isfin', 'subcls', 'typeof', 'kwget', 'absent', 'vars')
def _(I, t, env):
    vals = [I.any(a, env) for a in t.args]
    if t.op == 'isfin':
        return finite(I, vals[0], vals[1])
    if t.op == 'isinst' and isinstance(t.args[1], str):
        return isa(I, I.canon(vals[0]), t.args[1])
    if is_bool(t) or t.op in ('raises', 'isinst', 'hasattr', 'callable', 'subcls'):
        return I.coin(t.op, *[I.canon(v) for v in vals])
    return I.unknown(t.op, vals, (t.op,) + tuple(a for a in t.args if isinstance(a, str)))


def isa(I, x, k):
    """whether the object is an instance of the class; classes with no common instance exclude each other"""
    f = I.forced.get(('coin', 'isinst', x, k))
    if f is not None:
        return f
    if I.asking is not None:
        return I.coin('isinst', x, k)
    for o in I.kinds:
        if o != k and tm.kinds_apart(o, k) and I.forced.get(('coin', 'isinst', x, o)):
            return False
        if o != k and tm.kind_of(o, k) and isa(I, x, o):
            return True
    return I.coin('isinst', x, k) and not any(o < k and tm.kinds_apart(o, k) and I.coin('isinst', x, o) for o in I.kinds)


def orders(a, b):
    """orders of magnitude that only one of the two forms distinguishes: thresholds, digits kept"""
    found = []
    for t in (a, b):
        f = set()
        for x in tm.walk(t):
            if x.op == 'round' and len(x.args) > 1 and isinstance(x.args[1], T) and x.args[1].op == 'num':
                f.add(Fraction(10) ** -int(x.args[1].args[0]))
            if x.op not in ('lt0', 'eq0', 'max', 'min'):
                continue
            for y in tm.subargs(x):
                if y.op == 'num' and y.args[0]:
                    f.add(abs(Fraction(y.args[0])))
                if y.op != 'poly' or len(y.args[0]) > 6:
                    continue
                for c, m in y.args[0]:
                    for d, n in y.args[0]:
                        if n and c and d and (c, m) != (d, n):
                            f.add(abs(Fraction(c) / Fraction(d)))
        found.append(f)
    f = found[0] ^ found[1]
    return sorted(x for x in f if Fraction(1, 10 ** 12) <= x <= Fraction(1, 1000) or 1000 <= x <= 10 ** 9)[:8]


def finite(I, kind, v):
    """whether a number (each number of an array) is finite, infinite or not a number"""
    if isinstance(v, U) and I.sort(v) == 'seq':
        v = I.seq(v)
    if isinstance(v, list):
        return [finite(I, kind, x) for x in v]
    c = I.canon(v)
    if kind == 'fin':
        return I.coin('isfin', 'fin', c)
    return not I.coin('isfin', 'fin', c) and I.coin('isfin', 'nan', c) == (kind == 'nan')


COINS = {'rand', 'time', 'usercode', 'raises', 'isinst', 'hasattr', 'callable', 'isfin', 'subcls'}
CALLS = {}


def call(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


# library functions interpreted here in full: such a call is no obstacle to a verdict
PURE = set()


def pure(*names):
    def deco(f):
        def g(I, a, kw):
            r = f(I, a, kw)
            if r is None:
                raise Fail('a form of %s that is not interpreted' % names[0])
            return r
        for n in names:
            CALLS[n] = g
            PURE.add(n)
        return f
    return deco


def vector(I, v, what):
    if isinstance(v, U):
        v = I.seq(v)
    if not isinstance(v, list) or I.rank(v) != 1:
        raise Fail(what)
    return v


@pure('ext:numpy.unique')
def _(I, a, kw):
    if len(a) != 1 or set(kw) - {'axis'}:
        return None
    if kw:
        v = a[0]
        if isinstance(v, U):
            v = I.seq(v)
        if kw['axis'] != 0 or not isinstance(v, list):
            return None
        v = I.num([I.seq(x) for x in v])
    else:
        v = I.num(vector(I, a[0], 'unique'))
    out = []
    for x in sorted(v):
        if not out or out[-1] != x:
            out.append(x)
    return out


@pure('ext:numpy.diag', 'ext:numpy.diagonal')
def _(I, a, kw):
    if len(a) != 1 or kw:
        return None
    v = a[0]
    if isinstance(v, U):
        v = I.seq(v)
    if not isinstance(v, list):
        return None
    r = I.rank(v)
    if r == 1:
        return [[x if j == k else Fraction(0) for k in range(len(v))] for j, x in enumerate(v)]
    rows = [I.seq(x) if isinstance(x, U) else x for x in v]
    return [rows[j][j] for j in range(min(len(rows), min(len(x) for x in rows)))] if rows else None


@pure('ext:numpy.roll')
def _(I, a, kw):
    k = kw.get('shift', a[1] if len(a) > 1 else None)
    if k is None or set(kw) - {'shift'} or len(a) > 2:
        return None
    v = vector(I, a[0], 'roll')
    k = I.int(k) % len(v) if v else 0
    return v[len(v) - k:] + v[:len(v) - k]


@pure('ext:numpy.repeat')
def _(I, a, kw):
    if len(a) != 2 or set(kw) - {'axis'}:
        return None
    n = I.int(a[1])
    v = a[0]
    if isinstance(v, U) and kw.get('axis') is not None:
        v = I.seq(v)
    if not isinstance(v, list):
        return None
    if kw.get('axis') == 0 or I.rank(v) == 1:
        return [x for x in v for _ in range(n)]
    return None


@pure('ext:numpy.take')
def _(I, a, kw):
    if len(a) != 2 or set(kw) - {'axis'}:
        return None
    v, j = a
    if isinstance(v, U):
        v = I.seq(v)
    if kw.get('axis') != 0 and (not isinstance(v, list) or I.rank(v) != 1):
        return None
    return [I.get(v, x) for x in j] if isinstance(j, list) else I.get(v, j)


@pure('ext:numpy.float32', 'ext:numpy.single')
def _(I, a, kw):
    if len(a) != 1 or kw:
        return None
    # half of the digits are lost: an eighth stands for the step between neighbours of large numbers
    return I.zipmap(lambda x: Fraction(round(x * 8), 8) if math.isfinite(x) else x, I.num(a[0]))


@pure('ext:numpy.argpartition', 'ext:numpy.partition')
def _(I, a, kw):
    return None


def partition(index):
    def f(I, a, kw):
        v = dict(zip(('a', 'kth', 'axis'), a), **kw)
        if set(v) - {'a', 'kth', 'axis'} or v.get('axis', -1) not in (-1, 0):
            return None
        x = I.num(vector(I, v['a'], 'partition'))
        k = I.int(v['kth'])
        if not -len(x) <= k < len(x):
            raise Fail('kth out of range')
        k %= len(x)
        o = sorted(range(len(x)), key=lambda i: x[i])
        # only the k-th is in its place: what comes before and after it is in any order
        o = o[:k][::-1] + o[k:k + 1] + o[k + 1:][::-1]
        return o if index else [x[i] for i in o]
    return f


CALLS['ext:numpy.argpartition'] = partition(True)
CALLS['ext:numpy.partition'] = partition(False)


@pure('ext:numpy.lexsort')
def _(I, a, kw):
    if len(a) != 1 or kw:
        return None
    v = I.num(I.seq(a[0]) if isinstance(a[0], U) else a[0])
    if not isinstance(v, list) or I.rank(v) != 2 or not v:
        raise Fail('lexsort')
    return sorted(range(len(v[0])), key=lambda j: [r[j] for r in reversed(v)])


@pure('ext:pyDOE.lhs')
def _(I, a, kw):
    if len(a) > 4 or set(kw) - {'n', 'samples', 'criterion', 'iterations'}:
        return None
    v = dict(zip(('n', 'samples', 'criterion', 'iterations'), a), **kw)
    if 'n' not in v:
        return None
    n = I.int(v['n'])
    m = n if v.get('samples') is None else I.int(v['samples'])
    if not 0 <= n < 50 or not 0 <= m < 50:
        raise Fail('too large a design')
    key = [I.canon(x) for x in (n, m, v.get('criterion'), v.get('iterations'))]
    return [[Fraction(I.r('lhs', i, j, *key) % 97, 97) for j in range(n)] for i in range(m)]


@call('ext:numpy.linalg.norm')
def _(I, a, kw):
    if len(a) != 1 or set(kw) - {'axis'}:
        return None
    v = a[0]
    if isinstance(v, U):
        I.seq(v)
    return I.reduce(v, kw.get('axis'), lambda l: power(sum((x * x for x in l), Fraction(0)), Fraction(1, 2))
                    if all(isinstance(x, (int, Fraction)) for x in l) else math.sqrt(sum(float(x) ** 2 for x in l)))


@call('ext:numpy.where')
def _(I, a, kw):
    if len(a) != 1 or kw:
        return None
    v = a[0]
    if isinstance(v, U):
        v = I.seq(v)
    if not isinstance(v, list) or I.rank(v) != 1:
        return None
    return [[j for j, x in enumerate(v) if I.bool(x)]]


@call('ext:numpy.isneginf')
def _(I, a, kw):
    return I.zipmap(lambda x: x == -math.inf, I.num(a[0])) if len(a) == 1 else None


@call('ext:numpy.zeros_like', 'ext:numpy.ones_like')
def _(I, a, kw):
    return None


# ---- effects
@op('events')
def _(I, t, env):
    out = []
    for a in t.args:
        v = I.ev(a, env)
        out.extend(v.l if isinstance(v, Events) else [v])
    return Events(merge(I, out))


@op('ev')
def _(I, t, env):
    if t.args[0] == 'call' and len(t.args) == 2:
        return I.ev(t.args[1], env)
    if t.args[0] == 'write' and len(t.args) == 2:
        return ['write', I.ev(t.args[1], env)]
    return ['ev'] + [I.any(a, env) for a in t.args]


@op('ev2')
def _(I, t, env):
    if not I.bool(I.ev(t.args[0], env)):
        return Events([])
    v = I.ev(t.args[1], env)
    return v if isinstance(v, Events) else Events([v])


@op('then')
def _(I, t, env):
    a, b = I.ev(t.args[0], env), I.ev(t.args[1], env)
    return Events(merge(I, (a.l if isinstance(a, Events) else [a]) + (b.l if isinstance(b, Events) else [b])))


@op('evloop')
def _(I, t, env):
    out = []
    for j in range(count(I, t, env)):
        e = bind(env, t, [j])
        for it in t.args[2].args:
            g, x = it.args
            if I.bool(I.ev(g, e)):
                v = I.ev(x, e)
                out.extend(v.l if isinstance(v, Events) else [v])
    return Events(merge(I, out))


def merge(I, l):
    out = []
    for x in l:
        if out and isinstance(x, list) and isinstance(out[-1], list) and len(x) == len(out[-1]) == 2 and x[0] == out[-1][0] == 'write' \
                and not isinstance(x[1], U) and not isinstance(out[-1][1], U):
            out[-1] = ['write', I.text(out[-1][1]) + I.text(x[1])]
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------------------------ the decision
CRASH = {'index out of range', 'stacked rows of different length', 'joined columns of different height', 'store shape', 'no such key', 'not in the list',
         'product of shapes', 'shapes do not match', 'reshape'}


def sole(c, y):
    """the condition compares the length y with a constant"""
    p = c.args[0]
    return p is y or p.op == 'poly' and all(not m or m == ((y, 1),) for _, m in p.args[0])


DEBUG = None
SCALE = 1          # the thorough tier looks at more interpretations


def refute(a, b, loose=True, given=(), tries=150, seconds=8.0):
    """does an interpretation tell a from b, or does every interpretation that takes some path of b leave a undefined (an index or
    shape that fits nowhere)?  ('differs' | 'agrees' | 'unknown', interpretations in which both were defined, operations left
    uninterpreted in a or the reasons for undefinedness)"""
    tries, seconds = tries * SCALE, seconds * SCALE
    allstr = sorted({x.args[0] for t in (a, b) for x in tm.walk(t) if x.op == 'str' and len(x.args[0]) < 40})[:40]
    cmpstr = sorted({y.args[0] for t in (a, b) for x in tm.walk(t) if x.op in ('eq', 'in') for y in x.args if isinstance(y, T) and y.op == 'str'})[:40]
    near = list(SMALL)
    for x in {x for t in (a, b) for x in tm.walk(t) if x.op in ('lt0', 'eq0')}:
        if x.args[0].op == 'poly':
            near += [s * c + d for c, m in x.args[0].args[0] if not m and abs(c) < 1000 for s in (1, -1) for d in (0, 1, -1)]
    for x in {x for t in (a, b) for x in tm.walk(t) if x.op in ('max', 'min')}:
        near += [s * y.args[0] for y in tm.subargs(x) if y.op == 'num' and 0 < abs(y.args[0]) < 1000 for s in (Fraction(1, 2), 2)]
    near = sorted(set(near))[:40]
    # thresholds beyond the lengths usually looked at
    scales = orders(a, b)
    bigs = {abs(c) for t in (a, b) for x in tm.walk(t) if x.op in ('lt0', 'eq0', 'max', 'min') for y in tm.subargs(x) if y.op == 'poly'
            for c, m in y.args[0] if not m}
    bigs |= {abs(y.args[0]) for t in (a, b) for x in tm.walk(t) if x.op == 'slc' for y in x.args if y.op == 'num'}
    bigs |= {abs(y.args[0]) for t in (a, b) for x in tm.walk(t) if x.op in ('max', 'min') for y in tm.subargs(x) if y.op == 'num'}
    bigs = sorted(int(c) for c in bigs if 2 < c < 2500 and c == int(c))
    huge = [c for c in bigs if c >= 300]
    bigs = [c for c in bigs if c < 300]
    keystr = set()
    for t in (a, b):
        for x in tm.walk(t):
            if x.op in ('item', 'without', 'dict', 'dictupd', 'at', 'in', 'eq'):
                st = list(x.args)
                while st:
                    y = st.pop()
                    if isinstance(y, tuple):
                        st += y
                    elif isinstance(y, T) and y.op == 'str':
                        keystr.add(y.args[0])
    keystr = tuple(sorted(keystr)[:12]) + ('<k1>', '<k2>')
    measured = {x.args[0] for t in (a, b) for x in tm.walk(t) if x.op in ('len', 'keys', 'items', 'values') and x.args[0].op in ('sym', 'attr')}
    maybe_empty = {y.args[0] for t in (a, b) for x in tm.walk(t) if x.op in ('eq0', 'lt0') for y in tm.walk(x) if y.op == 'len' and sole(x, y)}
    maybe_empty |= {x.args[0] for t in (a, b) for x in tm.walk(t) if x.op == 'truthy' and x.args[0] in measured}
    sorts = {}
    good = 0
    stop = time.process_time() + seconds
    why = {}
    unint = set()
    paths = {}
    kinds = tuple(sorted({x.args[1] for t in (a, b) for x in tm.walk(t) if x.op == 'isinst' and isinstance(x.args[1], str)}))
    left = tries
    for seed in range(tries * (20 if given else 1)):
        if left <= 0:
            break
        left -= 1
        nones = set()
        zeros = set()
        givens = {}
        lens = {}
        signs = {}
        for _ in range(200):
            I = Interp(seed, sorts, cmpstr if cmpstr and seed % 4 else allstr, 5 if seed % 13 == 12 else seed % 5)
            I.nones = nones
            I.zeros = zeros
            I.given = givens
            I.lens = lens
            I.signs = signs
            I.measured, I.maybe_empty = measured, maybe_empty
            I.near = near
            if bigs and seed % 6 == 4:
                I.big = bigs[seed // 6 % len(bigs)]
            if huge and seed % 25 == 22:
                I.big = huge[seed // 25 % len(huge)]
            I.keypool = keystr
            I.kinds = kinds
            if scales and seed % 5 == 3:
                I.scale = scales[seed // 5 % len(scales)] * (Fraction(1, 64), 16)[seed // 5 // len(scales) % 2]
            I.deadline = stop
            inside = False
            try:
                for g in given:
                    I.assume(g)
                if seed % 3 != 2:
                    try:
                        I.direct(a, b, {})
                    except Fail:
                        pass
                    I.memo.clear()
                    I.path = []
                    I.steps = 0
                    I.unint = set()
                if any(not I.bool(I.ev(g, {})) for g in given):
                    left += 1
                    raise Fail('outside the assumption')
                y = I.ev(b, {})
                if isinstance(y, Undef):
                    raise Fail('undefined')
                sig = tuple(I.path)
                I.unint = set()
                inside = True
                x = I.ev(a, {})
                if isinstance(x, Undef):
                    raise Fail('undefined')
                ok = I.same(x, y, loose)
                good += 1
                unint |= I.unint
                paths.setdefault(sig, [0, 0])[0] += 1
                if not ok:
                    return 'differs', good, unint
                break
            except Again:
                continue
            except Fail as e:
                why[str(e)] = why.get(str(e), 0) + 1
                if DEBUG is not None:
                    DEBUG[str(e)] = DEBUG.get(str(e), 0) + 1
                if inside and str(e) in CRASH:
                    paths.setdefault(sig, [0, 0])[1] += 1
                elif inside:
                    paths.setdefault(sig, [0, 0])[0] += 0.01
                break
            except (ZeroDivisionError, OverflowError, ValueError, TypeError, RecursionError) as e:
                why[type(e).__name__] = why.get(type(e).__name__, 0) + 1
                if inside and isinstance(e, ZeroDivisionError):
                    paths.setdefault(sig, [0, 0])[1] += 1
                break
        if time.process_time() > stop:
            break
    if any(p == 0 and c >= 8 for p, c in paths.values()):
        return 'differs', good, unint
    return ('agrees' if good >= 3 else 'unknown'), good, why if good < 3 else unint
