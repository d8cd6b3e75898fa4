"""Symbolic derivative of a value-graph term with respect to one input.

``leaf(t)`` gives the derivative of an interface value (or None when t is not one)."""
from .terms import *
from . import terms as tm


class NoDerivative(Exception):
    pass


def D(t, leaf, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = _D(t, leaf, memo)
        memo[t] = r
    return r


def _D(t, leaf, memo):
    v = leaf(t)
    if v is not None:
        return v
    o = t.op
    if o in ('num', 'pi', 'inf', 'str', 'none', 'true', 'false', 'sym', 'bv'):
        return ZERO
    if o == 'poly':
        total = ZERO
        for c, m in t.args[0]:
            for i, (a, e) in enumerate(m):
                da = D(a, leaf, memo)
                if da is ZERO:
                    continue
                term = raw('num', c * e)
                term = mul(term, power(a, raw('num', e - 1)))
                for j, (b, f) in enumerate(m):
                    if j != i:
                        term = mul(term, power(b, raw('num', f)))
                total = add(total, mul(term, da))
        return total
    if o == 'exp':
        return mul(t, D(t.args[0], leaf, memo))
    if o == 'log':
        return div(D(t.args[0], leaf, memo), t.args[0])
    if o == 'ncdf':
        return mul(npdf(t.args[0]), D(t.args[0], leaf, memo))
    if o == 'ite':
        return ite(t.args[0], D(t.args[1], leaf, memo), D(t.args[2], leaf, memo))
    if o == 'sum':
        vs, bodies = open_binder(t)
        b = bodies[0]
        return summ(t.args[0], vs[0], D(b, leaf, memo))
    if o == 'tuple':
        return raw('tuple', *[D(x, leaf, memo) for x in t.args])
    # anything else must not depend on a differentiable leaf
    for s in subargs(t):
        for x in walk(s):
            if x is not t and leaf(x) not in (None, ZERO):
                raise NoDerivative(o)
    return ZERO
