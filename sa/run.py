"""Helpers to analyse one entry point."""
from .terms import *
from . import terms as tm
from .program import Program
from .interp import Interp, Cell, Exit, State, Unsupported
from . import model


class Result(object):
    pass


def held(I, r):
    """containers the object held from before that the call changed in place"""
    me = I.cell(r.recv).base
    for i, c0 in list(I.lazy_init.items()):
        t = c0.base if c0.kind == 'dict' else c0.data
        if c0.kind == 'set' and isinstance(t, T) and t.op == 'list' and len(t.args) == 1:
            t = t.args[0].args[0]
        if c0.kind == 'obj' or not isinstance(t, T) or t.op != 'attr' or t.args[0] is not me or t.args[1] in r.fields:
            continue
        c = I.st.heap.get(i)
        if c is not None and (c.data is not c0.data or c.base is not c0.base):
            r.fields[t.args[1]] = simp(I.fz(raw('ref', i)))


def analyse(I, cls=None, method=None, fn=None, args=None, self_base='self', recv=None, kwargs=None, pre=None, names=None, bare=()):
    """args: {name: value term or (hint)}; unspecified parameters get symbols named after the parameter"""
    r = Result()
    p = I.p
    if cls is not None:
        c = p.cls(cls)
        f = p.find_method(c, method)
    else:
        f = fn if not isinstance(fn, str) else p.fn(fn)
    I.mod = f.module
    I.raise_stack = [[]]
    vals = []
    params = f.params()
    args = dict(args or {})
    k0 = 0
    if f.cls is not None and not f.is_static:
        if recv is None:
            recv = I.sym_obj(cls, sym(self_base))
        k0 = 1
    r.recv = recv
    pos = []
    kwargs = dict(kwargs or {})
    gap = False
    for n0 in params[k0:]:
        n = (names or {}).get(n0, n0)
        if n in bare and n not in args:
            gap = True
            continue
        v = args.get(n)
        if v is None:
            v = I.typed(sym(n), None, root=n)
        elif isinstance(v, str):
            v = I.typed(sym(n), v if v != 'arr' else None, root=n)
        elif isinstance(v, tuple) and v and v[0] == 'opt':
            v = I.typed(sym(n), v, root=n)
        if gap:
            kwargs[n0] = v
        else:
            pos.append(v)
        r.__dict__.setdefault('argv', {})[n] = v
    if pre:
        pre(I, r)
    if f.node.args.kwarg and '**' not in kwargs:
        kwargs['**'] = I.typed(sym('options'), 'dict')
    fv = I.fun_value(f)
    rv = I.call_fun(fv, pos, kwargs, None, recv=recv if k0 else None)
    r.ok = I.st.guard
    r.value = simp(I.fz(rv)) if I.st.guard is not FALSE else UNDEF
    r.raw = rv
    r.raises = []
    for e in I.raise_stack[0]:
        r.raises.append((simp(e.state.guard), e.value))
    r.events = [(simp(g), simp(t)) for g, t in I.st.events]
    r.fields = {}
    if recv is not None and recv.op == 'ref':
        c = I.cell(recv)
        if c.kind == 'obj':
            for k, v in c.data:
                r.fields[k] = simp(I.fz(v))
            held(I, r)
    r.args = {n: simp(I.fz(v)) for n, v in r.__dict__.get('argv', {}).items()}
    r.I = I
    r.fn = f
    return r
