"""Loops as closed forms: sums, comprehensions, stores, folds, first-match searches.

The body is interpreted once for a symbolic iteration ``k`` with placeholders for everything it carries from one
iteration to the next; each carried location is then solved (unchanged, counter, sum, append, store, min/max, flag,
first-value accumulation, last value) and substituted into the others.  What is left over becomes one ``fold``.
"""
import ast
from collections import OrderedDict

from .terms import *
from . import terms as tm
from .interp import Cell, Exit, Unsupported, is_immut, has_ref
from . import npmodel as npm

UNROLL = 10


def merge_states(I, states):
    st = None
    for s in states:
        if s is None or s.guard is FALSE:
            continue
        if st is None:
            st = s
        else:
            g = s.guard
            st = I.join(g, s, st)
    return st


def run_for(I, s):
    itv = I.expr(s.iter)
    if I.st.guard is FALSE:
        return []
    if itv.op == 'ite' and has_ref(itv):
        c = I.decide(itv.args[0])
        base = I.st
        s1, s2 = base.copy(), base.copy()
        s1.guard = b_and(base.guard, c)
        I.st = s1
        e1 = for_value(I, s, itv.args[1]) if s1.guard is not FALSE else []
        s2.guard = b_and(base.guard, b_not(c))
        I.st = s2
        e2 = for_value(I, s, itv.args[2]) if s2.guard is not FALSE else []
        return I.merge_exits(c, norm(e1, s1), norm(e2, s2))
    return for_value(I, s, itv) or None


def norm(es, st):
    return es


def for_value(I, s, itv):
    if itv is UNDEF or itv is NONE:
        return [Exit('normal', I.st)]
    r = I.iter_of(itv, s)
    # a concatenation whose pieces are separately iterable: run one loop per piece
    if r[0] != 'items':
        pieces = split_pieces(I, itv)
        if pieces:
            return unroll_pieces(I, s, pieces)
        return symbolic(I, s, r[0], r[1], s.target, s.body, s.orelse)
    if len(r[1]) > UNROLL * 3:
        raise Unsupported('unroll')
    return unroll_pieces(I, s, [('item', x) for x in r[1]])


def split_pieces(I, itv):
    t = None
    if itv.op == 'ref':
        c = I.cell(itv)
        if c.kind in ('list', 'set'):
            t = c.data
    elif itv.op == 'cat':
        t = itv
    if t is None or t.op != 'cat' or len(t.args) > 6:
        return None
    out = []
    for p in t.args:
        if p.op == 'list':
            if any(x.op == 'splice' for x in p.args):
                return None
            out.extend(('item', x) for x in p.args)
        else:
            out.append(('seq', p))
    return out if len(out) <= 8 else None


def has_jump(body):
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                return True
    return False


def unroll_pieces(I, s, pieces):
    out = []
    breaks = []
    for nth, (kind_, x) in enumerate(pieces):
        if I.st.guard is FALSE:
            break
        I.sites.append(nth)
        try:
            if kind_ == 'item':
                I.assign(s.target, x)
                es = I.block(s.body)
            else:
                n = length(x)
                es = symbolic(I, s, n, lambda k, x=x: I.elem(seq_at(x, k), x), s.target, s.body, [], keep_break=True)
        finally:
            I.sites.pop()
        nxt = []
        for e in es:
            if e.kind in ('normal', 'continue'):
                nxt.append(e.state)
            elif e.kind == 'break':
                breaks.append(e.state)
            else:
                out.append(e)
        st = merge_states(I, nxt)
        if st is None:
            st = I.st.copy()
            st.guard = FALSE
        I.st = st
    ends = list(breaks)
    if I.st.guard is not FALSE:
        if s.orelse:
            es = I.block(s.orelse)
            for e in es:
                if e.kind == 'normal':
                    ends.append(e.state)
                else:
                    out.append(e)
        else:
            ends.append(I.st)
    st = merge_states(I, ends)
    if st is not None:
        out.append(Exit('normal', st))
    return out


# ------------------------------------------------------------------------------------ symbolic loops
class Probe(object):
    pass


def kind_sym(v0, ve):
    k0, k1 = kind(v0), kind(ve)
    if k0 == 'int' and k1 == 'int':
        return 'int'
    if k0 in ('int', 'num') and k1 in ('int', 'num'):
        return 'num'
    if k0 == 'str' and k1 == 'str':
        return 'str'
    return None


class Loc(object):
    def __init__(self, key, init):
        self.key = key
        self.init = init          # value (var / field) or cell
        self.P = None             # placeholder term
        self.mode = None
        self.F = None
        self.final = None
        self.prefix = None        # function k -> value at start of iteration k
        self.name = None


def run_once(I, pre, locs, k, target, elem, body, test):
    st = pre.copy()
    st.outer = b_and(pre.outer, pre.guard)
    st.guard = TRUE
    st.far = {}
    I.st = st
    for loc in locs.values():
        install(I, loc)
    start = I.st.copy()
    id0 = I.ncell
    I.raise_stack.append([])
    I.loopstack.append(k)
    p = Probe()
    try:
        p.cond = TRUE
        if test is not None:
            p.cond = I.decide(I.cond(test))
            I.st.guard = b_and(I.st.guard, p.cond)
        if I.st.guard is FALSE:
            es = []
        else:
            if target is not None:
                I.assign(target, elem(k))
            es = I.block(body)
    finally:
        I.loopstack.pop()
        p.raises = I.raise_stack.pop()
    p.end = merge_states(I, [e.state for e in es if e.kind in ('normal', 'continue')])
    p.breaks = [e for e in es if e.kind == 'break']
    p.returns = [e for e in es if e.kind == 'return']
    p.start, p.id0, p.preheap = start, id0, pre.heap
    return p


def changed(I, p, st, locs, out):
    start = p.start
    for fid, env in st.frames.items():
        env0 = start.frames.get(fid)
        if env0 is None:
            continue
        for name, v in env.items():
            v0 = env0.get(name, UNDEF)
            if v0 is not v and ('var', fid, name) not in locs:
                out[('var', fid, name)] = v
    for i, c in st.heap.items():
        if i not in p.preheap and i not in I.lazy_init:
            continue
        c0 = I.cell_in(start, i)
        if c0 is None or c is c0:
            continue
        if c.kind == 'obj' and c0.kind == 'obj':
            d0, d1 = dict(c0.data), dict(c.data)
            if c.base is not c0.base and ('base', i) not in locs:
                out[('base', i)] = c.base
            for nm, v in d1.items():
                v0 = d0.get(nm)
                if v0 is None:
                    v0 = I.default_field(c0, nm)
                if v0 is not v and ('field', i, nm) not in locs:
                    out[('field', i, nm)] = v
        elif c.data is not c0.data or c.base is not c0.base:
            if ('cell', i) not in locs:
                out[('cell', i)] = c


def cell_of(st, I, v):
    if v is not None and v.op == 'ref':
        return I.cell_in(st, v.args[0])
    return None


def make_loc(I, key, pre, endval, endst):
    if key[0] == 'var':
        init = pre.frames.get(key[1], {}).get(key[2], UNDEF)
    elif key[0] == 'field':
        c0 = I.cell_in(pre, key[1])
        init = dict(c0.data).get(key[2])
        if init is None:
            init = I.default_field(c0, key[2])
    elif key[0] == 'base':
        init = I.cell_in(pre, key[1]).base
    else:
        init = I.cell_in(pre, key[1])
    loc = Loc(key, init)
    if key[0] == 'cell':
        loc.mode = init.kind
    elif key[0] == 'base':
        loc.mode = 'base'
    elif init is UNDEF or init.op == 'absent':
        loc.mode = 'local'
    else:
        ci, ce = cell_of(pre, I, init), cell_of(endst, I, endval)
        kinds = set(c.kind for c in (ci, ce) if c is not None)
        if 'obj' in kinds or 'dict' in kinds:
            loc.mode = 'opaque'
        elif 'set' in kinds:
            loc.mode = 'set'
        elif 'list' in kinds:
            loc.mode = 'list' if (ci is None or ci.kind == 'list') and (ce is None or ce.kind == 'list') and init is not NONE else 'val'
        elif has_ref(init) and ci is None:
            loc.mode = 'opaque'
        elif is_bool(init) and (is_bool(endval) or endval.op == 'ref'):
            loc.mode = 'bool'
        elif kinds:
            loc.mode = 'val'
        else:
            loc.mode = 'imm'
    f = fresh('P')
    loc.P = f
    if loc.mode in ('list', 'set'):
        KINDS[f] = 'list'
    elif loc.mode == 'bool':
        loc.P = raw('truthy', f)
    elif loc.mode == 'imm':
        k_ = kind_sym(init, endval)
        if k_:
            KINDS[f] = k_
    loc.name = key[-1] if isinstance(key[-1], str) else None
    return loc


def install(I, loc):
    key = loc.key
    if loc.mode == 'local':
        return
    st = I.st
    if key[0] == 'cell':
        c = loc.init
        if c.kind == 'dict':
            st.heap[key[1]] = c.with_(data=(), base=loc.P)
        else:
            st.heap[key[1]] = c.with_(data=loc.P)
        return
    if key[0] == 'base':
        c = I.cell_in(st, key[1])
        st.heap[key[1]] = c.with_(base=loc.P)
        return
    if loc.mode == 'list':
        ci = cell_of(st, I, loc.init)
        v = I.alloc(Cell('list', loc.P, ci.root if ci else None))
    elif loc.mode == 'set':
        v = I.alloc(Cell('set', loc.P))
    elif loc.mode == 'val':
        ci = cell_of(st, I, loc.init)
        v = I.alloc(Cell('val', loc.P, ci.root if ci else None))
    elif loc.mode == 'opaque':
        return
    else:
        v = loc.P
    put(I, st, key, v)


def put(I, st, key, v):
    if key[0] == 'var':
        st.frames[key[1]][key[2]] = v
    elif key[0] == 'field':
        c = I.cell_in(st, key[1])
        d = dict(c.data)
        d[key[2]] = v
        st.heap[key[1]] = c.with_(data=tuple(d.items()))


def value_in(I, st, key):
    """frozen value of a location in a state"""
    sv = I.st
    I.st = st
    try:
        if key[0] == 'var':
            v = st.frames[key[1]].get(key[2], UNDEF)
        elif key[0] == 'field':
            c = I.cell_in(st, key[1])
            v = dict(c.data).get(key[2])
            if v is None:
                v = I.default_field(c, key[2])
        elif key[0] == 'base':
            return I.cell_in(st, key[1]).base
        else:
            c = I.cell_in(st, key[1])
            if c.kind == 'dict':
                return I.fz_cell(c)
            return I.fz(c.data)
        if v.op == 'ref' and I.cell(v).kind == 'set':
            return I.fz(I.cell(v).data)
        return I.fz(v)
    finally:
        I.st = sv


def kept_names(I, p, locs):
    """names first set inside the loop, on some rounds only, whose value from an earlier round is used later"""
    if p.end is None:
        return False
    maybe = [l for l in locs.values() if l.mode == 'local' and l.key[0] == 'var' and l.init is UNDEF]
    maybe = [l for l in maybe if UNDEF in set(walk(value_in(I, p.end, l.key)))]
    if not maybe:
        return False
    used = [value_in(I, p.end, l.key) for l in locs.values() if l.mode in ('imm', 'list', 'val', 'bool')]
    used += [e for e in events_of(p, len(p.start.events)) if isinstance(e, T)]
    if not any(UNDEF in set(walk(t)) for t in used if isinstance(t, T)):
        return False
    for l in maybe:
        l.mode = 'imm'
    return True


def symbolic(I, s, n, elem, target, body, orelse, test=None, keep_break=False):
    pre = I.st
    k = fresh('i')
    KINDS[k] = 'int'
    locs = OrderedDict()
    cnt0 = dict(getattr(I, 'nrand', {})), I.ntime
    p = None
    for rnd in range(8):
        I.nrand, I.ntime = dict(cnt0[0]), cnt0[1]
        p = run_once(I, pre, locs, k, target, elem, body, test)
        new = OrderedDict()
        for stx in [p.end] + [e.state for e in p.breaks]:
            if stx is not None:
                changed(I, p, stx, locs, new)
        if not new and not kept_names(I, p, locs):
            break
        for key, v in new.items():
            locs[key] = make_loc(I, key, pre, v, p.end if p.end is not None else p.breaks[0].state)
    else:
        raise Unsupported('loop does not stabilise')
    end = p.end
    if n.op == 'num' and n.args[0] <= 0 and test is None:
        I.st = pre
        return finish(I, s, pre, [], orelse)
    # ---- frozen per-iteration values
    for loc in locs.values():
        loc.F = value_in(I, end, loc.key) if end is not None else loc.P
        loc.I0 = init_term(I, pre, loc)
    stops = []
    for e in p.breaks:
        stops.append(('break', e.state.guard, e))
    for e in p.returns:
        stops.append(('return', e.state.guard, e))
    for e in p.raises:
        stops.append(('raise', e.state.guard, e))
    start_ev = len(p.start.events)
    evs = events_of(p, start_ev)
    S = FALSE
    for _, g, _e in stops:
        S = b_or(S, g)
    # ---- counted while loops
    wcond = p.cond
    unresolved = OrderedDict((key, l) for key, l in locs.items() if l.mode != 'local' or True)
    resolved = OrderedDict()
    Ps = {l.P: l for l in locs.values() if l.mode not in ('local',)}
    count = n

    def carried(t):
        """placeholders of unresolved locations occurring in t"""
        sy = syms(t)
        return [l for P, l in Ps.items() if l.key in unresolved and (P if P.op == 'sym' else P.args[0]) in sy]

    def closed(t, at_k):
        """t with every resolved placeholder replaced by its value at the start of iteration at_k"""
        m = {}
        for P, l in Ps.items():
            if l.key in resolved and l.prefix is not None:
                m[P] = l.prefix(at_k)
        return substm(t, m) if m else t

    F = {key: l.F for key, l in locs.items()}
    progress = True
    while progress and unresolved:
        progress = False
        for key in list(unresolved):
            l = unresolved[key]
            f = closed(F[key], k)
            others = [x for x in carried(f) if x is not l]
            if others:
                continue
            r = solve(I, l, f, k, carried(f))
            if r is None:
                continue
            l.prefix = r
            resolved[key] = l
            del unresolved[key]
            progress = True
    stuck = [l for l in unresolved.values() if l.mode != 'local']
    # ---- trip count
    S_closed = closed(S, k)
    kinded = None
    if test is not None:
        c = closed(wcond, k)
        cc = carried(c) or carried(S_closed)
        count = None
        if not cc:
            count = trip_count(c, k)
        if count is None and not carried(c) and not carried(S_closed):
            if c is TRUE:
                count = INF
            else:
                # leaves when the condition first fails
                vs = b_or(b_not(c), S_closed)
                count = raw_until(INF, k, b_not(c))
        if count is None:
            return general_while(I, s, pre, p, locs, k, wcond, S, stops, evs, F)
    N = count
    if S is not FALSE:
        if carried(S_closed):
            return general_loop(I, s, pre, p, locs, k, n, stops, evs, F, orelse)
        N = raw_until(count, k, S_closed)
    found = FALSE if S is FALSE else exists_(count, k, S_closed)
    # ---- generic fold for what is left
    if stuck:
        ok = do_fold(I, stuck, F, closed, k, resolved, unresolved)
        if not ok:
            return general_loop(I, s, pre, p, locs, k, n, stops, evs, F, orelse)
    # ---- final state
    exits = []
    post = pre.copy()
    post.far = {}
    I.st = post
    for key, l in locs.items():
        if l.mode == 'local' and key not in resolved:
            v = ite(lt(ZERO, N) if N is not INF else TRUE, at_last(closed(F[key], k), k, N), UNDEF)
            fin_put(I, post, l, v)
            continue
        if l.prefix is None:
            continue
        fin_put(I, post, l, l.prefix(N))
    evn = N
    if evs:
        items = []
        for g, t in evs:
            items.append(raw('tuple', closed(g, k), closed(t, k)))
        # effects of different branches have no order between them
        for _ in items:
            for j in range(len(items) - 1):
                x, y = items[j], items[j + 1]
                if show(y.args[1]) + show(y.args[0]) < show(x.args[1]) + show(x.args[0]) and b_and(x.args[0], y.args[0]) is FALSE:
                    items[j], items[j + 1] = y, x
        b = close('evloop', evn, (k,), (raw('tuple', *items),))
        post.events.append((b_and(post.outer, post.guard), b))
    n_loops = raw('tuple')
    base_guard = post.guard
    # exits
    if found is TRUE:
        pass
    normal = post
    if S is not FALSE:
        normal = post.copy()
        normal.guard = b_and(base_guard, b_not(found))
    breaks_out = []
    for kd, g, e in stops:
        gk = closed(g, k)
        at_stop = subst(gk, {k: N}) if gk is not S_closed else TRUE
        if len(stops) == 1:
            at_stop = TRUE
        cond = b_and(found, at_stop)
        st = post.copy()
        st.guard = b_and(base_guard, cond)
        if st.guard is FALSE:
            continue
        if kd in ('break', 'return', 'raise'):
            # locations changed on the way to the jump
            I.st = st
            ch = OrderedDict()
            changed_raw(I, p, e.state, ch)
            for key in ch:
                l = locs.get(key)
                v = value_in(I, e.state, key)
                if l is not None and l.mode != 'local':
                    pass
                v = subst(closed(v, k), {k: N})
                ll = l or make_loc(I, key, pre, ch[key], e.state)
                fin_put(I, st, ll, v)
        if kd == 'break':
            breaks_out.append(st)
        elif kd == 'return':
            I.st = e.state
            vfz = I.fz(e.value)
            I.st = st
            v = subst(closed(vfz, k), {k: N})
            v = I.thaw(v, e.value, e.state)
            exits.append(Exit('return', st, I.box(v), e.node))
        else:
            I.raise_stack[-1].append(Exit('raise', st, e.value, e.node))
    I.loops.append({'kind': 'closed', 'node': s, 'count': N})
    I.st = normal
    return finish(I, s, normal, breaks_out, orelse, exits, keep_break)


def finish(I, s, normal, breaks_out, orelse, exits=(), keep_break=False):
    out = list(exits)
    ends = []
    if normal.guard is not FALSE:
        I.st = normal
        if orelse:
            for e in I.block(orelse):
                if e.kind == 'normal':
                    ends.append(e.state)
                else:
                    out.append(e)
        else:
            ends.append(normal)
    if keep_break:
        out.extend(Exit('break', st) for st in breaks_out)
    else:
        ends = breaks_out + ends
    st = merge_states(I, ends)
    if st is not None:
        out.append(Exit('normal', st))
    return out


def changed_raw(I, p, st, out):
    changed(I, p, st, {}, out)


def events_of(p, start_ev):
    evs = []
    seen = set()
    states = [x for x in [p.end] + [e.state for e in p.breaks + p.returns] + [e.state for e in p.raises] if x is not None]
    for st in states:
        for g, t in st.events[start_ev:]:
            if (g, t) not in seen:
                seen.add((g, t))
                evs.append((g, t))
    return evs


def init_term(I, pre, loc):
    key = loc.key
    if loc.mode == 'local':
        return UNDEF
    sv = I.st
    I.st = pre
    try:
        if key[0] == 'cell':
            if loc.init.kind == 'dict':
                return I.fz_cell(loc.init)
            return I.fz(loc.init.data)
        if key[0] == 'base':
            return loc.init
        v = loc.init
        if v.op == 'ref' and I.cell(v).kind == 'set':
            return I.fz(I.cell(v).data)
        return I.fz(v)
    finally:
        I.st = sv


def fin_put(I, st, l, v):
    I.st = st
    key = l.key
    if key[0] == 'cell':
        c = I.cell_in(st, key[1])
        if c.kind == 'dict':
            if v.op == 'dict':
                st.heap[key[1]] = c.with_(data=tuple((a, I.box(b)) for a, b in v.args), base=None)
            elif v.op == 'dictupd':
                st.heap[key[1]] = c.with_(data=tuple((a, I.box(b)) for a, b in v.args[1]), base=v.args[0])
            else:
                st.heap[key[1]] = c.with_(data=(), base=v)
        else:
            st.heap[key[1]] = c.with_(data=v)
        return
    if key[0] == 'base':
        c = I.cell_in(st, key[1])
        st.heap[key[1]] = c.with_(base=v)
        return
    if l.mode == 'list':
        v = I.alloc(Cell('list', v))
    elif l.mode == 'set':
        v = I.alloc(Cell('set', v))
    else:
        v = I.box(v)
    put(I, st, key, v)


def at_last(f, k, N):
    if N is INF:
        return raw('top', 'last of unbounded loop')
    return subst(f, {k: sub(N, ONE)})


def substm(t, m):
    return subst(t, m)


def raw_until(n, k, c):
    """first index in [0, n) where c holds, n if none"""
    if c is FALSE:
        return n
    if c is TRUE:
        return ZERO
    t = close('until', n, (k,), (c,))
    KINDS[t] = 'int'
    return t


def exists_(n, k, c):
    if n is INF:
        return TRUE if c is not FALSE else FALSE
    return exists(n, k, c)


def trip_count(c, k):
    """number of iterations of 'while c(k)' when c is k*step < limit"""
    # c as boolean: lt0(d) with d = k*s + rest ; or not lt0
    neg_ = False
    a = c
    if a.op == 'ite' and a.args[1] is FALSE and a.args[2] is TRUE:
        a, neg_ = a.args[0], True
    if a.op != 'lt0':
        return None
    d = a.args[0]
    pz = tm.to_poly(d)
    coef = pz.get(((k, Fraction(1)),))
    if coef is None:
        return None
    rest = {m: v for m, v in pz.items() if m != ((k, Fraction(1)),)}
    if any(k in syms(at_) for m in rest for at_, e in m):
        return None
    rest = tm.from_poly(rest)
    if not neg_ and coef == 1:
        # k + rest < 0  <=>  k < -rest
        return neg(rest)
    if neg_ and coef == -1:
        # not (-k + rest < 0) <=> rest >= k <=> k < rest + 1
        return add(rest, ONE)
    return None


# ------------------------------------------------------------------------------------ recurrences
def after_prefix(f, P):
    """the list g with f = P + g, or None"""
    if f is P:
        return EMPTY
    if f.op == 'cat' and f.args[0] is P:
        return cat(*f.args[1:])
    if f.op == 'ite' and not is_bool(f):
        a = after_prefix(f.args[1], P)
        b = after_prefix(f.args[2], P) if a is not None else None
        if a is None or b is None:
            return None
        return ite(f.args[0], a, b)
    return None


def solve(I, l, f, k, own):
    """prefix function of a location from its one-iteration update f (placeholders of other locations already closed)"""
    P, init = l.P, l.I0
    if l.mode == 'local':
        return lambda j: ite(lt(ZERO, j), at_last(f, k, j), UNDEF)
    if f is P:
        return lambda j: init
    if l.mode == 'opaque' and not own:
        return lambda j: ite(lt(ZERO, j), at_last(f, k, j), init)
    if not own:
        return lambda j: ite(lt(ZERO, j), at_last(f, k, j), init)
    if l.mode == 'opaque':
        return None

    def fr():
        v = fresh('i')
        KINDS[v] = 'int'
        return v

    def dep(t):
        return (P if P.op == 'sym' else P.args[0]) in syms(t)
    # sequences
    if l.mode in ('list', 'set'):
        tail = after_prefix(f, P) if f.op == 'ite' else None
        if tail is not None and not dep(tail):
            def pf(j):
                v = fr()
                return cat(init, comp(j, v, subst(tail, {k: v})))
            return pf
        parts = f.args if f.op == 'cat' else (f,)
        if parts[0] is P and not any(dep(x) for x in parts[1:]):
            body = cat(*parts[1:])

            def pf(j):
                v = fr()
                return cat(init, comp(j, v, subst(body, {k: v})))
            return pf
        if parts[-1] is P and len(parts) > 1 and not any(dep(x) for x in parts[:-1]):
            body = cat(*parts[:-1])

            def pf(j):
                v = fr()
                return cat(comp(j, v, subst(body, {k: sub(sub(j, ONE), v)})), init)
            return pf
        # element store
        return solve_store(I, l, f, k, dep, fr)
    if l.mode == 'bool' or is_bool(f) and P.op == 'truthy':
        hi, lo = restrict(f, P, True), restrict(f, P, False)
        if dep(hi) or dep(lo):
            return None
        if hi is TRUE:          # f = P or lo
            def pf(j):
                v = fr()
                return b_or(init, exists(j, v, subst(lo, {k: v})))
            return pf
        if lo is FALSE:         # f = P and hi
            def pf(j):
                v = fr()
                return b_and(init, b_not(exists(j, v, b_not(subst(hi, {k: v})))))
            return pf
        return None
    if l.mode == 'dict':
        return solve_dict(I, l, f, k, dep, fr)
    if l.mode == 'base':
        return None
    # "None first": if acc is None: acc = x else: acc = g(acc, x)
    if init is NONE and f.op == 'ite':
        first_ = simp(restrict(f, raw('isnone', P), True))
        later = simp(restrict(f, raw('isnone', P), False))
        if not dep(first_):
            r = accumulate(I, later, P, k, dep, first_)
            if r is not None:
                g = r

                def pf(j):
                    return ite(lt(ZERO, j), g(j), NONE)
                return pf
    # first iteration special-cased on the counter
    if f.op == 'ite' and tm.contains(f, lambda t: t.op == 'lt0' and k in syms(t)):
        c0 = lt(k, ONE)
        for atom in [t for t in tm.walk(f) if t.op in ('lt0', 'eq0') and syms(t) == frozenset([k])]:
            h0 = subst(atom, {k: ZERO})
            if h0 in (TRUE, FALSE):
                later = simp(restrict(f, atom, h0 is FALSE))
                first_ = simp(restrict(f, atom, h0 is TRUE))
                if not dep(first_) and subst(atom, {k: ONE}) is b_not(h0):
                    r = accumulate(I, later, P, k, dep, first_)
                    if r is not None:
                        return lambda j: ite(lt(ZERO, j), r(j), init)
    # numbers
    d = sub(f, P)
    if not dep(d) and l.mode in ('imm', 'val'):
        def pf(j):
            v = fr()
            return add(init, summ(j, v, subst(d, {k: v})))
        return pf
    # string building
    if f.op == 'strcat' and f.args[0] is P and not any(dep(x) for x in f.args[1:]):
        tail = f.args[1:]

        def pf(j):
            v = fr()
            from .exprs import strcat
            b = strcat(*tail)
            return strcat(init, raw('strloop', comp(j, v, mklist([subst(b, {k: v})]))))
        return pf
    if f.op in ('min', 'max') and P in f.args:
        rest = [a for a in f.args if a is not P]
        if not any(dep(a) for a in rest):
            e = minmax(f.op, *rest)

            def pf(j):
                v = fr()
                return minmax(f.op, init, binder('r' + f.op, j, v, subst(e, {k: v})))
            return pf
    # product
    pr = div(f, P) if l.mode in ('imm', 'val') and kind(P) in ('num', 'int') else None
    if pr is not None and not dep(pr):
        def pf(j):
            v = fr()
            return mul(init, binder('prod', j, v, subst(pr, {k: v})))
        return pf
    r = accumulate(I, f, P, k, dep, None)
    if r is not None:
        g = r
        return lambda j: g(j, init)
    return solve_store(I, l, f, k, dep, fr)


def accumulate(I, f, P, k, dep, first_):
    """stacking accumulators; with first_ given, iteration 0 contributes first_ and later ones extend it"""
    def mk(op, wrap):
        l = f.args[0]
        parts = l.args if l.op == 'cat' else (l,)
        # pieces: P comes first
        if parts[0].op == 'list' and parts[0].args and npm.strip2d(parts[0].args[0]) is P:
            tail = cat(mklist(parts[0].args[1:]), *parts[1:])
        elif parts[0] is P:
            tail = cat(*parts[1:])
        else:
            return None
        if dep(tail):
            return None
        if first_ is not None:
            fl = npm.strip2d(first_) if op == 'vstack' else first_
            t0 = tail.args[0] if tail.op == 'list' and len(tail.args) == 1 else None
            if t0 is fl or t0 is first_ or (t0 is not None and subst(t0, {k: ZERO}) is subst(fl, {k: ZERO})):
                def g(j):
                    v = fresh('i')
                    KINDS[v] = 'int'
                    return wrap(comp(j, v, subst(tail, {k: v})))
                return g

            def g(j):
                v = fresh('i')
                KINDS[v] = 'int'
                return wrap(cat(mklist([subst(fl, {k: ZERO})]), comp(sub(j, ONE), v, subst(tail, {k: add(v, ONE)}))))
            return g

        def g(j, init):
            v = fresh('i')
            KINDS[v] = 'int'
            return wrap(cat(mklist([npm.strip2d(init) if op == 'vstack' else init]), comp(j, v, subst(tail, {k: v}))))
        return g
    if f.op == 'vstack':
        return mk('vstack', npm.vstack)
    if f.op == 'hstack':
        return mk('hstack', npm.hstack)
    if f.op == 'concat':
        return mk('concat', lambda l: raw('concat', l))
    if first_ is not None:
        d = sub(f, P)
        if not dep(d) and subst(d, {k: ZERO}) is subst(first_, {k: ZERO}):
            def g(j):
                v = fresh('i')
                KINDS[v] = 'int'
                return summ(j, v, subst(d, {k: v}))
            return g
        if f.op in ('min', 'max') and P in f.args:
            e = minmax(f.op, *[a for a in f.args if a is not P])
            if not dep(e) and subst(e, {k: ZERO}) is subst(first_, {k: ZERO}):
                def g(j):
                    v = fresh('i')
                    KINDS[v] = 'int'
                    return binder('r' + f.op, j, v, subst(e, {k: v}))
                return g
        if f.op in ('mulacc',):
            return None
    return None


def solve_store(I, l, f, k, dep, fr):
    """acc[k, ...] = v(k) for every k"""
    P, init = l.P, l.I0
    if f.op == 'ite':
        # conditional store
        g = f
        idxs = set()
        for t in tm.walk(f):
            if t.op == 'store' and t.args[0] is P:
                idxs.add(t.args[1])
        if len(idxs) != 1:
            return None
        idx = idxs.pop()

        def pull(t):
            if t is P:
                return npm.at(P, idx)
            if t.op == 'store' and t.args[0] is P:
                return t.args[2]
            if t.op == 'ite' and not is_bool(t):
                a, b = pull(t.args[1]), pull(t.args[2])
                return None if a is None or b is None else ite(t.args[0], a, b)
            return None
        v = pull(f)
        if v is None:
            return None
    elif f.op == 'store' and f.args[0] is P:
        idx, v = f.args[1], f.args[2]
    else:
        return None
    if any(dep(x) for x in idx) or not any(x is k for x in idx):
        # offset indices are allowed when injective in k
        if any(dep(x) for x in idx) or not any(injective(x, k) for x in idx):
            return None
    own = npm.at(P, idx)
    v2 = tm.subst(v, {own: npm.at(init, idx)})
    if dep(v2):
        return None

    def pf(j):
        if j.op == 'num' and j.args[0] <= 0:
            return init
        return stores(init, j, k, idx, v2)
    return pf


def injective(x, k):
    pz = tm.to_poly(x)
    c = pz.get(((k, Fraction(1)),))
    if c is None or x.op == 'slc':
        return False
    return all(k not in syms(a) for m in pz if m != ((k, Fraction(1)),) for a, e in m)


def stores(init, j, k, idx, v):
    if idx == (k,) and (j is length(init)):
        if init.op == 'full' and init.args[0].op in ('tuple', 'list') and len(init.args[0].args) == 2:
            # a number stored as a row of a one-column table
            w = init.args[0].args[1]
            if w is ONE:
                if npm.is_scalar(v):
                    v = mklist([v])
                elif v.op not in ('list', 'tuple', 'at', 'asarr') and kind(v) != 'list':
                    v = raw('fill', v, ONE)
        r = comp(j, k, mklist([v]))
        if init.op in ('comp', 'list', 'cat') or kind(init) == 'list':
            return r
        return npm.asarr(r)
    if idx == (npm.FULL, k) and j is npm.cols(init):
        return npm.transpose(npm.asarr(comp(j, k, mklist([v]))))
    return close('stores', j, (k,), (raw('tuple', *idx), v, init))


def solve_dict(I, l, f, k, dep, fr):
    P, init = l.P, l.I0
    if f.op == 'dictupd' and f.args[0] is P and len(f.args[1]) == 1:
        (key, v), = f.args[1]
        if dep(key) or dep(v):
            return None

        def pf(j):
            b = close('dictcomp', j, (k,), (key, v))
            if init.op == 'dict' and not init.args:
                return b
            return raw('dictmerge', init, b)
        return pf
    return None


def do_fold(I, stuck, F, closed, k, resolved, unresolved):
    vars_, bodies, inits = [k], [], []
    for l in stuck:
        if l.mode in ('opaque',):
            return False
    for l in stuck:
        vars_.append(l.P if l.P.op == 'sym' else l.P.args[0])
        bodies.append(closed(F[l.key], k))
        inits.append(l.I0)
    for b in bodies:
        if any((l.P if l.P.op == 'sym' else l.P.args[0]) in syms(b) for l in unresolved.values() if l not in stuck and l.mode != 'local'):
            return False
    for q, l in enumerate(stuck):
        def pf(j, q=q):
            if j is ZERO:
                return inits[q]
            t = close('fold', j, tuple(vars_), (raw('tuple', *bodies), ))
            r = raw('proj', t, num(q), raw('tuple', *inits))
            if stuck[q].mode in ('list', 'set'):
                KINDS[r] = 'list'
            return r
        l.prefix = pf
        resolved[l.key] = l
        unresolved.pop(l.key, None)
    return True


# ------------------------------------------------------------------------------------ general loops
def loc_label(I, l):
    if l.key[0] == 'var':
        return 'var:' + l.key[2]
    if l.key[0] == 'field':
        c = I.lazy_init.get(l.key[1])
        return 'field:' + (show(c.base) if c is not None and c.base is not None else '') + '.' + l.key[2]
    c = I.lazy_init.get(l.key[1])
    if c is not None:
        b = c.base if c.base is not None else c.data
        if isinstance(b, T):
            return '%s:%s' % (l.key[0], show(b))
    return '%s:local%s' % (l.key[0], l.key[1])


def general_while(I, s, pre, p, locs, k, wcond, S, stops, evs, F):
    return general_loop(I, s, pre, p, locs, k, None, stops, evs, F, s.orelse, wcond)


def general_loop(I, s, pre, p, locs, k, n, stops, evs, F, orelse, wcond=None):
    """no closed form: record the one-iteration summary, give every carried location an unknown final value"""
    summary = {'kind': 'general', 'node': s, 'k': k, 'n': n, 'cond': wcond, 'events': evs,
               'fields': OrderedDict(), 'stops': [], 'fn': I.stack[-1] if I.stack else None}
    for key, l in locs.items():
        summary['fields'][loc_label(I, l)] = {'P': l.P, 'init': l.I0, 'next': F[key], 'mode': l.mode}
    for kd, g, e in stops:
        sv = I.st
        I.st = e.state
        val = I.fz(e.value) if isinstance(e.value, T) else None
        at = OrderedDict()
        for key, l in locs.items():
            try:
                at[loc_label(I, l)] = value_in(I, e.state, key)
            except Exception:
                at[loc_label(I, l)] = l.P
        summary['stops'].append({'kind': kd, 'guard': g, 'value': val, 'at': at})
        I.st = sv
    summary['id'] = len(I.loops) + 1
    I.loops.append(summary)
    post = pre.copy()
    post.far = {}
    I.st = post
    for key, l in locs.items():
        out = raw('loopout', loc_label(I, l), len(I.loops))
        if l.mode in ('list', 'set'):
            KINDS[out] = 'list'
        elif l.mode == 'imm' and kind(l.P):
            KINDS[out] = kind(l.P)
        if l.mode == 'bool':
            out = raw('truthy', out)
        if l.mode == 'opaque':
            continue
        l2 = l
        fin_put(I, post, l2, out)
        summary['fields'][loc_label(I, l)]['out'] = out
    if evs:
        post.events.append((b_and(post.outer, post.guard), raw('ev', 'loop', num(len(I.loops)))))
    exits = []
    g0 = post.guard
    for kd, g, e in stops:
        if kd == 'return':
            st = post.copy()
            c = raw('truthy', raw('loopret', num(len(I.loops))))
            st.guard = b_and(g0, c)
            post.guard = b_and(post.guard, b_not(c))
            exits.append(Exit('return', st, I.top('value returned from a loop', e.node), e.node))
        elif kd == 'raise':
            st = post.copy()
            c = raw('truthy', raw('loopraise', num(len(I.loops))))
            st.guard = b_and(g0, c)
            post.guard = b_and(post.guard, b_not(c))
            I.raise_stack[-1].append(Exit('raise', st, e.value, e.node))
    I.st = post
    return finish(I, s, post, [], orelse, exits)


def run_while(I, s):
    c0 = I.decide(I.cond(s.test))
    if c0 is FALSE:
        return finish(I, s, I.st, [], s.orelse)
    return symbolic(I, s, INF, None, None, s.body, s.orelse, test=s.test)
