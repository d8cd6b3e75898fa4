"""Obligations: an entry point of the package compared with a reference function.

Both sides are interpreted by the same abstract interpreter (interp.py) over the same symbolic inputs;
an obligation is discharged when the value-graph normal forms of the selected projections (returned
value, condition of each exception, final fields, ordered interface events) coincide.

Outcome per obligation
  held       the projections coincide
  shape      they coincide up to array-shape operations only
  undecided  the implementation uses something the interpreter does not model, or a construct outside
             the vocabulary of the reference whose equality it cannot decide; never an alarm
  known      they differ exactly as a listed known finding describes
  violated   both sides are fully modelled and they differ
"""
import ast
import os
import signal
import sys
import time
import traceback

from .terms import *
from . import terms as tm
from . import model
from .program import Program, Function, REPO
from .interp import Interp, Unsupported
from .run import analyse, held

HARD = {'top', 'loopout', 'deep', 'loopret', 'loopraise'}
WEAK = {'fold', 'proj', 'stores', 'first', 'raises', 'isinst', 'hasattr', 'fmt', 'sorted', 'lindex',
        'typeof', 'dynattr', 'tostr', 'subcls', 'thaw', 'dictcomp', 'set', 'until', 'callable', 'store',
        'pyconst', 'did', 'delete', 'slc', 'zip', 'keys', 'items', 'values', 'splice', 'in', 'strcat',
        'reshape', 'filter', 'new', 'lam', 'fun', 'bm', 'getattr', 'partial', 'exc', 'file'}
# of these, the ones the interpretations give their meaning: a difference that involves them counts once it is confirmed
INTERPRETED = {'fold', 'proj', 'stores', 'sorted', 'lindex', 'dictcomp', 'set', 'until', 'store', 'slc', 'zip', 'keys', 'items', 'values',
               'splice', 'in', 'strcat', 'reshape', 'tostr', 'lam'}
SHAPE = {'as2d', 'flat', 'squeeze', 'rows', 'asarr', 'atleast1d', 'reshape', 'copyarr', 'aslist'}
SHAPE_SEQ = {'vstack', 'concat', 'hstack'}


# operations of the libraries used here that are known to do different things: one in place of another is a difference
DISTINCT = set(model.EXT_SIGS) | set('''
    predict predict_noiseless predict_quantiles predictive_gradients predict_jacobian posterior_samples posterior_samples_f
    posterior_covariance_between_points set_XY set_X set_Y optimize optimize_restarts optimize_SGD randomize sample
    constrain constrain_positive constrain_negative constrain_bounded constrain_fixed unconstrain unconstrain_fixed fix unfix
    set_prior unset_priors log_likelihood fit parameter_names parameter_names_flat parameter_shapes parameters_changed
    _trigger_params_changed trigger_update update_model checkGrad from_EV K Kdiag gradients_X mean std var min max sum prod
    argmin argmax argsort cumsum cumprod any all dot copy astype apply apply_async map imap imap_unordered starmap map_async
    append extend insert remove pop clear update setdefault reverse sort index count add discard start join terminate put get
    recv send write writelines writerow writerows read readlines strip lstrip rstrip lower upper split replace startswith
    endswith title capitalize format tolist item fill'''.split())


class Outcome(object):
    def __init__(self, ob, status, loc='', msg='', key='', detail=None):
        self.ob, self.status, self.loc, self.msg, self.key = ob, status, loc, msg, key
        self.detail = detail or {}

    def as_dict(self):
        return dict(obligation=self.ob, status=self.status, location=self.loc, message=self.msg,
                    key=self.key, **self.detail)


def erase(t, memo=None):
    """drop operations that only change array shape"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    u = tm.rebuild(t, lambda x: erase(x, memo))
    while True:
        if u.op in SHAPE and u.args and isinstance(u.args[0], T):
            u = u.args[0]
            continue
        if u.op in SHAPE_SEQ and len(u.args) and isinstance(u.args[0], T):
            u = u.args[0]
            continue
        if u.op == 'list' and len(u.args) == 1 and isinstance(u.args[0], T) and u.args[0].op != 'splice':
            u = u.args[0]
            continue
        break
    memo[t] = u
    return u


def undone(t, memo=None):
    """every object as it is at entry"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    u = tm.rebuild(t, lambda x: undone(x, memo))
    if u.op == 'did' and isinstance(u.args[0], T):
        u = u.args[0]
    memo[t] = u
    return u


def vocab(t):
    """constructs the normal form treats as uninterpreted"""
    out = set()
    for x in walk(t):
        if x.op == 'call' and str(x.args[0]).startswith('ext:'):
            out.add(x.args[0])
        elif x.op == 'call' and str(x.args[0]).startswith('.') and x.args[0][1:] not in DISTINCT:
            if x.args[0] == '.poll' and all(isinstance(v, T) and v.op == 'num' for _, v in x.args[2]):
                continue                       # nothing need have arrived by then
            out.add(x.args[0])
        elif x.op in WEAK:
            out.add(x.op)
    return out


def hard(t):
    for x in walk(t):
        if x.op in HARD:
            return x.op
    return None


def first_diff(a, b, depth=0):
    """smallest differing pair of subterms found by walking both terms together"""
    if a is b:
        return None
    if isinstance(a, T) and isinstance(b, T):
        if a.op == b.op and a.op != 'poly' and len(a.args) == len(b.args) and depth < 60:
            ds = []
            for x, y in zip(a.args, b.args):
                if x is y or (not isinstance(x, T) and x == y):
                    continue
                ds.append((x, y))
            if len(ds) == 1 or (a.op in ('ite', 'fold', 'tuple') and ds):
                d = first_diff(ds[0][0], ds[0][1], depth + 1)
                if d is not None:
                    return d
        return (a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        ds = [(x, y) for x, y in zip(a, b) if x is not y and x != y]
        if len(ds) == 1:
            return first_diff(ds[0][0], ds[0][1], depth + 1)
    return (a, b)


def same(a, b):
    if a is b:
        return True
    ka, kb = kind(a), kind(b)
    try:
        if a.op in ('poly', 'num', 'at', 'call', 'sym') or b.op == 'poly':
            if num_equal(a, b):
                return True
    except Exception:
        pass
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return all(same(x, y) for x, y in zip(a.args, b.args))
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return same(a.args[1], b.args[1]) and same(a.args[2], b.args[2])
    return False


def compare(impl, spec, strict=False, known=frozenset()):
    """-> (status, message)"""
    if same(impl, spec):
        return 'held', ''
    h = hard(impl)
    if h:
        return 'undecided', 'not modelled: ' + h
    if hard(spec):
        return 'undecided', 'reference not modelled: ' + hard(spec)
    ei, es = erase(impl), erase(spec)
    if same(ei, es) and not strict:
        return 'shape', 'equal up to array shape'
    if same(undone(impl), undone(spec)):
        return 'undecided', 'the same but for when an object is read'
    from .refute import PURE
    extra = vocab(impl) - vocab(spec) - known - PURE
    d = first_diff(impl, spec)
    if extra == {'slc'} and d is not None and part_of(d[0], d[1]):
        return 'violated', 'computes %s where the property requires all of it' % show(d[0], 7)[:700]
    if extra - INTERPRETED:
        return 'undecided', 'uninterpreted here: ' + ', '.join(sorted(extra))
    loc_i = {x for x in syms(impl) if x.args[0].startswith(('cur', 'end')) and ':' in x.args[0]}
    loc_s = {x for x in syms(spec) if x.args[0].startswith(('cur', 'end')) and ':' in x.args[0]}
    if any(not x.args[0].split(':', 1)[1].startswith(('~', 'field:', 'cell:self', 'base:self')) for x in loc_i - loc_s):
        return 'undecided', 'loop-carried local variable'
    return 'violated', 'computes %s where the property requires %s' % (show(d[0], 7)[:700], show(d[1], 7)[:700])


def part_of(a, b):
    """a is b without its first or last items"""
    if not (isinstance(a, T) and isinstance(b, T) and a.op == 'at' and same(a.args[0], b)):
        return False
    for x in a.args[1]:
        if x.op != 'slc':
            return False
        lo, hi, st = x.args
        if lo.op == 'num' and lo is not ZERO or hi.op == 'num' or st.op == 'num' and st.args[0] < 0:
            return True
    return False


ORDER = ('held', 'shape', 'undecided', 'violated')


def compare_paths(impl, spec, strict=False, known=frozenset()):
    """compare; where that does not settle it, compare path by path of the two decision diagrams, each pair
    under the equalities its path implies.  One fully modelled path that differs is a violation."""
    st, m = compare(impl, spec, strict, known)
    if st not in ('held', 'shape') and (impl.op == 'tuple') != (spec.op == 'tuple'):
        # a pair and a value unpacked into its components
        a, b = spread(impl, spec), spread(spec, impl)
        if a is not None and b is not None:
            return compare_paths(a, b, strict, known)
    if st in ('held', 'shape') or is_bool(impl) or is_bool(spec):
        return st, m
    if impl.op == 'tuple' and spec.op == 'tuple' and len(impl.args) == len(spec.args):
        pairs = [compare_paths(a, b, strict, known) for a, b in zip(impl.args, spec.args)]
        w = max(pairs, key=lambda x: ORDER.index(x[0]))
        return w
    if impl.op != 'ite' and spec.op != 'ite':
        return st, m
    out = []
    try:
        walk_paths(impl, spec, TRUE, out, [0], strict, known)
    except TooMany:
        return st, m
    if not out:
        return st, m
    return max(out, key=lambda x: ORDER.index(x[0]))


SPREADABLE = ('call', 'app', 'argminkey', 'at', 'sym', 'attr', 'item', 'first', 'proj')


def spread(t, other):
    """the components of t when the other side is a tuple"""
    if t.op == 'tuple':
        return t
    if other.op != 'tuple' or not other.args:
        return None
    from .npmodel import at
    n = len(other.args)

    def comps(x):
        if x.op == 'tuple':
            return list(x.args) if len(x.args) == n else None
        if x is UNDEF:
            return [UNDEF] * n
        if x.op == 'ite' and not is_bool(x):
            a, b = comps(x.args[1]), comps(x.args[2])
            return None if a is None or b is None else [ite(x.args[0], p, q) for p, q in zip(a, b)]
        if x.op in SPREADABLE:
            return [at(x, (num(j),)) for j in range(n)]
        return None
    c = comps(t)
    return None if c is None else raw('tuple', *c)


class TooMany(Exception):
    pass


def walk_paths(a, b, path, out, n, strict=False, known=frozenset()):
    n[0] += 1
    if n[0] > 200:
        raise TooMany()
    st = same(a, b)
    if st:
        out.append(('held', ''))
        return
    t = a if a.op == 'ite' and not is_bool(a) else b if b.op == 'ite' and not is_bool(b) else None
    if t is None:
        out.append(compare(a, b, strict, known))
        return
    v = t.args[0]
    for val in (True, False):
        lit = v if val else b_not(v)
        p2 = simp(b_and(path, lit))
        if p2 is FALSE:
            continue
        x, y = simp(tm.restrict(a, v, val)), simp(tm.restrict(b, v, val))
        eqs = equalities(v, val)
        if eqs:
            x, y = simp(rename(x, eqs)), simp(rename(y, eqs))
        walk_paths(x, y, p2, out, n, strict, known)


def equalities(v, val):
    """substitutions implied by a literal"""
    if v.op == 'isnone' and val:
        return {v.args[0]: NONE} if isinstance(v.args[0], T) and v.args[0].op in ('sym', 'attr') else None
    d = None
    if v.op == 'eq0' and val:
        d = v.args[0]
    elif v.op == 'lt0' and val:
        # 0 <= length < 1
        for m, c in tm.to_poly(v.args[0]).items():
            if len(m) == 1 and m[0][0].op == 'len' and c == 1 and v.args[0] is sub(m[0][0], ONE):
                return {m[0][0]: ZERO}
    elif v.op == 'eq' and val:
        x, y = v.args
        if y.op == 'str' and x.op in ('sym', 'attr', 'item'):
            return {x: y}
        if x.op == 'str' and y.op in ('sym', 'attr', 'item'):
            return {y: x}
    if d is not None:
        pz = tm.to_poly(d)
        for m, c in sorted(pz.items(), key=lambda kv: tm._mono_key(kv[0])):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'len', 'attr'):
                x = m[0][0]
                rest = tm.scale(sub(d, tm.scale(x, c)), -1 / tm.Fraction(c))
                if not tm.contains(rest, lambda t: t is x):
                    return {x: rest}
    return None


def lift_tuple(t):
    """a decision between tuples of one length is a tuple of decisions"""
    if t.op != 'ite' or is_bool(t):
        return t
    a, b = lift_tuple(t.args[1]), lift_tuple(t.args[2])
    if UNDEF in (a, b):
        o = a if b is UNDEF else b
        if o.op == 'tuple':
            return raw('tuple', *[ite(t.args[0], x, UNDEF) if o is a else ite(t.args[0], UNDEF, x) for x in o.args])
        return t
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return raw('tuple', *[ite(t.args[0], x, y) for x, y in zip(a.args, b.args)])
    return t


def care(t, ok):
    """t where the call returns normally; anything elsewhere"""
    if ok is TRUE or ok is FALSE:
        return t
    t = tm.assume(t, ok)
    if t.op == 'tuple':
        return raw('tuple', *[care(x, ok) for x in t.args])
    if tm.literals(ok) and not nonliteral(ok):
        return simp(t)
    return simp(ite(ok, t, UNDEF))


def nonliteral(c):
    while c.op == 'ite':
        v, hi, lo = c.args
        if lo is FALSE:
            c = hi
        elif hi is FALSE:
            c = lo
        else:
            return True
    return False


class Ob(object):
    def __init__(self, prop, id, target, spec, opaque=(), opaque_classes=(), inline=(), hints=None, effects=(),
                 args=None, what=('value', 'raises'), assume=None, known=(), about='', fields=None, tier='quick',
                 alt=(), recv_hint=None, kwargs=None, project=None, setup=None, exc_any=False, deep=False, when=None, only=None, strict=False, given=()):
        self.prop, self.id, self.target, self.spec = prop, id, target, spec
        self.opaque, self.opaque_classes, self.inline = tuple(opaque), tuple(opaque_classes), tuple(inline)
        self.hints, self.effects, self.args, self.what = hints, effects, args, what
        self.assume, self.known, self.about, self.fields, self.tier = assume, known, about, fields, tier
        self.alt, self.project, self.setup = alt, project, setup
        self.kwargs, self.exc_any, self.when = kwargs, exc_any, when
        self.only = only
        self.strict = strict
        self.given = given      # reference functions that say which inputs count
        self.terms = ()


def learn(p):
    """operations the references mention are known ones"""
    for m in p.modules.values():
        if m.name.startswith('spec.'):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    DISTINCT.add(n.func.attr)


def target_fn(p, target):
    if target[0] == 'fn':
        return p.fn(target[1], target[2] if len(target) > 2 else None)
    c = p.cls(target[0])
    if c is None:
        return None
    return p.find_method(c, target[1])


def pieces(t):
    """a text as a sequence of constants and computed parts; what both branches of a choice share is outside it"""
    if t.op == 'strcat':
        return glue([x for a in t.args for x in pieces(a)])
    if t.op != 'ite':
        return [t]
    A, B = pieces(t.args[1]), pieces(t.args[2])
    pre, suf = [], []
    while A and B:
        a, b = A[0], B[0]
        if a is b:
            pre.append(a)
            A, B = A[1:], B[1:]
            continue
        if a.op == b.op == 'str':
            n = 0
            while n < min(len(a.args[0]), len(b.args[0])) and a.args[0][n] == b.args[0][n]:
                n += 1
            if n:
                pre.append(tm.string(a.args[0][:n]))
            A = ([tm.string(a.args[0][n:])] if n < len(a.args[0]) else []) + A[1:]
            B = ([tm.string(b.args[0][n:])] if n < len(b.args[0]) else []) + B[1:]
            if n:
                continue
        break
    while A and B:
        a, b = A[-1], B[-1]
        if a is b:
            suf.insert(0, a)
            A, B = A[:-1], B[:-1]
            continue
        if a.op == b.op == 'str':
            x, y = a.args[0], b.args[0]
            n = 0
            while n < min(len(x), len(y)) and x[len(x) - 1 - n] == y[len(y) - 1 - n]:
                n += 1
            if n:
                suf.insert(0, tm.string(x[len(x) - n:]))
            A = A[:-1] + ([tm.string(x[:len(x) - n])] if n < len(x) else [])
            B = B[:-1] + ([tm.string(y[:len(y) - n])] if n < len(y) else [])
            if n:
                continue
        break
    mid = []
    if A or B:
        mid = [ite(t.args[0], text(A), text(B))]
    return glue(pre + mid + suf)


def glue(l):
    out = []
    for x in l:
        if x.op == 'str':
            if not x.args[0]:
                continue
            if out and out[-1].op == 'str':
                out[-1] = tm.string(out[-1].args[0] + x.args[0])
                continue
        out.append(x)
    return out


def text(l):
    return tm.string('') if not l else l[0] if len(l) == 1 else raw('strcat', *l)


def put_event(x, y):
    """the effect x before the effects y; consecutive texts written to a file are one text"""
    if x.op == 'ev' and x.args[0] == 'write' and len(x.args) == 2:
        l = pieces(x.args[1])
        rest = y.args
        if rest and rest[0].op == 'ev' and rest[0].args[0] == 'write' and len(rest[0].args) == 2:
            l = glue(l + pieces(rest[0].args[1]))
            rest = rest[1:]
        return raw('events', raw('ev', 'write', text(l)), *rest)
    x = csv_rows(x)
    if is_rows(x) and y.args and is_rows(y.args[0]) and x.args[1] is y.args[0].args[1]:
        z = y.args[0]
        both = raw('call', x.args[0], x.args[1], (('rows', cat(x.args[2][0][1], z.args[2][0][1])),))
        return raw('events', both, *y.args[1:])
    return raw('events', x, *y.args)


def is_rows(x):
    return x.op == 'call' and x.args[0] == '.writerows' and len(x.args) >= 3 and len(x.args[2]) == 1


def csv_rows(x):
    """rows written one by one are written together"""
    if x.op == 'ev' and x.args[0] == 'call' and len(x.args) == 2 and is_rows(x.args[1]):
        return x.args[1]
    if x.op == 'call' and x.args[0] == '.writerow' and len(x.args) >= 3 and len(x.args[2]) == 1:
        return raw('call', '.writerows', x.args[1], (('rows', mklist([x.args[2][0][1]])),))
    if x.op == 'evloop':
        vs, body = open_binder(x)
        items = body[0].args if body[0].op == 'tuple' else ()
        items = [i for i in items]
        if len(items) == 1 and items[0].op == 'tuple' and items[0].args[0] is TRUE:
            w = csv_rows(items[0].args[1])
            if is_rows(w) and vs[0] not in syms(w.args[1]):
                return raw('call', '.writerows', w.args[1], (('rows', comp(x.args[0], vs[0], w.args[2][0][1])),))
    return x


def trace(evs):
    """the sequence of effects as a decision diagram: one sequence per combination of conditions"""
    evs = [(g, e) for g, e in evs if g is not FALSE]
    lits = set()
    for g, e in evs:
        todo = [g]
        while todo:
            x = todo.pop()
            if x.op == 'ite':
                lits.add(x.args[0])
                todo += x.args[1:]
            elif x not in (TRUE, FALSE):
                lits.add(x)
    if len(lits) > 10:
        return raw('events', *[raw('ev2', g, e) for g, e in evs])
    t = raw('events')
    for g, e in reversed(evs):
        t = ite(g, tm.lift(lambda x, y: put_event(x, y) if y.op == 'events' else raw('then', x, y), e, t), t)
    return fold_texts(simp(t))


def fold_texts(t):
    """paths that differ only in the texts they write are one path that writes a choice of texts"""
    if t.op != 'ite':
        return t
    a, b = fold_texts(t.args[1]), fold_texts(t.args[2])
    if a.op == b.op == 'events' and len(a.args) == len(b.args):
        out = []
        for x, y in zip(a.args, b.args):
            if x is y:
                out.append(x)
            elif x.op == y.op == 'ev' and x.args[0] == y.args[0] == 'write' and len(x.args) == len(y.args) == 2:
                out.append(raw('ev', 'write', text(pieces(raw('ite', t.args[0], x.args[1], y.args[1])))))
            else:
                break
        else:
            return raw('events', *out)
    return raw('ite', t.args[0], a, b) if (a, b) != (t.args[1], t.args[2]) else t


def projections(ob, r):
    out = {}
    fa = ob.assume

    def norm0(t):
        if fa is None:
            return t
        return apply_facts(t, fa)
    norm = norm0
    if 'loops' in ob.what:
        lp, ren = loop_projections(r, norm0)
        out.update(lp)

        def norm(t):
            return norm0(rename(t, ren))
    if 'value' in ob.what:
        v = r.value
        if ob.project:
            v = ob.project(r, v)
        out['value'] = norm(care(lift_tuple(v), r.ok))
    if 'raises' in ob.what:
        d = {}
        for g, e in r.raises:
            n = 'exception' if ob.exc_any else exc_name(e)
            d[n] = b_or(d.get(n, FALSE), g)
        for n, g in d.items():
            g = norm(g)
            if g is not FALSE:
                out['raises ' + n] = g
    if 'ok' in ob.what:
        out['ok'] = norm(r.ok)
    if 'events' in ob.what:
        evs = [(norm(g), norm(simp(tm.assume(e, g)))) for g, e in r.events if g is not FALSE]
        out['events'] = trace(evs)
    if 'args' in ob.what:
        for n, v in r.args.items():
            if n != 'self':
                out['arg ' + n] = norm(v)
    if 'fields' in ob.what:
        for k, v in r.fields.items():
            if ob.fields is None or k in ob.fields:
                out['field ' + k] = norm(care(v, r.ok))
    return out


# ---------------------------------------------------------------------------------- loop summaries
def loop_views(r):
    """canonical description of every loop without closed form: carried locations are named after the
    field (or object) they live in; carried locations with the same start and the same step are one"""
    out = []
    ren = {}
    gens = [L for L in r.I.loops if L.get('kind') == 'general']
    for j, L in enumerate(gens):
        fs = L['fields']
        P = {}
        for lab, f in fs.items():
            p = f['P']
            if p is None:
                continue
            P[lab] = p if p.op == 'sym' else p.args[0] if p.args and isinstance(p.args[0], T) else p
        labs = sorted(P, key=lambda x: (0 if x.startswith('field:') else 1 if not x.startswith('var:') else 2, x))
        # optimistic partition, refined until stable
        rep = {}
        groups = {}
        for lab in labs:
            groups.setdefault(fs[lab]['init'], []).append(lab)
        part = list(groups.values())
        for _ in range(6):
            m = {}
            for g in part:
                for lab in g:
                    m[P[lab]] = P[g[0]]
            new = []
            for g in part:
                sub_ = {}
                for lab in g:
                    nx = fs[lab]['next']
                    nx = tm.subst(nx, m) if isinstance(nx, T) else nx
                    sub_.setdefault(nx, []).append(lab)
                new.extend(sub_.values())
            if len(new) == len(part):
                break
            part = new
        m = {L['k']: sym('iteration%d' % j)}
        name = {}
        for g in part:
            for lab in g:
                name[lab] = g[0]
                m[P[lab]] = raw('sym', 'cur%d:%s' % (j, g[0]))
        for lab, f in fs.items():
            o = f.get('out')
            if o is not None:
                o = o if o.op == 'loopout' else o.args[0]
                ren[o] = raw('sym', 'end%d:%s' % (j, name.get(lab, lab)))
        ren[raw('ev', 'loop', num(L['id']))] = raw('ev', 'loop', num(1000 + j))
        out.append((L, m, name))
    return out, ren


def loop_projections(r, norm):
    d = {}
    views, ren = loop_views(r)

    def fin(t, m):
        t = tm.subst(t, m)
        return norm(rename(t, ren))
    for j, (L, m, name) in enumerate(views):
        pre = 'loop%d ' % (j + 1)
        brk = FALSE
        for s_ in L['stops']:
            brk = b_or(brk, s_['guard'])
        cont = b_not(brk)
        if L['cond'] is not None:
            cont = b_and(L['cond'], cont)
        d[pre + 'goes on while'] = fin(simp(cont), m)
        if L['n'] is not None:
            d[pre + 'count'] = fin(L['n'], m)
        stops = {}
        for s_ in L['stops']:
            if s_['kind'] != 'break':
                stops[s_['kind']] = b_or(stops.get(s_['kind'], FALSE), s_['guard'])
                if s_['kind'] == 'return' and s_['value'] is not None:
                    d[pre + 'returns value'] = fin(s_['value'], m)
        for kd, g in stops.items():
            d[pre + kd + ' when'] = fin(simp(g), m)
        for lab, f in L['fields'].items():
            if f['P'] is None:
                continue
            if name.get(lab, lab) != lab:
                continue
            d[pre + 'start ' + lab] = fin(f['init'], m) if isinstance(f['init'], T) else UNDEF
            d[pre + 'step ' + lab] = fin(tm.assume(f['next'], cont), m)
            v = None
            for s_ in reversed(L['stops']):
                if s_['kind'] == 'raise':
                    continue
                w = s_['at'].get(lab, f['P'])
                v = ite(s_['guard'], w, v if v is not None else f['P'])
            if v is not None and v is not f['P']:
                d[pre + 'left with ' + lab] = fin(tm.assume(v, brk), m)
        evs = []
        for g, e in L['events']:
            g2, e2 = fin(simp(g), m), fin(e, m)
            if g2 is not FALSE:
                evs.append((g2, e2))
        d[pre + 'events'] = trace(evs)
    return d, ren


def rename(t, ren, memo=None):
    if not ren:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in ren:
        memo[t] = ren[t]
        return ren[t]
    memo[t] = tm.rebuild(t, lambda x: rename(x, ren, memo))
    return memo[t]


def exc_name(e):
    if e is None:
        return 'exception'
    if e.op == 'exc':
        return str(e.args[0])
    return e.op


def apply_facts(t, fa, memo=None):
    """rewrite by the stated assumptions: fa(term) is None, a boolean, or the term it equals"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    u = tm.rebuild(t, lambda x: apply_facts(x, fa, memo))
    v = fa(u)
    if v is True:
        u = TRUE
    elif v is False:
        u = FALSE
    elif v is not None:
        u = v
    memo[t] = u
    return u


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def limited(seconds, f):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(seconds))
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def param_names(f, g):
    """names for f's parameters: those of the reference g, by name, the rest by position"""
    a, b = f.params(), g.params()
    if f.cls is not None and not f.is_static:
        a = a[1:]
    if b and b[0] == 'self' and not (f.cls is None):
        b = b[1:]
    out = {}
    for j, n in enumerate(a):
        if n not in b and j < len(b) and b[j] not in a:
            out[n] = b[j]
    return out


def side(p, ob, specname, conf, like=None, bare=()):
    I = Interp(p, opaque=conf.get('opaque', ob.opaque), opaque_classes=ob.opaque_classes,
               inline=ob.inline, hints=ob.hints, effects=ob.effects)
    kw = {}
    tm.RANKING[:] = [specname] if specname else []
    if specname:
        f = p.fn(specname)
        if f is None:
            raise KeyError('no reference ' + specname)
    else:
        f = target_fn(p, ob.target)
    recv = None
    args = dict(ob.args or {})
    if ob.target[0] != 'fn' and not f.is_static:
        tf = target_fn(p, ob.target)
        if not (specname and tf.is_static):
            recv = I.sym_obj(ob.target[0], sym('self'))
    names = param_names(f, p.fn(like)) if like and not specname and p.fn(like) is not None else None
    if specname and recv is not None:
        args['self'] = recv
        r = analyse(I, fn=f, args=args, kwargs=ob.kwargs, pre=ob.setup, bare=bare)
        c = I.cell(recv)
        r.fields = {k: simp(I.fz(v)) for k, v in c.data}
        r.recv = recv
        held(I, r)
    else:
        if specname is None and ob.target[0] != 'fn':
            r = analyse(I, cls=ob.target[0], method=ob.target[1], args=args, kwargs=ob.kwargs, pre=ob.setup, names=names, bare=bare)
        else:
            r = analyse(I, fn=f, args=args, kwargs=ob.kwargs, pre=ob.setup, names=names, bare=bare)
    tm.RANKING[:] = []
    r.I = I
    return r


def field_default(t_impl, name):
    return raw('attr', sym('self'), name)


def assumed(ob, t):
    t = simp(t)
    return t if ob.assume is None else apply_facts(t, ob.assume)


def compare_sides(ob, ri, rs):
    pi, ps = projections(ob, ri), projections(ob, rs)
    if 'loops' in ob.what:
        li = [L for L in ri.I.loops if L.get('kind') == 'general']
        ls = [L for L in rs.I.loops if L.get('kind') == 'general']
        if len(li) != len(ls):
            return 'undecided', 'loops of a different form (%d against %d)' % (len(li), len(ls)), []
        pi, ps = pair_locals(ob, ri, rs, live(pi), live(ps), len(ls))
    return compare_projections(ob, ri, rs, pi, ps)


def label_of(k):
    """the location a loop projection speaks about"""
    r = k.split(' ', 1)[1]
    for w in ('start ', 'step ', 'left with '):
        if r.startswith(w):
            return r[len(w):]
    return ''


def is_local(lab):
    return not lab.startswith('~') and (lab.startswith('var:') or ':local' in lab)


def live(d):
    """without the local variables whose value at the end of an iteration nothing reads"""
    labs = {(k.split(' ')[0], label_of(k)) for k in d if k.startswith('loop') and ' start ' in k and is_local(label_of(k))}
    syms = {}
    for lp, lab in labs:
        for w in ('cur', 'end'):
            syms['%s%d:%s' % (w, int(lp[4:]) - 1, lab)] = (lp, lab)
    uses = {}
    for k, v in d.items():
        me = (k.split(' ')[0], label_of(k)) if k.startswith('loop') else None
        for x in tm.walk(v):
            if x.op == 'sym' and x.args[0] in syms:
                uses.setdefault(syms[x.args[0]], set()).add(me if me in labs else None)
    dead = set()
    alive = {x for x in labs if None in uses.get(x, ())}
    grown = True
    while grown:
        grown = False
        for x in labs - alive:
            if any(y in alive for y in uses.get(x, ())):
                alive.add(x)
                grown = True
    dead = labs - alive
    return {k: v for k, v in d.items() if not (k.startswith('loop') and (k.split(' ')[0], label_of(k)) in dead)}


def relabel(d, names):
    """rename local carried locations: {(loop, label): new label}"""
    if not names:
        return d
    ren = {}
    for (j, lab), new in names.items():
        for w in ('cur', 'end'):
            ren[raw('sym', '%s%d:%s' % (w, j, lab))] = raw('sym', '%s%d:%s' % (w, j, new))
    out = {}
    for k, v in d.items():
        if k.startswith('loop'):
            for (j, lab), new in names.items():
                pre = 'loop%d ' % (j + 1)
                if k.startswith(pre) and label_of(k) == lab:
                    k = k[:-len(lab)] + new
                    break
        out[k] = rename(v, ren)
    return out


def pair_locals(ob, ri, rs, pi, ps, nloops):
    """the local variables a loop carries have no name in common: try every pairing of locations that start equal and
    keep the one under which most coincides"""
    def carried(d, j):
        pre = 'loop%d start ' % (j + 1)
        return sorted(k[len(pre):] for k in d if k.startswith(pre) and is_local(k[len(pre):]))
    slots = []
    for j in range(nloops):
        li = carried(pi, j)
        for lab in carried(ps, j):
            b = ps['loop%d start %s' % (j + 1, lab)]
            cs = [x for x in li if same(pi['loop%d start %s' % (j + 1, x)], b)
                  or same(erase(pi['loop%d start %s' % (j + 1, x)]), erase(b))]
            slots.append((j, lab, cs))
    best = None
    todo = [({}, 0)]
    tried = 0
    while todo and tried < 60:
        m, n = todo.pop()
        if n < len(slots):
            j, lab, cs = slots[n]
            free = [c for c in cs if (j, c) not in m]
            if not free:
                todo.append((m, n + 1))
            for c in reversed(free):
                m2 = dict(m)
                m2[(j, c)] = lab
                todo.append((m2, n + 1))
            continue
        tried += 1
        back = {}
        ni, ns = {}, {}
        for q, ((j, c), lab) in enumerate(sorted(m.items())):
            ni[(j, c)] = '~%s' % lab
            ns[(j, lab)] = '~%s' % lab
        for j in range(nloops):
            for c in carried(pi, j):
                ni.setdefault((j, c), 'var:of the code ' + c)
            for c in carried(ps, j):
                ns.setdefault((j, c), 'var:of the reference ' + c)
        a, b = relabel(pi, ni), relabel(ps, ns)
        w, _, det = compare_projections(ob, ri, rs, a, b)
        score = sum(ORDER.index(x[1]) for x in det)
        if best is None or score < best[0]:
            best = (score, a, b)
        if score == 0:
            break
    return (best[1], best[2]) if best else (pi, ps)


def confirm(ob, a, b, m):
    """a difference of normal forms is a violation when an interpretation tells them apart"""
    from .refute import refute
    r, n, why = refute(a, b, not ob.strict, ob.terms)
    if r == 'differs':
        return 'violated', m
    if os.environ.get('SA_DEBUG'):
        print('   refute:', r, n, why, file=sys.stderr)
    return 'undecided', 'forms differ but %d interpretations %s [%s]' % (n, 'agree' if r == 'agrees' else 'are defined', m[:200])


def compare_projections(ob, ri, rs, pi, ps):
    worst = 'held'
    msgs = []
    rank = {'held': 0, 'shape': 1, 'undecided': 2, 'violated': 3}
    details = []
    known = frozenset().union(*[vocab(x) for x in ps.values()]) if ps else frozenset()
    for k in sorted(set(pi) | set(ps)):
        if k.startswith('field ') and k not in ps:
            continue
        if ob.only is not None and not ob.only(k):
            continue
        if k.startswith('loop') and is_local(label_of(k)):
            continue
        if k.startswith('loop') and '~' in k and (k not in pi or k not in ps):
            if k.split(' ')[1] != 'left':
                continue
        if k.startswith('loop') and k not in ps and k.split(' ', 1)[1].split(' ')[0] in ('start', 'step', 'left'):
            continue
        a, b = pi.get(k), ps.get(k)
        if k.startswith('loop') and a is None:
            # the location is not carried by this loop: unchanged
            lab = label_of(k)
            w = k.split(' ')[1]
            if w == 'start':
                continue
            a = raw('sym', 'cur%d:%s' % (int(k[4:].split(' ')[0]) - 1, lab)) if w in ('step', 'left') else FALSE
        if a is None:
            a = FALSE if k.startswith('raises') else simp(ri.I.fz(ri.I.get_attr(ri.recv, k[6:]))) if k.startswith('field ') else UNDEF
        if b is None:
            b = FALSE if k.startswith('raises') else UNDEF
        st, m = compare_paths(a, b, ob.strict, known)
        if st == 'violated':
            st, m = confirm(ob, a, b, m)
        details.append((k, st, size(a)))
        if st != 'held':
            msgs.append('%s: %s' % (k, m))
        if rank[st] > rank[worst]:
            worst = st
    return worst, '; '.join(m for m in msgs), details


def decide(p, ob, seconds=200):
    if not getattr(p, 'learnt', False):
        learn(p)
        p.learnt = True
        p.counted = p.counters()
    tm.COUNTERS.clear()
    tm.COUNTERS.update(p.counted)
    f = target_fn(p, ob.target)
    name = '%s:%s' % (ob.prop, ob.id)
    if f is None:
        return Outcome(name, 'undecided', '', 'entry point %s not found' % ('.'.join(map(str, ob.target)),), name)
    t0 = time.time()
    res = None
    confs = [{}] + [dict(opaque=a) for a in ob.alt]
    for conf in confs:
        tm.RANKS.clear()
        try:
            def go():
                specs = ob.spec if isinstance(ob.spec, (tuple, list)) else (ob.spec,)
                ri = side(p, ob, None, conf, specs[0])
                ob.terms = tuple(assumed(ob, side(p, ob, g, conf).value) for g in ob.given)
                best = None
                held_by = None
                for sp in specs:
                    rs = side(p, ob, sp, conf)
                    st, m, det = compare_sides(ob, ri, rs)
                    order = ('held', 'shape', 'undecided', 'violated')
                    if best is None or order.index(st) < order.index(best[0]):
                        best = (st, m, det)
                        held_by = sp
                    if st == 'held':
                        break
                st, m, det = best
                df = set()
                if st in ('held', 'shape') and not ob.kwargs:
                    df = set(p.fn(held_by).defaults()) - set(ob.args or {})
                if df:
                    ra, rb = side(p, ob, None, conf, held_by, bare=df), side(p, ob, held_by, conf, bare=df)
                    s2, m2, det2 = compare_sides(ob, ra, rb)
                    det = det + [('defaults: ' + k, s_, n_) for k, s_, n_ in det2]
                    if s2 not in ('held', 'shape'):
                        st, m = s2, 'with default arguments: ' + m2
                if st in ('violated', 'undecided'):
                    for fid, sp in ob.known:
                        rk = side(p, ob, sp, conf)
                        s2, m2, _ = compare_sides(ob, ri, rk)
                        if s2 == 'undecided' and st == 'violated':
                            st, m = 'undecided', 'against the recorded finding: ' + m2
                        if s2 in ('held', 'shape'):
                            return Outcome(name, 'known', f.loc, m, fid, dict(projections=det))
                if st in ('undecided',) and ri.I.notes:
                    m += ' [' + '; '.join(ri.I.notes[:3]) + ']'
                return Outcome(name, st, f.loc, m, name, dict(projections=det, functions=sorted(q for q in ri.I.fns_run if not q.startswith('spec.')), interface_calls=len(ri.I.calls_seen)))
            o = limited(seconds, go)
        except Timeout:
            o = Outcome(name, 'undecided', f.loc, 'analysis budget exceeded', name)
        except Unsupported as e:
            o = Outcome(name, 'undecided', f.loc, 'unsupported: %s' % e, name)
        except RecursionError:
            o = Outcome(name, 'undecided', f.loc, 'too deep', name)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            o = Outcome(name, 'undecided', f.loc, 'internal: %s: %s' % (type(e).__name__, e), name)
        o.detail['entry'] = f.qual
        o.detail['file'] = f.loc
        if res is None or {'violated': 2, 'undecided': 1}.get(o.status, 0) < {'violated': 2, 'undecided': 1}.get(res.status, 0):
            res = o
        if res.status in ('held', 'shape', 'known'):
            break
        # an undecided primary configuration never turns into a violation by trying another one
    res.detail['wall_s'] = round(time.time() - t0, 2)
    return res
