"""C16, C29: what is kept of a model's parameters is a copy, not the array the model itself goes on changing."""
import ast
from .common import *

LIVE = {'param_array'}          # paramz changes this array in place: sampling, optimising and setting parameters all write into it
VIEWS = {'asarray', 'asanyarray', 'ravel', 'reshape', 'view', 'squeeze', 'atleast_1d', 'atleast_2d', 'ascontiguousarray'}


def live(e, names):
    """the expression is the model's own array (or a view of it)"""
    if isinstance(e, ast.Attribute):
        return e.attr in LIVE or e.attr == 'T' and live(e.value, names)
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Subscript):
        return isinstance(e.slice, ast.Slice) and live(e.value, names)
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in VIEWS:
            return live(f.value, names) or bool(e.args) and live(e.args[0], names)
        return False
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(live(x, names) for x in e.elts)
    if isinstance(e, ast.IfExp):
        return live(e.body, names) or live(e.orelse, names)
    return False


def holder(e):
    """the model whose array it is"""
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and n.attr in LIVE:
            return ast.dump(n.value)
    return None


def own(f):
    """nodes of a function without those of functions nested in it, in source order"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            out.append(c)
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                go(c)
    go(f)
    return out


def spans(f):
    return [(n.lineno, n.end_lineno) for n in own(f) if isinstance(n, (ast.For, ast.While))]


def snapshots(p, fns, prop, what):
    out = []
    returns = set()
    for f in fns:
        if any(isinstance(n, ast.Return) and n.value is not None and live(n.value, ()) for n in own(f.node)):
            returns.add((f.cls.name if f.cls else None, f.name))
    n = 0
    for f in fns:
        nodes = own(f.node)
        names = {}
        for s in nodes:
            if isinstance(s, ast.Assign):
                alive = live(s.value, ())
                if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) \
                        and s.value.func.value.id == 'self' and f.cls and (f.cls.name, s.value.func.attr) in returns:
                    alive = True
                n += 1
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        names.setdefault(t.id, []).append((s, alive))
                    elif alive and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        out.append(Outcome('%s:%s' % (prop, what), 'violated', '%s:%d' % (f.module.path, s.lineno),
                                           '%s keeps the array of parameters of the model itself in self.%s: it changes with the model' % (f.qual, t.attr),
                                           '%s:%s:%s.%s' % (prop, what, f.qual, t.attr), dict(functions=[f.qual])))
        loops = spans(f.node)
        for v, l in names.items():
            if len(l) != 1 or not l[0][1]:
                continue
            d = l[0][0]
            changed = [s for s in nodes if isinstance(s, (ast.Assign, ast.AugAssign))
                       for t in (s.targets if isinstance(s, ast.Assign) else [s.target])
                       if isinstance(t, ast.Subscript) and (live(t.value, ()) or ast.dump(t.value).replace('Store()', 'Load()') == holder(d.value)) and s.lineno > d.lineno]
            if not changed:
                continue
            w = changed[0]
            bases = {id(t.value) for s in nodes if isinstance(s, (ast.Assign, ast.AugAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])
                     if isinstance(t, ast.Subscript)}
            for u in nodes:
                if isinstance(u, ast.Name) and u.id == v and isinstance(u.ctx, ast.Load) and id(u) not in bases:
                    # read after the model's array was written: later in the text, in the writing statement itself or in the same loop
                    if u.lineno > w.lineno or any(a <= u.lineno <= b and a <= w.lineno <= b for a, b in loops):
                        out.append(Outcome('%s:%s' % (prop, what), 'violated', '%s:%d' % (f.module.path, u.lineno),
                                           '%s reads %s as the parameters saved at line %d, but it is the array of the model itself, written at line %d'
                                           % (f.qual, v, d.lineno, w.lineno),
                                           '%s:%s:%s.%s' % (prop, what, f.qual, v), dict(functions=[f.qual])))
                        break
    out.append(Outcome('%s:%s' % (prop, what), 'held', '', 'every other saved parameter array is a copy', '%s:%s' % (prop, what),
                       dict(functions=[f.qual for f in fns], about='%d assignments' % n)))
    return out


def chosen(p, path):
    return [f for f in p.functions() if path in f.module.path]


@rule('C16', 'saved-parameters', 'parameters saved before sampling are a copy of the array of the model')
def c16(p, tier):
    return snapshots(p, chosen(p, '/models/'), 'C16', 'saved-parameters')


@rule('C29', 'saved-state', 'the state of the model that cached beliefs belong to is a copy')
def c29(p, tier):
    return snapshots(p, chosen(p, '/acquisitions/'), 'C29', 'saved-state')
