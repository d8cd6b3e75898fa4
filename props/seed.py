"""C21: every draw comes from the global numpy generator, which nothing replaces, and nothing else decides what is suggested."""
import ast
from .common import *
from .struct import whole, at, rel
from sa import sources
from sa.names import own_nodes, FUNCS

RESEED = {'seed', 'set_state', 'set_bit_generator', 'get_bit_generator'}
OWN = {'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64', 'PCG64DXSM'}
# external components with a generator of their own: what a call of them must say
CONSUMERS = {'cma.fmin': 'seed', 'cma.fmin2': 'seed', 'cma.CMAEvolutionStrategy': 'seed', 'emcee.EnsembleSampler': 'state'}
SEEDED = ('sklearn.', 'scipy.stats.qmc.', 'skopt.')


def functions(p):
    """(function or None, module, node, chain of enclosing function nodes), nested ones included"""
    seen = set()
    for m in p.modules.values():
        if m.is_spec or '.testing' in m.name:
            continue

        def visit(node, chain, cls):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, FUNCS):
                    yield m, c, chain + [c], cls
                    yield from visit(c, chain + [c], cls)
                elif isinstance(c, ast.ClassDef):
                    yield from visit(c, chain, c.name)
                else:
                    yield from visit(c, chain, cls)
        for x in visit(m.tree, [], None):
            if id(x[1]) not in seen:
                seen.add(id(x[1]))
                yield x


def title(node, cls):
    n = getattr(node, 'name', '<lambda>')
    return '%s.%s' % (cls, n) if cls else n


def derived(e, nm, node, fl, depth=0):
    """does the value of e come from a draw of the global generator?"""
    if depth > 5:
        return False
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            d = nm.dotted(x.func)
            if sources.is_draw(d) or d in ('numpy.random.get_state',):
                return True
            if any(draws(fl.byfn.get(g), fl) for g in fl.targets.get(id(x), {})):
                return True
        if isinstance(x, ast.Attribute) and nm.dotted(x) in ('numpy.random.mtrand._rand', 'numpy.random._rand', 'numpy.random.mtrand._rand._bit_generator'):
            return True
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            for n in own_nodes(node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets) and n.value is not e \
                        and derived(n.value, nm, node, fl, depth + 1):
                    return True
    return False


def draws(g, fl):
    n = getattr(g, 'node', None)
    if n is None:
        return False
    return any(isinstance(x, ast.Attribute) and x.attr in sources.DRAWS and 'random' in ast.unparse(x.value) for x in ast.walk(n))


def is_nan(e):
    return e is not None and ('nan' in ast.unparse(e).lower())


def option(call, key, fn):
    """value written for an option in the keywords or in a dictionary (or dict(...)) reaching the call"""
    todo = [k.value for k in call.keywords] + list(call.args)
    for k in call.keywords:
        if k.arg == key:
            return k.value
    names = set()
    for e in list(todo):
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                names.add(x.id)
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id in names:
                    todo.append(n.value)
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names \
                        and isinstance(t.slice, ast.Constant) and t.slice.value == key:
                    return n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'set', 'setdefault') and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
            todo += list(n.args)
            for k in n.keywords:
                if k.arg == key:
                    return k.value
            if n.func.attr in ('set', 'setdefault') and len(n.args) == 2 and isinstance(n.args[0], ast.Constant) and n.args[0].value == key:
                return n.args[1]
    for e in todo:
        for x in ast.walk(e):
            if isinstance(x, ast.Dict):
                for k, v in zip(x.keys, x.values):
                    if isinstance(k, ast.Constant) and k.value == key:
                        return v
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'dict':
                for k in x.keywords:
                    if k.arg == key:
                        return k.value
    return None


def state_given(fn, nm, fl):
    """an emcee sampler is given a state in the function"""
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ('random_state', '_random') for t in n.targets):
            return derived(n.value, nm, fn, fl)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ('rstate0', 'random_state') and derived(k.value, nm, fn, fl):
                    return True
            if isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and 'random' in ast.unparse(n.args[1]):
                return derived(n.args[2], nm, fn, fl)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'set_state' and n.args and '_random' in ast.unparse(n.func.value):
                return derived(n.args[0], nm, fn, fl)
    return False


@rule('C21', 'sources', 'every draw is from the global numpy generator, and nothing seeds or replaces it')
def source_rule(p, tier):
    fl, _ = whole(p)
    out, n, fns, dr = [], 0, [], 0

    def bad(m, node, who, msg):
        out.append(Outcome('C21:sources', 'violated', '%s:%d' % (rel(m), node.lineno), 'in %s %s' % (who, msg),
                           'C21:sources:%s:%s' % (who, msg[:60]), dict(functions=[who])))
    for m, node, chain, cls in functions(p):
        nm = sources.Names(p, m, chain)
        who = title(node, cls)
        fns.append(m.name + '.' + who)
        for x in own_nodes(node):
            if not isinstance(x, ast.Call):
                continue
            n += 1
            d = nm.dotted(x.func)
            if d is None:
                continue
            d = d.replace('numpy.random.mtrand.', 'numpy.random.').replace('numpy.random._rand.', 'numpy.random.')
            last = d.rsplit('.', 1)[-1]
            if d.startswith('numpy.random.'):
                if last in RESEED:
                    bad(m, x, who, '%s replaces the state of the global generator' % d)
                elif last in OWN and not any(derived(a, nm, node, fl) for a in list(x.args) + [k.value for k in x.keywords]):
                    bad(m, x, who, '%s makes a generator that does not follow the global one' % d)
                else:
                    dr += 1
            elif d == 'random' or d.startswith('random.') or d.startswith('secrets.'):
                bad(m, x, who, '%s is not the numpy generator' % d)
            elif d in sources.OTHER:
                bad(m, x, who, '%s differs from run to run' % d)
            elif d in CONSUMERS:
                if CONSUMERS[d] == 'seed':
                    v = option(x, 'seed', node)
                    if v is None or not (is_nan(v) or derived(v, nm, node, fl)):
                        bad(m, x, who, '%s seeds the global generator from the clock unless its seed is nan' % d)
                elif not state_given(node, nm, fl):
                    bad(m, x, who, '%s has a generator of its own that is given no state' % d)
            elif d.startswith(SEEDED):
                for k in x.keywords:
                    if k.arg in ('random_state', 'seed') and isinstance(k.value, ast.Constant) and k.value.value is not None:
                        bad(m, x, who, '%s is given the fixed seed %r' % (d, k.value.value))
                if d.startswith('scipy.stats.qmc.') and not any(k.arg in ('seed', 'rng') and derived(k.value, nm, node, fl) for k in x.keywords) \
                        and not any(k.arg == 'scramble' and isinstance(k.value, ast.Constant) and k.value.value is False for k in x.keywords):
                    bad(m, x, who, '%s scrambles with a generator of its own' % d)
    # draws made while the modules are loaded, before any seed is set
    for m in p.modules.values():
        if m.is_spec or '.testing' in m.name:
            continue
        nm = sources.Names(p, m, [])
        for e, where in load_time(m.tree):
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    d = nm.dotted(x.func)
                    if d and (d.startswith('numpy.random.') or d.startswith('random.') or d in sources.OTHER or d in sources.CLOCKS):
                        out.append(Outcome('C21:sources', 'violated', '%s:%d' % (rel(m), x.lineno), '%s is evaluated once, when %s is loaded' % (d, m.name),
                                           'C21:load:%s:%s' % (m.name, where), dict(functions=[m.name])))
    out.append(Outcome('C21:sources', 'held', '', 'every other call', 'C21:sources',
                       dict(functions=fns, about='%d calls in %d functions; %d draws from the global generator' % (n, len(fns), dr))))
    return out


def load_time(tree):
    """expressions evaluated when the module is loaded: module and class level, parameter defaults, decorators"""
    todo = list(tree.body)
    while todo:
        s = todo.pop()
        if isinstance(s, FUNCS):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None] + list(getattr(s, 'decorator_list', [])):
                yield d, getattr(s, 'name', '<lambda>')
            body = s.body if isinstance(s.body, list) else [s.body]
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, FUNCS):
                        pass
            continue
        if isinstance(s, (ast.ClassDef, ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ('body', 'orelse', 'finalbody'):
                todo += getattr(s, f, [])
            for h in getattr(s, 'handlers', []):
                todo += h.body
            continue
        yield s, 'module level'


@rule('C21', 'order', 'no result depends on the order of a set of strings')
def order(p, tier):
    fields = set()
    for m, node, chain, cls in functions(p):
        u = sources.Unordered(node)
        for n in own_nodes(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and u.is_set(n.value) and isinstance(t.value, ast.Name):
                        fields.add(t.attr)
    out, k, fns = [], 0, []
    for m, node, chain, cls in functions(p):
        u = sources.Unordered(node, fields)
        fns.append(m.name + '.' + title(node, cls))
        for where, e in u.ordered_uses():
            k += 1
            if u.unstable(e):
                who = title(node, cls)
                out.append(Outcome('C21:order', 'violated', '%s:%d' % (rel(m), where.lineno),
                                   'in %s the order of "%s", a set of strings, differs from process to process' % (who, ast.unparse(e)[:80]),
                                   'C21:order:%s:%s' % (who, ast.unparse(e)[:60]), dict(functions=[who])))
    out.append(Outcome('C21:order', 'held', '', 'no other use', 'C21:order', dict(functions=fns, about='%d uses of the order of a set' % k)))
    return out


ROOTS = ['BO._compute_next_evaluations', 'BO.suggest_next_locations', 'BO._update_model', 'initial_design', 'ArgumentsManager.*', 'BO.__init__',
         'BayesianOptimization.__init__', 'ModularBayesianOptimization.__init__']


@rule('C21', 'clock', 'no suggestion reads the clock')
def clock(p, tier):
    fl, _ = whole(p)
    import fnmatch
    by = {}
    for f in p.functions():
        if f.module.is_spec:
            continue
        by.setdefault(f.node, f)
    calls = {}
    for f in p.functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                for g in fl.targets.get(id(x), {}):
                    if g in fl.byfn:
                        calls.setdefault(f.node, set()).add(fl.byfn[g].node)
    lab = lambda f: (f.cls.name + '.' if f.cls else '') + f.name
    g_timed = lambda f: f.cls is not None and f.module.name.startswith('GPyOpt.core.task.objective')       # evaluating the objective is timed: those are costs
    todo = [(f.node, (lab(f),)) for f in p.functions() if not f.module.is_spec and any(fnmatch.fnmatchcase(lab(f), r) for r in ROOTS)]
    seen = {}
    while todo:
        n, path = todo.pop()
        if n in seen:
            continue
        seen[n] = path
        for g in calls.get(n, ()):
            if g not in seen and g in by and not g_timed(by[g]):
                todo.append((g, path + (lab(by[g]),)))
    out, fns = [], []
    for n, path in seen.items():
        f = by.get(n)
        if f is None:
            continue
        fns.append(f.qual)
        nm = sources.Names(p, f.module, [n])
        for x in own_nodes(n):
            if isinstance(x, ast.Call) and nm.dotted(x.func) in sources.CLOCKS:
                # measuring only: the value is printed or stored for the report
                out.append(Outcome('C21:clock', 'violated', '%s:%d' % (rel(f.module), x.lineno), '%s reads the clock on the way to a suggestion (%s)' % (f.qual, ' -> '.join(path)),
                                   'C21:clock:%s' % lab(f), dict(functions=[f.qual])))
    out.append(Outcome('C21:clock', 'held', '', 'no other function reachable from the suggestion code reads the clock', 'C21:clock', dict(functions=fns)))
    return out


@rule('C21', 'state', 'nothing is carried from one run to the next in modules, classes or default arguments')
def state(p, tier):
    out, fns = [], []
    from sa.effects import MUTATE
    classes = {c.name: c for c in p.classes()}
    for m, node, chain, cls in functions(p):
        who = title(node, cls)
        fns.append(m.name + '.' + who)
        top = set()
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        top.add(t.id)
        bound = set()
        for f in chain:
            a = f.args
            bound |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {y.arg for y in (a.vararg, a.kwarg) if y}
            for n in own_nodes(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    bound.add(n.id)
        glob = {g for n in own_nodes(node) if isinstance(n, ast.Global) for g in n.names}
        # parameters whose default is a mutable display
        dflt = set()
        a = node.args
        ps = a.posonlyargs + a.args
        for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set'):
                dflt.add(x.arg)
        rebound = set()
        for n in own_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                rebound.add(n.id)
        shared = {}

        def root(e):
            while isinstance(e, (ast.Subscript,)):
                e = e.value
            return e

        def persistent(e):
            e = root(e)
            if isinstance(e, ast.Name):
                if e.id in glob or e.id in top and e.id not in bound:
                    return 'the module variable %s' % e.id
                if e.id in dflt and e.id not in rebound:
                    return 'the default value of %s' % e.id
            if isinstance(e, ast.Attribute):
                b = e.value
                if isinstance(b, ast.Name) and b.id == 'cls' and cls:
                    return 'the class attribute %s' % e.attr
                if isinstance(b, ast.Name) and b.id in classes and b.id not in bound:
                    return 'the class attribute %s.%s' % (b.id, e.attr)
                if isinstance(b, ast.Attribute) and b.attr == '__class__' or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type' and len(b.args) == 1:
                    return 'the class attribute %s' % e.attr
                if isinstance(b, ast.Name) and cls and chain and b.id == 'self' and cls in classes:
                    k = classes[cls]
                    for q in p.mro(k):
                        if e.attr in q.consts and not any(e.attr in stored(f) for z in p.mro(k) for f in z.methods.values()):
                            v = q.consts[e.attr]
                            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Call)):
                                return 'the class attribute %s' % e.attr
                            break
            return None
        hits = []
        for n in own_nodes(node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Name):
                            if x.id in glob:
                                hits.append((n, 'the module variable %s' % x.id))
                            elif isinstance(n, ast.AugAssign) and x.id in dflt and sum(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for y in own_nodes(node)) == 1:
                                hits.append((n, 'the default value of %s' % x.id))
                        elif isinstance(x, ast.Subscript):
                            hits.append((n, persistent(x)))
                        elif isinstance(x, ast.Attribute):
                            r = persistent(x)
                            if r and 'self' != getattr(x.value, 'id', None):
                                hits.append((n, r))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE | {'__next__'}:
                hits.append((n, persistent(n.func.value)))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
                hits.append((n, persistent(n.args[0])))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args and (isinstance(n.args[0], ast.Name) and (n.args[0].id == 'cls' or n.args[0].id in classes)):
                hits.append((n, 'a class attribute'))
        for n, what in hits:
            if what:
                out.append(Outcome('C21:state', 'violated', '%s:%d' % (rel(m), n.lineno), '%s changes %s, which outlives the run' % (who, what),
                                   'C21:state:%s:%s' % (who, what), dict(functions=[who])))
    out.append(Outcome('C21:state', 'held', '', 'no other change of module, class or default-argument state', 'C21:state', dict(functions=fns)))
    return out


def stored(f):
    ps = f.params()
    return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and ps and n.value.id == ps[0]}
