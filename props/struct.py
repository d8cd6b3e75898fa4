"""C28: rules over the whole program, decided on syntax trees and the flow of package objects."""
import ast
from .common import *
from sa import names, flow

# features only some kinds offer, by documentation: entropy search is for Gaussian-process models, and only models with
# hyper-parameters report them; bandit spaces are not translated
OPTIONAL = {
    ('predict_covariance', k) for k in ('GPModel_MCMC', 'RFModel', 'WarpedGPModel')} | {
    ('get_covariance_between_points', k) for k in ('GPModel_MCMC', 'RFModel', 'WarpedGPModel')} | {
    ('get_model_parameters', k) for k in ('RFModel', 'WarpedGPModel')} | {
    ('get_model_parameters_names', k) for k in ('RFModel', 'WarpedGPModel')}
OPTIONAL_CALLS = {('with_noise', 'GPModel_MCMC.predict'), ('with_noise', 'RFModel.predict'), ('with_noise', 'WarpedGPModel.predict'),
                  ('model_to_objective', 'BanditVariable.model_to_objective')}


def at(f, node):
    m = f.module if f is not None else None
    return '%s:%d' % (f.loc.rsplit(':', 1)[0], node.lineno) if m is not None else ''


@rule('C28', 'local-names', 'no name is read where it may be unset')
def local_names(p, tier):
    out, fns, reads, skipped = [], [], 0, []
    for f in p.functions():
        found, r = names.check_function(p, f.module, f.node)
        if found is None:
            skipped.append(f.qual)
            continue
        fns.append(f.qual)
        reads += r
        for line, x, what in found:
            k = 'C28:names:%s:%s' % (f.qual, x)
            out.append(Outcome('C28:local-names', 'violated', '%s:%d' % (f.loc.rsplit(':', 1)[0], line),
                               'in %s the name %s %s' % (f.qual, x, what), k, dict(functions=[f.qual])))
    out.append(Outcome('C28:local-names', 'held', '', 'every other read is of a bound name', 'C28:local-names',
                       dict(functions=sorted(set(fns)), about='%d reads in %d functions; too many conditions in %s' % (reads, len(fns), skipped or 'none'))))
    return out


_flow = {}


def whole(p):
    if 'f' not in _flow:
        fl = flow.Flow(p).run()
        _flow['f'] = (fl, fl.check())
    return _flow['f']


@rule('C28', 'attributes-and-calls', 'attributes exist on the objects that reach them, calls pass accepted arguments')
def attributes(p, tier):
    fl, rep = whole(p)
    out = []
    for kind, f, node, kinds, all_, what in rep:
        if kind == 'attribute':
            kinds = [k for k in kinds if (what, k) not in OPTIONAL]
            if not kinds:
                continue
            msg = '%s asks %s of %s, which has no such attribute' % (f.qual if f else '', what, ', '.join(kinds))
            key = 'C28:attribute:%s:%s:%s' % (f.qual if f else '', what, kinds[0])
        else:
            if any((w, kinds[0]) in OPTIONAL_CALLS and w in what for w, _ in OPTIONAL_CALLS):
                continue
            msg = 'in %s the call %s cannot be made: %s' % (f.qual if f else '', ast.unparse(node)[:120], what)
            key = 'C28:call:%s:%s' % (f.qual if f else '', what)
        out.append(Outcome('C28:attributes-and-calls', 'violated', at(f, node), msg, key, dict(functions=[f.qual] if f else [])))
    out.append(Outcome('C28:attributes-and-calls', 'held', '', 'every other attribute and call', 'C28:attributes-and-calls',
                       dict(about='%(attributes)d attribute reads on package objects and %(calls)d calls of package functions' % fl.sites,
                            functions=sorted({f.qual for f in fl.fns}))))
    return out


@rule('C28', 'imports', 'names imported from inside the package exist there')
def imports(p, tier):
    out, n = [], 0
    for m in p.modules.values():
        if m.is_spec:
            continue
        handled = set()
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and t.handlers:
                for s in t.body:
                    handled |= {id(x) for x in ast.walk(s)}
        for s in ast.walk(m.tree):
            if not isinstance(s, ast.ImportFrom) or id(s) in handled:
                continue
            src = p.abs_import(m, s)
            if src not in p.modules:
                if src.split('.')[0] == p.pkg and not src.startswith(p.pkg + '.testing'):
                    out.append(Outcome('C28:imports', 'violated', '%s:%d' % (rel(m), s.lineno), 'no module %s' % src, 'C28:import:%s:%s' % (m.name, src)))
                continue
            g = names.module_globals(p, p.modules[src])
            for a in s.names:
                n += 1
                if a.name == '*' or g is None or a.name in g or (src + '.' + a.name) in p.modules or a.name in ('testing',):
                    continue
                out.append(Outcome('C28:imports', 'violated', '%s:%d' % (rel(m), s.lineno), 'module %s has no name %s' % (src, a.name),
                                   'C28:import:%s:%s' % (m.name, a.name)))
    out.append(Outcome('C28:imports', 'held', '', '%d imported names exist' % n, 'C28:imports', dict(about='%d names' % n)))
    return out


def rel(m):
    import os
    from sa.program import REPO
    return os.path.relpath(m.path, REPO)


PAIRED = {'model_to_objective': {'BanditVariable'}}      # bandit spaces never translate (see OPTIONAL)


@rule('C28', 'overrides', 'an overriding method accepts every call its base class accepts')
def overrides(p, tier):
    out, n = [], 0
    for c in p.classes():
        for name, f in c.methods.items():
            if name == '__init__' or f.is_static or f.is_classmethod or f.is_property:
                continue
            for b in p.mro(c)[1:]:
                g = b.methods.get(name)
                if g is None or g.is_static or g.is_classmethod or c.name in PAIRED.get(name, ()):
                    continue
                n += 1
                msg = narrower(f, g)
                if msg:
                    out.append(Outcome('C28:overrides', 'violated', f.loc, '%s overrides %s but %s' % (f.qual, g.qual, msg),
                                       'C28:override:%s' % f.qual, dict(functions=[f.qual, g.qual])))
    out.append(Outcome('C28:overrides', 'held', '', '%d overriding methods accept what their base accepts' % n, 'C28:overrides', dict(about='%d pairs' % n)))
    return out


def narrower(f, g):
    a, b = f.node.args, g.node.args
    fp, gp = f.params()[1:], g.params()[1:]
    freq = len(fp) - len(a.defaults)
    greq = len(gp) - len(b.defaults)
    if len(fp) < len(gp) and not a.vararg:
        return 'takes fewer arguments (%s)' % ', '.join(gp[len(fp):])
    if freq > greq and not b.vararg:
        return 'requires %s' % ', '.join(fp[greq:freq])
    return None
