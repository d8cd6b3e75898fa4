"""C22 (data of the caller is not changed) and the copy clause of C04, decided by the effect analysis."""
import os
from .common import *
from .struct import whole
from sa import effects

_eff = {}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# parameters that are working storage of the library, filled or merged on purpose
WORKING = {('RandomDesign.fill_noncontinous_variables', 'samples'),      # the design under construction
           ('update_config', 'config_default'), ('update_config', 'config_new'),     # merges into a private copy of the defaults
           ('get_quantiles', 's')}                                       # the prediction under evaluation, floored in place


def effs(p):
    if 'e' not in _eff:
        fl, _ = whole(p)
        _eff['e'] = effects.Effects(p, fl).run()
    return _eff['e']


def api():
    return set(l.strip() for l in open(os.path.join(HERE, 'spec', 'api.txt')) if l.strip())


def label(f):
    return (f.cls.name + '.' if f.cls else '') + f.name


def pnames(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ['*' + a.vararg.arg if a.vararg else '*', '**' + a.kwarg.arg if a.kwarg else '**']


@rule('C22', 'parameters', 'no entry point changes data it is given')
def parameters(p, tier):
    E = effs(p)
    pub = api()
    out, n, fns = [], 0, []
    for q, s in sorted(E.sum.items()):
        f = E.fns[q]
        if label(f) not in pub:
            continue
        ps = pnames(f)
        fns.append(q)
        n += len(ps) - 2
        for o, w in s.mut.items():
            if o[0] != 'P' or (label(f), ps[o[1]]) in WORKING or ps[o[1]].startswith('*'):
                continue
            out.append(Outcome('C22:parameters', 'violated', '%s:%d' % (w[1], w[2]),
                               '%s changes its argument %s in place: "%s" in %s' % (f.qual, ps[o[1]], w[3], w[0]),
                               'C22:parameters:%s:%s' % (label(f), ps[o[1]]), dict(functions=[q, w[0]])))
    out.append(Outcome('C22:parameters', 'held', '', 'no other argument is changed in place', 'C22:parameters',
                       dict(functions=fns, about='%d parameters of %d entry points; %d functions summarised' % (n, len(fns), len(E.sum)))))
    return out


@rule('C17', 'argument', 'normalising leaves the given outputs as they are')
def normalised(p, tier):
    out = []
    for x in parameters(p, tier):
        if x.status == 'violated' and x.key.startswith('C22:parameters:normalize:'):
            out.append(Outcome('C17:argument', 'violated', x.loc, x.msg, x.key.replace('C22:parameters', 'C17:argument'), x.detail))
    out.append(Outcome('C17:argument', 'held', '', 'no other in-place change of the outputs given to normalize', 'C17:argument', {}))
    return out


@rule('C22', 'stored', 'what an entry point keeps of its arguments is not changed later either')
def stored(p, tier):
    E = effs(p)
    pub = api()
    held = {}
    for q, s in E.sum.items():
        f = E.fns[q]
        if label(f) not in pub:
            continue
        ps = pnames(f)
        for k, v in s.store.items():
            for o, d in v:
                if o[0] == 'P' and d <= 0 and not ps[o[1]].startswith('*'):
                    held.setdefault(k, set()).add('%s(%s)' % (label(f), ps[o[1]]))
    out, seen = [], set()
    n = 0
    for q, s in sorted(E.sum.items()):
        for o, w in s.mut.items():
            if o[0] != 'F':
                continue
            n += 1
            k = (o[1], o[2])
            if k in held and (k, w) not in seen:
                seen.add((k, w))
                out.append(Outcome('C22:stored', 'violated', '%s:%d' % (w[1], w[2]),
                                   '"%s" in %s changes in place the data given to %s' % (w[3], w[0], ', '.join(sorted(held[k])[:4])),
                                   'C22:stored:%s.%s' % k, dict(functions=[w[0]])))
    out.append(Outcome('C22:stored', 'held', '', 'no other field that holds data of the caller is changed in place', 'C22:stored',
                       dict(about='%d fields hold arguments; %d (function, field) in-place changes examined' % (len(held), n))))
    return out


@rule('C04', 'BO.get_evaluations', 'the history handed out shares no storage with the one kept')
def history_copy(p, tier):
    E = effs(p)
    c = p.cls('BO')
    f = p.find_method(c, 'get_evaluations') if c else None
    if f is None or f.qual not in E.sum:
        return [Outcome('C04:BO.get_evaluations', 'undecided', '', 'entry point not found', 'C04:BO.get_evaluations')]
    bad = sorted(o[2] for o, d in E.sum[f.qual].ret if o[0] == 'F' and o[2] in ('X', 'Y'))
    if bad:
        return [Outcome('C04:BO.get_evaluations', 'violated', f.loc, 'returns the recorded %s itself, not a copy' % ', '.join(bad),
                        'C04:BO.get_evaluations', dict(functions=[f.qual]))]
    return [Outcome('C04:BO.get_evaluations', 'held', f.loc, 'what is returned shares no storage with X or Y', 'C04:BO.get_evaluations', dict(functions=[f.qual]))]


@rule('C04', 'history.in-place', 'the recorded history is replaced by longer arrays, never changed in place')
def in_place(p, tier):
    E = effs(p)
    out = []
    for q, s in sorted(E.sum.items()):
        for o, w in s.mut.items():
            if o[0] == 'F' and o[2] in ('X', 'Y') and w[0] == q and p.cls(o[1]) is not None and o[1] == 'BO':
                out.append(Outcome('C04:history.in-place', 'violated', '%s:%d' % (w[1], w[2]),
                                   '"%s" in %s changes the recorded history in place' % (w[3], w[0]), 'C04:in-place:%s' % q, dict(functions=[q])))
    out.append(Outcome('C04:history.in-place', 'held', '', 'no other in-place change of the history', 'C04:in-place', dict(about='%d functions' % len(E.sum))))
    return out


def shared_objects(prop, what, text):
    def r(p, tier):
        E = effs(p)
        out, seen = [], set()
        for q, s in sorted(E.sum.items()):
            for o, w in s.mut.items():
                if o[0] == 'G' and (o, w) not in seen:
                    seen.add((o, w))
                    out.append(Outcome('%s:%s' % (prop, what), 'violated', '%s:%d' % (w[1], w[2]), '"%s" in %s changes %s of %s, which every run shares' % (w[3], w[0], o[2], o[1]),
                                       '%s:%s:%s.%s' % (prop, what, o[1], o[2]), dict(functions=[w[0], q])))
        out.append(Outcome('%s:%s' % (prop, what), 'held', '', text, '%s:%s' % (prop, what), dict(about='%d functions summarised' % len(E.sum))))
        return out
    return r


rule('C25', 'defaults', 'the documented defaults are never changed')(shared_objects('C25', 'defaults', 'no function changes an object of a module'))
rule('C21', 'module-objects', 'objects shared by all runs are never changed')(shared_objects('C21', 'module-objects', 'no function changes an object of a module'))
