"""C07 C08 C09 C10: acquisitions."""
from .common import *
from sa.refute import refute
from sa import deriv
from sa.interp import Interp
from sa.run import analyse

MODEL = ('.predict', '.predict_withGradients', '.get_fmin')
NS = sym('number_of_samples')


def same_length(t):
    """the lists returned by a sampling model have one entry per retained sample, at least one"""
    if t.op == 'len' and under(t.args[0], *MODEL):
        return NS
    if t.op == 'lt0' and t.args[0] is sub(NS, ONE):
        return False
    if t.op == 'eq0' and t.args[0] is NS:
        return False
    if t.op == 'min' and all(x is NS for x in t.args):
        return NS
    return None


def positive_s(t):
    """models report standard deviations of at least 1e-10 (C15)"""
    if t.op == 'max' and len(t.args) == 2:
        for a, b in (t.args, t.args[::-1]):
            if a.op == 'num' and a.args[0] <= Fraction(1, 10 ** 10) and under(b, *MODEL):
                return b
    return None


MF = facts(is_array(*MODEL), same_length, positive_s)

for prop, what in (('C08', 'value'),):
    for c in ('EI', 'MPI', 'LCB', 'EI_mcmc', 'MPI_mcmc', 'LCB_mcmc'):
        cls = 'Acquisition' + c.replace('mcmc', 'MCMC')
        ob(prop, cls + '.value', (cls, 'acquisition_function'), 'ref_' + c, assume=MF,
           known=[('C08:EI_MCMC-jitter-sign', 'asis_EI_mcmc')] if c == 'EI_mcmc' else (),
           about='negated %s, per unit of cost and zero where infeasible' % c)


def unify(t):
    """predict and predict_withGradients report the same mean and deviation (C15)"""
    if t.op == 'at' and is_call(t.args[0], '.predict_withGradients') and t.args[1][:1] in ((ZERO,), (ONE,)):
        c = t.args[0]
        return raw('at', raw('call', '.predict', *c.args[1:]), t.args[1])
    return None


def leaf(t):
    if t.op == 'at':
        base, idx = t.args[0], t.args[1]
        # per-sample or single prediction: [component] or [component][sample]
        b, path = t, []
        while b.op == 'at':
            path[:0] = [(x,) for x in b.args[1]]
            b = b.args[0]
        if b.op == 'call' and b.args[0] in ('.predict', '.predict_withGradients'):
            c = path[0]
            if c == (ZERO,):
                j = 2
            elif c == (ONE,):
                j = 3
            else:
                return None
            return raw('at', raw('call', '.predict_withGradients', *b.args[1:]), (num(j),) + tuple(q[0] for q in path[1:]))
        if b.op == 'call' and b.args[0] == '.cost_withGradients':
            return raw('at', b, (ONE,)) if path[0] == (ZERO,) else None
    if t.op == 'call' and t.args[0] in ('.indicator_constraints', '.get_fmin'):
        return ZERO
    if t.op == 'sum' and False:
        return None
    return None


GF = facts(is_array(*MODEL), same_length, positive_s)


@rule('C07', 'gradients', 'gradient returned = symbolic derivative of the value returned')
def gradients(p, tier):
    out = []
    for c in ('EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC'):
        cls = 'Acquisition' + c
        out.append(grad_check(p, cls, ('C07:EI_MCMC-jitter-sign', 'asis_EI_mcmc_grad') if c == 'EI_MCMC' else None))
    return out


def grad_check(p, cls, known=None):
    name = 'C07:%s.gradient' % cls
    k = p.cls(cls)
    f = p.find_method(k, 'acquisition_function_withGradients') if k else None
    g = p.find_method(k, 'acquisition_function') if k else None
    if f is None or g is None:
        return Outcome(name, 'undecided', '', 'entry point not found', name)
    try:
        I1 = Interp(p)
        rv = analyse(I1, cls=cls, method='acquisition_function')
        I2 = Interp(p)
        rg = analyse(I2, cls=cls, method='acquisition_function_withGradients')
    except Exception as e:
        return Outcome(name, 'undecided', f.loc, 'not analysed: %s' % e, name)
    detail = dict(entry=f.qual, functions=sorted(I1.fns_run | I2.fns_run), file=f.loc)
    v = apply_facts(rv.value, GF)
    pair = apply_facts(rg.value, GF)
    own = [q for q in (p.find_method(k, '_compute_acq_withGradients'),) if q]
    where = own[0].loc if own else f.loc
    # distribute a decision over the pair
    val, gr = component(pair, 0), component(pair, 1)
    if val is None:
        return Outcome(name, 'undecided', where, 'result is not a pair: %s' % show(pair, 4), name, detail)
    h = hard(pair) or hard(v)
    if h:
        return Outcome(name, 'undecided', where, 'not modelled: ' + h, name, detail)
    v1 = apply_facts(val, unify)
    gr1 = gr
    out = []
    st, m = told_apart(v1, v)
    if st not in ('held', 'shape'):
        return Outcome(name, st, where, 'value with gradient differs from the value alone: ' + m, name + '.value', detail)
    try:
        d = deriv.D(v, leaf)
    except deriv.NoDerivative as e:
        return Outcome(name, 'undecided', where, 'derivative through %s' % e, name, detail)
    gr2 = apply_facts(gr1, unify)
    d = apply_facts(d, unify)
    st, m = told_apart(gr2, d)
    if st == 'violated' and known:
        # the deviation is exactly the recorded one
        I3 = Interp(p)
        rk = analyse(I3, fn=p.fn(known[1]), args={'self': I3.sym_obj(cls, sym('self'))})
        kv = apply_facts(apply_facts(rk.value, GF), unify)
        if compare(v1, component(kv, 0))[0] in ('held', 'shape') and compare(gr2, component(kv, 1))[0] in ('held', 'shape'):
            return Outcome(name, 'known', where, m, known[0], detail)
    if st not in ('held', 'shape'):
        return Outcome(name, st, where, 'returned gradient is not the derivative of the value: ' + m, name, detail)
    return Outcome(name, st, where, '', name, detail)


def told_apart(a, b):
    st, m = compare(a, b)
    if st != 'violated':
        return st, m
    r, n, why = refute(a, b)
    if r == 'differs':
        return st, m
    return 'undecided', 'forms differ but %d interpretations %s [%s]' % (n, 'agree' if r == 'agrees' else 'are defined', m[:200])


def component(t, j):
    if t.op == 'tuple':
        return t.args[j] if len(t.args) == 2 else None
    if t.op == 'ite':
        a, b = component(t.args[1], j), component(t.args[2], j)
        return None if a is None or b is None else ite(t.args[0], a, b)
    return None


def matrix_in(*names):
    """the named argument is a two-dimensional array"""
    S = [sym(n) for n in names]

    def f(t):
        if t.op == 'as2d' and t.args[0] in S:
            return t.args[0]
        if t.op == 'eq0' and contains(t, lambda x: x.op in ('shape', 'ndim') and x.args[0] in S):
            return False
        return None
    return f


ob('C07', 'AcquisitionLP.gradient', ('AcquisitionLP', 'acquisition_function_withGradients'), 'ref_LP_grad',
   assume=matrix_in('x'), about='penalised value and its derivative, pulling away from every batch member')
ob('C08', 'AcquisitionLP.value', ('AcquisitionLP', 'acquisition_function'), 'ref_LP_value', assume=matrix_in('x'),
   about='log acquisition plus log penalisers')
ob('C14', 'AcquisitionLP.update_batches', ('AcquisitionLP', 'update_batches'), 'ref_LP_update', what=('value', 'raises', 'fields'),
   assume=matrix_in('X_batch'), about='penalisers centred at every batch member; None removes the penalisation')
