from sa.oblig import *
from sa.terms import *
from sa import terms as tm

OBS = []          # obligations compared with a reference
RULES = []        # (prop, id, title, function(program, tier) -> [Outcome])


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


def rule(prop, id, title=''):
    def deco(f):
        RULES.append((prop, id, title, f))
        return f
    return deco


def is_call(t, name):
    return t.op == 'call' and t.args[0] == name


def facts(*fs):
    """combine rewriting assumptions"""
    def f(t):
        for g in fs:
            v = g(t)
            if v is not None:
                return v
        return None
    return f


def is_array(*names):
    """results of the named interface calls are arrays"""
    def f(t):
        if t.op == 'isinst' and contains(t.args[0], lambda x: x.op == 'call' and x.args[0] in names):
            c = t.args[1]
            if 'ndarray' in show(c):
                return True
        return None
    return f


def under(t, *names):
    """t is an item (of an item ...) of one of the named interface calls"""
    while t.op in ('at',):
        t = t.args[0]
    return t.op == 'call' and t.args[0] in names


LEVELS = {}        # property -> evidence level (default "other")
ASSUMPTIONS = {'*': ['numpy, scipy, GPy and user functions behave as their documentation says (interface calls are uninterpreted)',
                     'attributes are not replaced from outside the library while a call is running']}
NOTES = {'*': 'Every listed obligation is decided from the parsed source for all inputs: the entry point and a reference definition are '
              'interpreted over the same symbolic inputs and their value-graph normal forms must coincide, or a structural rule must hold at '
              'every construct it applies to. Obligations outside the modelled language are reported as undecided in the evidence, never as '
              'violations. Trusted: the Python parser, the interpreter and its numpy/scipy model (sa/), the reference definitions (spec/); '
              'numpy, scipy, GPy and user functions are uninterpreted.'}
