"""C27: benchmark functions."""
from .common import *

NAMES = ['forrester', 'rosenbrock', 'beale', 'dropwave', 'cosines', 'branin', 'goldstein', 'sixhumpcamel', 'mccormick', 'powers', 'eggholder',
         'alpine1', 'alpine2', 'gSobol', 'ackley']
FIXED = dict([('forrester', 1)] + [(n, 2) for n in NAMES[1:11]])


def inputs(k):
    """the number of inputs that the constructor sets (an obligation of its own)"""
    def f(t):
        if t.op == 'attr' and t.args[1] == 'input_dim' and t.args[0] is sym('self'):
            return num(k)
        return None
    return f if k else None


for _n in NAMES:
    ob('C27', _n + '.f', (_n, 'f'), 'ref_' + _n.lower(), strict=True, assume=inputs(FIXED.get(_n)), given=('given_table' if _n != 'forrester' else 'given_column',))
    ob('C27', _n + '.__init__', (_n, '__init__'), 'init_' + _n.lower(), what=('fields',))
ob('C27', 'reshape', ('fn', 'reshape', 'GPyOpt.util.general'), 'ref_reshape', given=('given_points',))
