import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev'); sys.setrecursionlimit(20000)
import mutate as M, sa.refute as R
from props import common, benchmarks
from sa.oblig import *
p=M.program({})
for o in common.OBS:
    if o.id==(sys.argv[1] if len(sys.argv)>1 else 'sixhumpcamel.f'):
        g=assumed(o, side(p,o,o.given[0],{}).value); print(str(g)[:200])
        b=assumed(o, side(p,o,o.spec,{}).value)
        for s in range(20):
            sorts={}; nones=set()
            for _ in range(30):
                I=R.Interp(s,sorts,[],s%5); I.nones=nones
                try: 
                    I.assume(g)
                    print(s,I.ev(g,{}),sorts,I.given)
                    print(str(I.ev(b,{}))[:100])
                    break
                except R.Again: continue
                except Exception as e:
                    if isinstance(e,R.Again): continue
                    import traceback; print(s,'fail',repr(e),sorts,I.fixed); traceback.print_exc(); sys.exit()
