import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import os, importlib, collections
from sa.run import *
from props import common
from sa.oblig import *
from sa import oblig
import sa.refute as R
P=Program()
for f in sorted(os.listdir('/verif/spec')):
    if f.endswith('.py'): P.add_module('spec.'+f[:-3],'/verif/spec/'+f)
for f in sorted(os.listdir('/verif/props')):
    if f.endswith('.py') and f!='__init__.py': importlib.import_module('props.'+f[:-3])
learn(P)
_ev=R.Interp.ev
def ev(self,t,env):
    try: return _ev(self,t,env)
    except R.Fail as e:
        if not hasattr(e,'where'): e.where=t
        raise
R.Interp.ev=ev
from multiprocessing import Pool
import faulthandler
def job(j):
    faulthandler.dump_traceback_later(60,exit=True)
    o=obs[j]
    out=[]
    flt=sys.argv[1] if len(sys.argv)>1 else ''
    if flt not in o.prop+':'+o.id: return out
    try:
        ri=side(P,o,None,{},None)
        pr=projections(o,ri)
    except Exception as e: return [('ERR',o.prop+':'+o.id,str(e)[:100],'',set())]
    for k,v in pr.items():
        if not isinstance(v,T): continue
        pool=[]; sorts={}; good=0; why=collections.Counter(); un=set(); vals=set()
        pool=sorted({x.args[0] for x in tm.walk(v) if x.op == 'str' and len(x.args[0]) < 40})[:40]
        for seed in range(30):
            nones=set()
            for _ in range(100):
                I=R.Interp(seed,sorts,pool,seed%5); I.nones=nones
                try: 
                    x=I.ev(v,{}); good+=1; un|=I.unint; vals.add(I.canon(x)); break
                except R.Again: continue
                except R.Fail as e: why[(str(e),show(getattr(e,'where',TRUE),int(os.environ.get('DEP','2')))[:int(os.environ.get('WID','150'))])]+=1; break
                except Exception as e: why[(repr(e),'')]+=1; break
        out.append((good,len(vals),o.prop+':'+o.id+' '+k,why.most_common(2),un))
    return out
if __name__=='__main__':
    seen=set(); obs=[]
    for o in common.OBS:
        if (o.id,str(o.target)) in seen: continue
        seen.add((o.id,str(o.target))); obs.append(o)
    A=collections.Counter()
    with Pool(8) as p:
        rows=[r for l in p.imap(job,range(len(obs))) for r in l]
    for r in rows:
        if r[0]=='ERR': print(r); continue
        for u in r[4]: A[u]+=1
        if r[0]<15: print(r[0],r[1],r[2],str(r[3])[:330])
    print(sum(1 for r in rows if r[0]!='ERR' and r[0]==0),'never defined of',len(rows))
    print(A.most_common())
