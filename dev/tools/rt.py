# rt.py trials.py id filter : run obligations on a trial's edits with refuter debug
import sys, os; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
os.environ['SA_DEBUG']='1'
sys.path.insert(0,'/verif/dev')
tf,tid,flt=sys.argv[1:4]
src=open('/verif/dev/trial.py').read()
i=src.index('def redefine'); j=src.index('def one')
exec(src[i:j])
import importlib.util
sp=importlib.util.spec_from_file_location('t',tf); TT=importlib.util.module_from_spec(sp); sp.loader.exec_module(TT)
t=[x for x in TT.TRIALS if x['id']==tid][0]
ov={}
for f,a,b in t['edits']:
    s=ov.get(f) or open('/repo/'+f).read()
    s=redefine(s,a[4:],b) if a.startswith('def:') else s.replace(a,b,1)
    ov[f]=s
rf=open('/tmp/rf.py').read().split('exec(open')[0]
if os.environ.get('RF'): exec(rf)
if os.environ.get('DBG'): exec(open('/tmp/dbg.py').read())
import mutate as M
from props import common
from sa.oblig import *
p=M.program(ov)
D=int(os.environ.get('D','6'))
for o in common.OBS:
    if flt in o.prop+':'+o.id:
        r=common.decide(p,o,60)
        print(r.status,r.ob,r.msg[:int(os.environ.get('W','600'))])
        if os.environ.get('PJ') and r.status not in('held','shape'):
            sp_=o.spec if isinstance(o.spec,str) else o.spec[0] if o.spec else None
            ri=side(p,o,None,{},sp_); rs=side(p,o,sp_,{})
            a,b=projections(o,ri),projections(o,rs)
            for k in sorted(set(a)|set(b)):
                if a.get(k) is b.get(k): continue
                print('##',k); print('  I',show(a[k],D)[:3000] if k in a else None); print('  S',show(b[k],D)[:3000] if k in b else None)
            print('notes',ri.I.notes)
