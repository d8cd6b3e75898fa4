import sys; sys.path.insert(0,'/verif')
import os,time
os.environ['SA_DEBUG']='1'
from sa.program import Program
from props import common
import importlib
mods=sys.argv[1].split(','); flt=sys.argv[2] if len(sys.argv)>2 else ''
for m in mods: importlib.import_module('props.'+m)
P=Program()
for f in sorted(os.listdir('/verif/spec')):
    if f.endswith('.py'): P.add_module('spec.'+f[:-3],'/verif/spec/'+f)
for o in common.OBS:
    if flt in o.prop+':'+o.id:
        t=time.time(); r=common.decide(P,o); print('%-10s %s %.1f %s'%(r.status,r.ob,time.time()-t,r.msg[:1500]))
for pr,i,ti,f in common.RULES:
    if flt in pr+':'+i or (len(sys.argv)<=2):
        t=time.time()
        for r in f(P,'quick'): print('%-10s %s %s %s'%(r.status,r.ob,r.loc,r.msg[:1500]))
        print('rule',i,'%.1f'%(time.time()-t))
