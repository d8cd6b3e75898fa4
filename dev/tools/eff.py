import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev'); sys.setrecursionlimit(20000)
src=open('/verif/dev/trial.py').read(); i=src.index('def redefine'); j=src.index('def one'); exec(src[i:j])
import importlib.util
sp=importlib.util.spec_from_file_location('t',sys.argv[1]); TT=importlib.util.module_from_spec(sp); sp.loader.exec_module(TT)
t=[x for x in TT.TRIALS if x['id']==sys.argv[2]][0]
ov={}
for f,a,b in t['edits']:
    s=ov.get(f) or open('/repo/'+f).read()
    ov[f]=redefine(s,a[4:],b) if a.startswith('def:') else s.replace(a,b,1)
import mutate as M
p=M.program(ov)
from props import data
from sa import effects, flow
import inspect
fl=[getattr(data,n) for n in dir(data)]
F=flow.Flow(p).run()
E=effects.Effects(p,F).run()
import re
for q in E.fns:
    if re.search(sys.argv[3],q):
        S=E.sum[q]; print(q, 'ret',S.ret,'mut',S.mut)
