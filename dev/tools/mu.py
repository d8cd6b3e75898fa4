import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import os
os.environ['SA_DEBUG']='1'
import importlib
sys.path.insert(0,'/verif/dev'); sys.argv_=sys.argv
f,old,new,flt=sys.argv[1:5]
import mutate as M
from props import common
path='/repo/'+f
s=open(path).read()
assert s.count(old)>=1,s.count(old)
k=int(sys.argv[5]) if len(sys.argv)>5 else 0
parts=s.split(old); s=old.join(parts[:k+1])+new+old.join(parts[k+1:])
p=M.program({f:s})
for o in common.OBS:
    if flt in o.prop+':'+o.id:
        r=common.decide(p,o,60)
        print(r.status,r.ob,r.msg[:1500])
