import sys,os; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev'); sys.setrecursionlimit(20000)
import mutate as M
from props import common
import importlib
for f in sorted(os.listdir('/verif/props')):
    if f.endswith('.py') and f not in('__init__.py',): importlib.import_module('props.'+f[:-3])
p=M.program({})
from concurrent.futures import ProcessPoolExecutor
def one(i):
    o=common.OBS[i]
    r=common.decide(p,o,60)
    return [r.detail.get('entry')]+list(r.detail.get('functions',[]))
seen=set()
with ProcessPoolExecutor(7) as ex:
    for r in ex.map(one,range(len(common.OBS))): seen|=set(r)
def walk():
    for m in p.modules.values():
        if m.is_spec: continue
        import ast
        for n in ast.walk(m.tree):
            if isinstance(n,ast.ClassDef):
                for x in n.body:
                    if isinstance(x,ast.FunctionDef): yield m.name+'.'+n.name+'.'+x.name, x.end_lineno-x.lineno
        for x in m.tree.body:
            if isinstance(x,ast.FunctionDef): yield m.name+'.'+x.name, x.end_lineno-x.lineno
for q,n in walk():
    if q not in seen: print(n,q)
