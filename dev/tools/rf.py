# usage: like mu.py, but dumps both refuter sides values
import sys; sys.path.insert(0,'/verif')
import sa.refute as R
orig=R.refute
_ev=R.Interp.ev
def ev(self,t,env):
    try: return _ev(self,t,env)
    except R.Fail as e:
        if not hasattr(e,'where'): e.where=t
        raise

def refute(a,b,loose=True,given=(),**k):
    r=orig(a,b,loose,given,**k)
    print('REFUTE',r[0],r[1],str(r[2])[:300])
    if r[0]!='differs' or __import__('os').environ.get('DD'):
        print(' A',str(a)[:3000]); print(' B',str(b)[:3000])
        pool=[]
        sorts={}
        for seed in range(int(__import__('os').environ.get('N','6'))):
            nones=set()
            for _ in range(100):
                R.Interp.ev=ev; I=R.Interp(seed,sorts,pool,seed%5); I.nones=nones
                try:
                    x=I.ev(a,{}); y=I.ev(b,{})
                    def sh(v):
                        if isinstance(v,R.Obj): return 'Obj(%s,%s)'%(sh(v.base),{k:sh(x) for k,x in v.fields.items()})
                        if isinstance(v,list): return '['+', '.join(sh(x) for x in v)+']'
                        if isinstance(v,R.Events): return 'Ev'+sh(v.l)
                        if isinstance(v,R.U): return 'U%x:%s'%(v.path%65536,I.sort(v))
                        if isinstance(v,R.Fraction): return '%.4g'%float(v)
                        return repr(v)
                    print('  seed',seed,sh(x)[:600],'\n      |',sh(y)[:600]); break
                except R.Again: continue
                except R.Fail as e: R.Interp.ev=_ev; print('  seed',seed,'FAIL',e, str(getattr(e,'where',''))[:300]); break
                except Exception as e:
                    import traceback; traceback.print_exc(limit=-2); break
    return r
R.refute=refute
exec(open('/tmp/mu.py').read())
