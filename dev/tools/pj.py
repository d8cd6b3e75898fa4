import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
exec(open('/tmp/dump.py').read().split("for o in common.OBS:")[0])
for o in common.OBS:
    if flt in o.prop+':'+o.id:
        r=side(P,o,None,{},None)
        for k,v in projections(o,r).items(): print(k,'=',show(v,D)[:1500])
