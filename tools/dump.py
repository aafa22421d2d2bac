import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(50000)
from sa.model import *; from sa.flow import *
m=Model(); mod,q=sys.argv[1].split(':'); inl=sys.argv[2].split(',') if len(sys.argv)>2 else ()
f=m.func(mod,q)
ps=Flow(m,inline=inl).paths(f)
print(len(ps),'paths')
for p in ps[:int(sys.argv[3]) if len(sys.argv)>3 else 50]:
    print('---',p.out)
    for e in p.events: print('   ',e.line,e.kind,tuple(p.res(x) if isinstance(x,V) else x for x in e.a), [c[0]+str(c[1])[:20] for c in e.ctx])
