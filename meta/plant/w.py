import sys; sys.path[:0]=['/verif/sa','/verif/checks']
import facts
from vcommon import *
src,name=sys.argv[1:3]
tu=facts.load(src)
OP=tuple(sys.argv[3].split(",")) if len(sys.argv)>3 and sys.argv[3] else ()
seen=set()
class D(Decision):
    def on_write(self,ctx,st,l,r,op,node):
        s="W %s %s %s"%(short(l),op,short(r) if r else r)
        if s not in seen: seen.add(s); print(ctx.where(node),s[:300])
        return st
    def on_new(self,ctx,st,ct,a,node):
        s="N %s %s"%(ct,[short(x) for x in a])
        if s not in seen: seen.add(s); print(ctx.where(node),s[:300])
        return st
    def on_call(self,ctx,st,call):
        s="C %s obj=%s args=%s"%(call.nq,short(call.obj) if call.obj else None,[short(x) for x in call.args])
        if s not in seen: seen.add(s); print(ctx.where(call.node),s[:400])
        return super().on_call(ctx,st,call)
    def names(self,a):
        s="A "+short(a)
        if s not in seen: seen.add(s); print(s[:300])
        return ()
    def on_loop(self,ctx,st,rng,node):
        s="L "+short(rng)
        if s not in seen: seen.add(s); print(ctx.where(node),s[:300])
        return st
f=tu.one(name)
d=D(opaque=OP,value=True)
rows=d.run(tu,f)
for r in rows[:40]: print("ROW",str(r)[:300])
print(d.engine.steps)
