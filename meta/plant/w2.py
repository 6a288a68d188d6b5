"""w2.py SRC FUNCTION-NAME [nparams]: dumps every call/write/new with its terms for a function"""
import sys; sys.path[:0]=['/verif/sa','/verif/checks']
import facts
from engine import *
from decide import *
src,q=sys.argv[1:3]
opq=tuple(sys.argv[4].split(",")) if len(sys.argv)>4 else ()
n=int(sys.argv[3]) if len(sys.argv)>3 else None
tu=facts.load(src)
tu=tu[0] if isinstance(tu,list) else tu
class W(Decision):
    def on_call(self,ctx,st,c):
        k=("C",ctx.where(c.node),c.nq,str(short(c.obj)) if c.obj is not None else None,tuple(str(short(a)) for a in c.args))
        if k not in seen: seen.append(k)
        return super().on_call(ctx,st,c)
    def on_write(self,ctx,st,l,r,op,node):
        k=("W",ctx.where(node),op,str(short(l)),str(short(r)) if r is not None else None)
        if k not in seen: seen.append(k)
        return super().on_write(ctx,st,l,r,op,node)
    def on_branch(self,ctx,st,atom,val):
        k=("B",ctx.where(),str(short(atom)))
        if k not in seen: seen.append(k)
        return super().on_branch(ctx,st,atom,val)
seen=[]
for f in tu.find(q):
    if n is not None and len(f["p"])!=n: continue
    print("==",f["q"],[p["t"] for p in f["p"]])
    seen.clear()
    d=W({},{},opaque=opq); d.run(tu,f)
    for k in seen: print(str(k)[:260])
