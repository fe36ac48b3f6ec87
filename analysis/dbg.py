import sys,time
sys.path.insert(0,'/verif/analysis')
import facts, engine
from engine import *
F,info=facts.facts()
P=Program(F)
def find(s): return [d for d in P.bodies if s in d]
def runit(d,asy=True,**kw):
    e=Engine(P,Config(**kw)); t=time.time()
    r=None
    try:
        r=(e.run_async if asy else e.run)(d)
    except Truncated as x: print("TRUNC",x)
    print(d,"rets",len(r or []),"events",len(e.events),"steps",e.steps,"%.1fs"%(time.time()-t))
    return e,r
def dump(e,kinds=None,facts=False):
    for x in e.events:
        if kinds and x.kind not in kinds: continue
        print(x.span,x.kind,short(x.name),"(",", ".join(show(a)[:300] for a in x.args),")", "@",[show(p)[:80] for p in x.places if p] )
        if facts:
            for a,b in x.facts.items(): print("        ",show(a)[:150],b)
        if x.alive: print("      alive:",[show(a)[:100] for a in x.alive])
if __name__=="__main__":
    ds=find(sys.argv[1])
    d=[x for x in ds if x.endswith(sys.argv[1])][0] if len(ds)>1 else ds[0]
    e,r=runit(d,P.bodies[d].get("asyncness") not in (None,False))
    dump(e,facts="-f" in sys.argv)
    for s,v in r or []: print("RET",show(v)[:400])
