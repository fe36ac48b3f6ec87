"""debug: python3 dbg2.py fn-suffix [opaque-regex] : compact dump of returns/effects"""
import sys
from lib import *
c=Ctx("C01","quick")
f=sys.argv[1]
op=re.compile(sys.argv[2]) if len(sys.argv)>2 and sys.argv[2] else RPC_OPAQUE
W=int(sys.argv[3]) if len(sys.argv)>3 else 160
d=c.fn(f)
e=c.run(d,opaque_re=op)
print(d,"events",len(e.events),"rets",len(e.rets),"trunc",e.trunc,"steps",e.steps)
seen=set()
for ev in e.events:
    if ev.kind in("panic","enter"): continue
    l="%s %s %s(%s)"%(ev.span,ev.kind,short(ev.name),", ".join(show(a)[:W] for a in ev.args))
    if l in seen: continue
    seen.add(l); print(l)
if "-r" in sys.argv:
    for s,v in e.rets:
        print("RET",show(v)[:W*4])
        for k,x in s.mem.items():
            if k[0]=="T" and x is not k[1]: print("    MEM",show(k[1]),"=",show(x)[:W*3])
        for a,b in s.facts.items(): print("      ",show(a)[:W],"=",b)
