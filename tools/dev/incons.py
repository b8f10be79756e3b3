"incons.py MODULE QUAL: which obligations have a contradictory path condition (first hypothesis prefix that is inconsistent)"
import sys, importlib
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from pydv.engine import Engine
from pydv import smt
import z3
m=importlib.import_module(sys.argv[1]); e=Engine(m.C, theory=getattr(m,'THEORY',None))
for c in m.C.values():
    if c.qual==sys.argv[2]: e.verify(c)
seen=set()
def bad(pc): return smt.run(['z3-new','-smt2','-in','smt.mbqi=false'], smt.to_smt2(list(e.axioms())+pc), 3)[0]=='unsat'
done=set()
for o in e.obls:
    k=tuple(str(c.get_id()) for c in o.pc)
    if k in done: continue
    done.add(k)
    if bad(o.pc):
        lo,hi=0,len(o.pc)
        while lo<hi:
            mid=(lo+hi)//2
            if bad(o.pc[:mid]): hi=mid
            else: lo=mid+1
        print('INCONSISTENT at', o.key, o.line, 'after hypothesis', lo-1, str(o.pc[lo-1])[:400] if lo else 'axioms')
