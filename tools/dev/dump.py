"dump.py MODULE QUAL SUBSTR -> writes /tmp/ob_N.smt2 for matching obligations"
import sys, importlib
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from pydv.engine import Engine
from pydv import smt
import z3
m=importlib.import_module(sys.argv[1]); e=Engine(m.C, theory=getattr(m,'THEORY',None))
for c in m.C.values():
    if c.qual==sys.argv[2]: e.verify(c)
n=0
for o in e.obls:
    if sys.argv[3] in o.key:
        open(f'/tmp/ob_{n}.smt2','w').write(smt.to_smt2(list(e.axioms())+list(o.axioms)+o.pc+[z3.Not(o.goal)])+'\n'); print(n,o.key,o.line, len(o.pc)); n+=1
