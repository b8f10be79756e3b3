import sys; sys.path.insert(0,'/verif')
import importlib, z3
from pydv import smt
from pydv.engine import Engine
m=importlib.import_module(sys.argv[1]); e=Engine(m.C,theory=m.THEORY)
ax=e.axioms()
print(smt.consistent(ax,10))
# find minimal
if not smt.consistent(ax,10)[0]:
    cur=list(ax); i=0
    while i<len(cur):
        t=cur[:i]+cur[i+1:]
        if not smt.consistent(t,3)[0]: cur=t
        else: i+=1
    for a in cur: print(a)
