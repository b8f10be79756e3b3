"which hypothesis makes the solver slow: drop each one and time"
import sys, z3, subprocess, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif')
from pydv import smt
s=z3.Solver(); s.from_file(sys.argv[1]); A=list(s.assertions())
opts=sys.argv[2:] or ['smt.mbqi=false','smt.random_seed=1']
def t(txt):
    t0=time.time(); r=subprocess.run(['z3-new','-smt2','-in','-T:8']+opts,input=txt,capture_output=True,text=True).stdout.split('\n')[0]; return r, round(time.time()-t0,2)
txts=[('all',smt.to_smt2(A))]+[(str(A[i])[:150].replace('\n',' '),smt.to_smt2(A[:i]+A[i+1:])) for i in range(len(A))]
with ThreadPoolExecutor(6) as ex:
    for (n,_),r in zip(txts,ex.map(lambda x:t(x[1]),txts)): print(r,n)
