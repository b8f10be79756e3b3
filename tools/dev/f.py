# show the first failing cases: MOD N
import sys; sys.path[:0]=['/repo','/verif']
import random,importlib,traceback,os
M,N,show=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
seed=os.environ.get('SEED','1')
mod=importlib.import_module('bounded.'+M)
from bounded import plib as P
import multiprocessing as mp
cs=[]
for i,c in enumerate(mod.cases(random.Random(f'{seed}-bounded.'+M),'quick')):
    if i>=N: break
    cs.append(c)
def f(i):
    c=cs[i]
    import signal
    def h(*a): raise TimeoutError('limit')
    signal.signal(signal.SIGALRM,h); signal.alarm(int(os.environ.get('LIM','30')))
    try: r=mod.check(c)
    except Exception: r='\n'.join(traceback.format_exc().splitlines()[-9:])
    finally: signal.alarm(0)
    return i,r
from collections import Counter
n=0; K=Counter()
with mp.Pool(8) as pool:
    for i,r in pool.imap(f,range(len(cs)),chunksize=4):
        if r=='skip': K['skip']+=1
        elif r:
            K['fail']+=1
            n+=1
            if n<=show: print('=====',i,repr(cs[i])[:600] if '-v' in sys.argv else ''); print(P.text(cs[i][1]) if isinstance(cs[i][1],list) and isinstance(cs[i][1][0],tuple) and len(cs[i][1][0])==2 else ''); print(r[:2500])
        else: K['ok']+=1
print(K)
