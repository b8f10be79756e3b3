import sys; sys.path[:0]=['/repo','/verif']
import random,signal,traceback,time,importlib
M,lim,N=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
mod=importlib.import_module('bounded.'+M)
from bounded import plib as P
import multiprocessing as mp
def h(*a): raise TimeoutError
cs=[]
for i,c in enumerate(mod.cases(random.Random('1-bounded.'+M),'quick')):
    if i>=N: break
    cs.append(c)
def f(c):
    signal.signal(signal.SIGALRM,h); signal.alarm(lim)
    try: mod.check(c); return None
    except TimeoutError:
        tb=traceback.format_exc()
        return (c, [l.strip() for l in tb.splitlines() if 'File' in l][-14:])
    finally: signal.alarm(0)
with mp.Pool(8) as pool:
    for r in pool.imap_unordered(f,cs,chunksize=4):
        if r:
            c,tb=r; print('=====',c[0]); print(P.text(c[1])); print(repr(c)[:3000]); print('\n'.join(x[:110] for x in tb if '/repo' in x or 'verif' in x))
