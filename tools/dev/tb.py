import sys, importlib, time, os
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
sys.setrecursionlimit(10000)
from pydv.engine import Engine, Obligation
from pydv import smt
m=importlib.import_module(sys.argv[1]); q=sys.argv[2] if len(sys.argv)>2 else ''; tmo=int(sys.argv[3]) if len(sys.argv)>3 else 10
e=Engine(m.C, theory=getattr(m,'THEORY',None)); t=time.time()
if q in ('','lemmas'):
    L=getattr(m,'LEMMAS',[]); L=L() if callable(L) else L
    obs=[]
    for n,h,g,ax in L:
        o=Obligation('lemma',n,h,g,None,axioms=ax); obs.append(o)
    smt.discharge(obs,[],timeout=tmo)
    print('lemmas',len(obs),[ (o.name,o.status) for o in obs if o.status!='discharged'])
if q!='lemmas':
  for c in m.C.values():
    if c.trusted or (q and q!=c.qual): continue
    n0=len(e.obls); 
    try: e.verify(c)
    except Exception as ex:
        print('UNSUPPORTED',c.qual,type(ex).__name__,ex); 
        if os.environ.get('TB'): raise
        continue
    new=e.obls[n0:]; t1=time.time(); smt.discharge(new,e.axioms(),timeout=tmo)
    if os.environ.get('SLOW'): [print('   slow',round(o.time,1),o.key,o.backend) for o in new if o.time>float(os.environ['SLOW'])]
    bad=[o for o in new if o.status!='discharged']
    print(c.qual,len(new),'bad',len(bad),'gen',round(t1-t,1),'solve',round(time.time()-t1,1), 'max', max([o.time for o in new] or [0])); t=time.time()
    seen=set()
    for o in bad:
        if o.key in seen: continue
        seen.add(o.key); print('   ',o.key,o.line,o.status)
        if os.environ.get('DUMP'): print('\n'.join('      pc '+str(p)[:300] for p in o.pc)); print('      goal',str(o.goal)[:600])
