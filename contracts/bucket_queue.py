"""Contracts for dyna/util/bucket_queue.py (property C10).

View: the queue IS the finite map D : Item -> Int (items -> latest priority).
Representation invariant wf(D, Q, N):
   Q's keys are exactly the priorities in use, each bucket is exactly the set
   of items with that priority (hence never empty), and N bounds every key.
"""
import z3
from pydv.engine import Contract, LoopSpec, Ctx
from pydv.values import *

F = 'dyna/util/bucket_queue.py'
ITEM = OBJ('Item')
BUCKET = SetT(ITEM)
S = z3.Select


def make_self(empty):
    def mk(eng, st, name):
        D = MapO(ITEM, INT, z3.Const('D_dom', z3.ArraySort(ITEM.sort, z3.BoolSort())), z3.Const('D_val', z3.ArraySort(ITEM.sort, z3.IntSort())))
        Q = MapO(INT, BUCKET, z3.Const('Q_dom', z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const('Q_val', z3.ArraySort(z3.IntSort(), BUCKET.sort)))
        return st.alloc(Rec((F, 'BucketQueue'), {'_D': st.alloc(D), '_Q': st.alloc(Q),
                                                 '_N': NONE if empty else Z(z3.Int('N'), INT)}))
    return mk


def rep(c, old=False):
    st = c.st0 if old else c.st
    r = st.store[c['self'].loc].fields
    return st.store[r['_D'].loc], st.store[r['_Q'].loc], r['_N']


def wf(D, Q, N):
    x, p = z3.Const('x', ITEM.sort), z3.Int('p')
    cs = [('buckets hold exactly the items of their priority',
           z3.ForAll([x, p], (z3.And(S(Q.dom, p), S(S(Q.val, p), x))) == z3.And(S(D.dom, x), S(D.val, x) == p),
                     patterns=[S(S(Q.val, p), x)])),
          ('every live item is in a bucket',
           z3.ForAll([x], z3.Implies(S(D.dom, x), z3.And(S(Q.dom, S(D.val, x)), S(S(Q.val, S(D.val, x)), x))), patterns=[S(D.dom, x)])),
          ('no empty bucket', z3.ForAll([p], z3.Implies(S(Q.dom, p), S(Q.val, p) != z3.EmptySet(ITEM.sort)), patterns=[S(Q.dom, p)]))]
    if isinstance(N, Py):
        cs.append(('bound undefined only when empty', Q.dom == z3.EmptySet(z3.IntSort())))
    else:
        cs.append(('N bounds every priority', z3.ForAll([p], z3.Implies(S(Q.dom, p), N.e <= p), patterns=[S(Q.dom, p)])))
    return cs


def inv(c): return wf(*rep(c))

def set_empty(eng, st, args):
    st.store[args['self'].loc].fields['_N'] = NONE

CASES = [('N=None', set_empty), ('N:int', None)]

def view_is(c, f_dom, f_val):
    "the view after the call, over ALL items"
    D0, _, _ = rep(c, old=True)
    D, _, _ = rep(c)
    y = z3.Const('y', ITEM.sort)
    return z3.ForAll([y], z3.And(S(D.dom, y) == f_dom(D0, y), z3.Implies(S(D.dom, y), S(D.val, y) == f_val(D0, y))))

def unchanged(c): return view_is(c, lambda D, y: S(D.dom, y), lambda D, y: S(D.val, y))

def mods(c):
    r = c.st.store[c['self'].loc].fields
    return [r['_D'], r['_Q']]

def mods_n(c): return mods(c) + ([(c['self'], '_N')] if True else [])

def removed(c, x):
    return view_is(c, lambda D, y: z3.And(S(D.dom, y), y != x), lambda D, y: S(D.val, y))

C = {}
def add(qual, **kw):
    kw.setdefault('params', [])
    kw['params'] = [('self', make_self(False))] + kw['params']
    kw.setdefault('pre', inv)
    c = Contract(F, f'BucketQueue.{qual}', **kw)
    c.set_elem = ITEM
    C[(F, c.qual)] = c
    return c

# constructor: the empty map
c0 = Contract(F, 'BucketQueue.__init__', params=[('self', lambda e, st, n: st.alloc(Rec((F, 'BucketQueue'), {})))],
              post=lambda c: wf_init(c))
def wf_init(c):
    r = c.st.store[c['self'].loc].fields
    D, Q, N = c.st.store[r['_D'].loc], c.st.store[r['_Q'].loc], r['_N']
    if not isinstance(D, MapO): raise Unsupported('_D is not a dict')
    return [('empty view', D.dom == z3.EmptySet(ITEM.sort)), *wf(D, Q, N)]
def empty_map(k, v): return lambda: MapO(k, v, z3.EmptySet(k.sort), z3.Const(fresh_name('val'), z3.ArraySort(k.sort, v.sort)))
c0.field_types = {'_D': empty_map(ITEM, INT), '_Q': empty_map(INT, BUCKET)}
C[(F, c0.qual)] = c0

c = add('__getitem__', params=[('item', ITEM)], cases=CASES,
        post=lambda c: [('latest priority', z3.And(S(rep(c, True)[0].dom, c.e('item')), c.result.e == S(rep(c, True)[0].val, c.e('item'))))],
        results=lambda c: [INT],
        exc={'KeyError': lambda c: [('only when absent', z3.Not(S(rep(c, True)[0].dom, c.e('item'))))]})

add('__contains__', params=[('item', ITEM)], cases=CASES, results=lambda c: [BOOL],
    post=lambda c: [('membership', c.result.e == S(rep(c, True)[0].dom, c.e('item')))])

add('__len__', cases=CASES, results=lambda c: [INT],
    post=lambda c: [('cardinality of the view', c.result.e == c.eng.card(rep(c, True)[0].dom))])

add('__delitem__', params=[('item', ITEM)], cases=CASES, modifies=mods,
    post=lambda c: [('was present', S(rep(c, True)[0].dom, c.e('item'))), ('view minus item', removed(c, c.e('item'))), *inv(c)],
    exc={'KeyError': lambda c: [('only when absent', z3.Not(S(rep(c, True)[0].dom, c.e('item')))), ('view unchanged', unchanged(c)), *inv(c)]})


def set_post(c):
    x, p = c.e('item'), c.e('priority')
    return [('view updated at item only', view_is(c, lambda D, y: z3.Or(S(D.dom, y), y == x), lambda D, y: z3.If(y == x, p, S(D.val, y)))), *inv(c)]

add('__setitem__', params=[('item', ITEM), ('priority', INT)], cases=CASES, modifies=mods_n, post=set_post)


def min_removed(c, x, p):
    D0 = rep(c, True)[0]
    y = z3.Const('y', ITEM.sort)
    return [('item was live with that priority', z3.And(S(D0.dom, x), S(D0.val, x) == p)),
            ('priority is minimal', z3.ForAll([y], z3.Implies(S(D0.dom, y), p <= S(D0.val, y)), patterns=[S(D0.dom, y)])),
            ('item removed, rest untouched', removed(c, x)), *inv(c)]

def Nval(c):
    n = rep(c)[2]
    return n.e if isinstance(n, Z) else z3.IntVal(0)

OUTER = LoopSpec(lambda L: [('view untouched before an extraction', unchanged(L))] + inv(L))
def inner_inv(L):
    return [('view untouched while scanning', unchanged(L))] + inv(L) + [('queue non-empty', rep(L)[1].dom != z3.EmptySet(z3.IntSort()))]
# ghost: some priority in use when the scan starts (exists: the queue is not empty); the scan reaches it
some_priority = (INT, lambda L, w: S(rep(L)[1].dom, w))
def distance(L): return L.w - rep(L)[2].e
INNER = LoopSpec(inner_inv, choose=some_priority, decreases=distance)

def pop_post(c):
    r = c.result
    if isinstance(r, Py) and r.v is None:
        D0 = rep(c, True)[0]
        return [('None only when empty', D0.dom == z3.EmptySet(ITEM.sort)), *inv(c)]
    if not isinstance(r, Tup): raise Unsupported('popitem result')
    x, p = c.eng.lift(r.items[0], ITEM).e, c.eng.lift(r.items[1], INT).e
    return min_removed(c, x, p)

add('popitem', cases=CASES, modifies=mods_n, post=pop_post, loops=[OUTER, INNER])


# ---- iteration: "It is ok for the queue to be modified between iterations."
# A ghost snapshot records the view at the last point where the generator
# (re)gained control; between two of those points the consumer may do anything
# that keeps the representation invariant.
def setup_snap(empty):
    def f(eng, st, args):
        if empty: st.store[args['self'].loc].fields['_N'] = NONE
        r = st.store[args['self'].loc].fields
        args['$snap'] = st.alloc(st.store[r['_D'].loc].copy())
    return f
ICASES = [('N=None', setup_snap(True)), ('N:int', setup_snap(False))]

def snap_view(c):
    D, (s) = rep(c)[0], c.st.store[c['$snap'].loc]
    y = z3.Const('y', ITEM.sort)
    return z3.ForAll([y], z3.And(S(D.dom, y) == S(s.dom, y), z3.Implies(S(D.dom, y), S(D.val, y) == S(s.val, y))))

def resume(eng, st, args):
    r = st.store[args['self'].loc].fields
    for l in (r['_D'], r['_Q']): eng.write(st, l, eng.fresh_like(st.store[l.loc]))
    N = r['_N']
    # after a yield the bound is an integer (set by the first insertion and never unset)
    eng.setfield(st, args['self'], '_N', Z(fresh(INT, 'N'), INT))
    c = Ctx(eng, args, st, st)
    st.assume(*[g for _, g in inv(c)])
    eng.write(st, args['$snap'], st.store[r['_D'].loc].copy())

def yield_min(c, x, p):
    D0, (D, Q, N) = c.st.store[c['$snap'].loc], rep(c)
    y = z3.Const('y', ITEM.sort)
    return [('item was live with that priority', z3.And(S(D0.dom, x), S(D0.val, x) == p)),
            ('priority is minimal', z3.ForAll([y], z3.Implies(S(D0.dom, y), p <= S(D0.val, y)), patterns=[S(D0.dom, y)])),
            ('item removed, rest untouched', z3.ForAll([y], z3.And(S(D.dom, y) == z3.And(S(D0.dom, y), y != x), z3.Implies(S(D.dom, y), S(D.val, y) == S(D0.val, y))))),
            *inv(c)]

def iter_y(c):
    x = c.eng.lift(c.result, ITEM).e
    return yield_min(c, x, S(c.st.store[c['$snap'].loc].val, x))
def items_y(c):
    if not isinstance(c.result, Tup): raise Unsupported('items() yield')
    return yield_min(c, c.eng.lift(c.result.items[0], ITEM).e, c.eng.lift(c.result.items[1], INT).e)

def imods(c): return mods_n(c) + [c['$snap']]
def iter_exit(c): return [('stops only when empty', rep(c)[0].dom == z3.EmptySet(ITEM.sort)), *inv(c)]

IOUTER = LoopSpec(lambda L: [('view is the one at the last resume', snap_view(L))] + inv(L))
IINNER = LoopSpec(lambda L: [('view is the one at the last resume', snap_view(L))] + inv(L) + [('queue non-empty', rep(L)[1].dom != z3.EmptySet(z3.IntSort()))],
                  choose=some_priority, decreases=distance)
add('__iter__', cases=ICASES, modifies=imods, gen='stateful', ypost=iter_y, post=iter_exit, on_resume=resume, loops=[IOUTER, IINNER])
add('items', cases=ICASES, modifies=imods, gen='stateful', ypost=items_y, post=iter_exit, on_resume=resume, loops=[IOUTER, IINNER])
