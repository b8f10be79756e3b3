"""Contracts for the indexed chart of dyna/execute/solver.py (properties C20, C18): every index agrees with the chart at all times,
so a query reaches exactly the matching items.  Terms are abstract: fn, arity, args; match(x, q) = the ground item x unifies with q.
Assumed of terms: a matching item has the query's functor, arity and ground arguments; after unify(x, q) the key q IS x.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/execute/solver.py'
IT, FN, VAL, ARGS, MODE, KEY, W = (OBJ(x) for x in ('Item', 'FnName', 'ArgVal', 'ArgTuple', 'Mode', 'ArgKey', 'Weight'))
I, B = z3.IntSort(), z3.BoolSort()
FAs = z3.Datatype('FunctorArity'); FAs.declare('mkFA', ('fa_fn', FN.sort), ('fa_ar', I)); FAs = FAs.create()
FAT = Ty('FA', FAs)
mkfa, fa_fn, fa_ar = FAs.constructor(0), FAs.accessor(0, 0), FAs.accessor(0, 1)
fn = z3.Function('fn_of', IT.sort, FN.sort)
ar = z3.Function('arity_of', IT.sort, I)
args = z3.Function('args_of', IT.sort, ARGS.sort)
arg = z3.Function('arg', ARGS.sort, I, VAL.sort)
inm = z3.Function('in_mode', MODE.sort, I, B)
proj = z3.Function('proj', ARGS.sort, MODE.sort, KEY.sort)      # the tuple (args[i] for i in m)
match = z3.Function('matches_query', IT.sort, IT.sort, B)
SETI = SetT(IT)
BYKEY = MapT(KEY, SETI)
BYMODE = MapT(MODE, BYKEY)
S = z3.Select
x, y = z3.Consts('ix_ iy_', IT.sort)
g = z3.Const('g_', FAs)
m = z3.Const('m_', MODE.sort)
k = z3.Const('k_', KEY.sort)
i = z3.Int('i_')
a_, b_ = z3.Consts('aa_ ab_', ARGS.sort)
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
def MP(*p): return z3.MultiPattern(*p)
def fa_of(x): return mkfa(fn(x), ar(x))
def key_of(x, m): return proj(args(x), m)

class Charts(Theory):
    def axioms(self, eng):
        # tuples of the same mode are equal iff they agree componentwise
        return [FA([a_, b_, m], z3.Implies(proj(a_, m) == proj(b_, m), FA([i], z3.Implies(inm(m, i), arg(a_, i) == arg(b_, i)))), MP(proj(a_, m), proj(b_, m)))]
    def global_name(self, eng, name, module): return Builtin(name) if name in ('unify', 'is_ground') else None
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == IT:
            if name == 'fn': return [(st, Z(fn(v.e), FN))]
            if name == 'arity': return [(st, Z(ar(v.e), INT))]
            if name == 'args': return [(st, Z(args(v.e), ARGS))]
        return None
    def getitem(self, eng, st, o, kk, line):
        if isinstance(o, Z) and o.ty == ARGS: return [(st, Z(arg(o.e, eng.lift(kk, INT).e), VAL))]
        return None
    def key(self, eng, st, kk, kty):
        if kty == FAT and isinstance(kk, Tup) and len(kk.items) == 2: return Z(mkfa(eng.lift(kk.items[0], FN).e, eng.lift(kk.items[1], INT).e), FAT)
        if kty == IT and isinstance(kk, Z) and kk.ty == IT:      # a query bound by an enclosing unify denotes the item it was unified with
            for q, item in reversed(st.ghost.get('bound', ())):
                if q.eq(kk.e): return Z(item, IT)
        return None
    def coerce(self, eng, v, ty):
        if ty == FAT and isinstance(v, Tup) and len(v.items) == 2: return Z(mkfa(eng.lift(v.items[0], FN).e, eng.lift(v.items[1], INT).e), FAT)
        return None
    def destructure(self, eng, st, t, v, star):
        if isinstance(v, Z) and v.ty == FAT and len(t.elts) == 2:
            r = eng.assign(t.elts[0], Z(fa_fn(v.e), FN), st)
            return [z for kd, s, _ in r for z in eng.assign(t.elts[1], Z(fa_ar(v.e), INT), s)]
        return None
    def call(self, eng, st, f, args_, kwargs, line):
        if kwargs: return None
        if isinstance(f, Builtin) and f.name == 'tuple' and len(args_) == 1 and isinstance(args_[0], CompV):
            n = args_[0].node
            if len(n.generators) != 1 or n.generators[0].ifs: return None
            s = st.copy(); s.cur = args_[0].frame
            r = eng.ev(n.generators[0].iter, s)
            if len(r) != 1 or not (isinstance(r[0][1], Z) and r[0][1].ty == MODE): return None
            mode = r[0][1].e
            i0 = z3.Int(fresh_name('pos'))
            s = r[0][0].copy()
            eng.assign(n.generators[0].target, Z(i0, INT), s)
            r = eng.ev(n.elt, s)
            if len(r) != 1 or not (isinstance(r[0][1], Z) and r[0][1].ty == VAL): return None
            e = r[0][1].e
            if e.decl().eq(arg) and e.arg(1).eq(i0): return [(st, Z(proj(e.arg(0), mode), KEY))]
            return None
        if isinstance(f, Builtin) and f.name == 'unify' and len(args_) == 2 and all(isinstance(v, Z) and v.ty == IT for v in args_): return [(st, IterV('unify', list(args_)))]
        return None
    # unify(x, q): one solution if they match, none otherwise
    def _u(self, it): return isinstance(it, IterV) and it.kind == 'unify'
    def norm_iter(self, eng, st, v): return v if self._u(v) else None
    def iter_start(self, eng, st, it): return {'kind': 'unify', 'did': z3.BoolVal(False)} if self._u(it) else None
    def iter_arbitrary(self, eng, st, it, g0): return dict(g0, did=z3.Bool(fresh_name('did'))) if self._u(it) else None
    def iter_done(self, eng, st, it, g):
        return z3.Or(g['did'], z3.Not(match(it.args[0].e, it.args[1].e))) if self._u(it) else None
    def iter_next(self, eng, st, it, g):
        if not self._u(it): return None
        u, v = it.args[0].e, it.args[1].e
        st.ghost['bound'] = tuple(st.ghost.get('bound', ())) + ((v, u),)
        return NONE, dict(g, did=z3.BoolVal(True)), [z3.Not(g['did']), match(u, v)]

THEORY = Charts()
C = {}
cd, cv = z3.Const('chart_dom', z3.ArraySort(IT.sort, B)), z3.Const('chart_val', z3.ArraySort(IT.sort, W.sort))
idd, idv = z3.Const('index_dom', z3.ArraySort(FAs, B)), z3.Const('index_val', z3.ArraySort(FAs, BYMODE.sort))
def SELF(eng, st, nm):
    return st.alloc(Rec((F, 'Chart'), {'chart': st.alloc(MapO(IT, W, cd, cv)), 'index': st.alloc(MapO(FAT, BYMODE, idd, idv))}))
def fld(cx, name, old=False):
    st = cx.st0 if old else cx.st
    v = st.store[cx['self'].loc].fields[name]
    return st.store[v.loc]
def D1(ix, g): return S(ix.dom, g)
def D2(ix, g, m): return S(BYMODE.dom(S(ix.val, g)), m)
def bykey(ix, g, m): return S(BYMODE.val(S(ix.val, g)), m)
def inb(b, k, x): return z3.And(S(BYKEY.dom(b), k), S(S(BYKEY.val(b), k), x))
def right(cdom, x, g, m, k): return z3.And(S(cdom, x), fa_of(x) == g, key_of(x, m) == k)
def agrees(ix, cdom, extra=None):
    "every index lists exactly the items of the chart"
    def want(g, m, k, x):
        w = right(cdom, x, g, m, k)
        return w if extra is None else z3.Or(w, extra(g, m, k, x))
    body = lambda: z3.Implies(z3.And(D1(ix, g), D2(ix, g, m)), inb(bykey(ix, g, m), k, x) == want(g, m, k, x))
    return FA([g, m, k, x], body(), S(S(BYKEY.val(bykey(ix, g, m)), k), x), MP(bykey(ix, g, m), S(cdom, x), key_of(x, m), S(BYKEY.dom(bykey(ix, g, m)), k)))
def inv_pre(cx): return [('the indexes agree with the chart', agrees(fld(cx, 'index'), fld(cx, 'chart').dom))]
def same_shape(ix, ix0): return FA([g, m], z3.And(D1(ix, g) == D1(ix0, g), z3.Implies(D1(ix, g), D2(ix, g, m) == D2(ix0, g, m))), D2(ix, g, m))
def index_ref(cx): return [cx.st0.store[cx['self'].loc].fields['index']]
def both(cx): f = cx.st0.store[cx['self'].loc].fields; return [f['index'], f['chart']]
def plus(cx, it): return z3.Store(fld(cx, 'chart', True).dom, it, True)

def upd_post(cx): return [('the indexes agree with the chart once the item is in it', agrees(fld(cx, 'index'), plus(cx, cx.e('item'))))]
def upd_loop(L):
    ix, ix0, it, seen = fld(L, 'index'), fld(L, 'index', True), L.e('item'), L.it['seen']
    return [('same indexes', same_shape(ix, ix0)),
            ('the item is in the indexes treated so far', agrees(ix, fld(L, 'chart', True).dom, lambda g, m, k, x: z3.And(g == fa_of(it), S(seen, m), x == it, k == key_of(it, m))))]
q = Contract(F, 'Chart._update_index', params=[('self', SELF), ('item', IT)], pre=inv_pre, post=upd_post, modifies=index_ref, loops=[LoopSpec(upd_loop)])
C[(F, 'Chart._update_index')] = q
def set_post(cx):
    c, c0 = fld(cx, 'chart'), fld(cx, 'chart', True)
    it, v = cx.e('item'), cx.e('v')
    return [('the indexes agree with the chart', agrees(fld(cx, 'index'), c.dom)),
            ('the chart is updated at the item only', z3.And(c.dom == z3.Store(c0.dom, it, True), S(c.val, it) == v, FA([x], z3.Implies(x != it, S(c.val, x) == S(c0.val, x)), S(c.val, x))))]
C[(F, 'Chart.__setitem__')] = Contract(F, 'Chart.__setitem__', params=[('self', SELF), ('item', IT), ('v', W)], pre=inv_pre, post=set_post, modifies=both)

def newmap():
    r = MapO(KEY, SETI, z3.EmptySet(KEY.sort), z3.Const(fresh_name('noset'), z3.ArraySort(KEY.sort, SETI.sort)))
    r.default = z3.EmptySet(IT.sort)
    return r
def exact(mo, cdom, g, m, restrict=None):
    w = lambda x, k: z3.And(right(cdom, x, g, m, k), *([S(restrict, x)] if restrict is not None else []))
    return FA([k, x], z3.And(S(mo.dom, k), S(S(mo.val, k), x)) == w(x, k), S(S(mo.val, k), x), MP(S(cdom, x), S(mo.dom, k), key_of(x, m)))
def local(L, name, T):
    v = L.st.frames[L.eng.top_frame].get(name)
    if not isinstance(v, (Ref, Place)): raise Unsupported(f'local {name} not found')
    o = L.eng.read(L.st, v)
    if not isinstance(o, T): raise Unsupported(f'local {name}')
    return o
def build_post(cx):
    return [('exactly the matching items', exact(cx.eng.read(cx.st, cx.result), fld(cx, 'chart', True).dom, cx.e('fa'), cx.e('m')))]
q = Contract(F, 'Chart._build_index', params=[('self', SELF), ('fa', FAT), ('m', MODE)], pre=lambda cx: [], post=build_post,
    results=lambda cx: [lambda eng, s, v: isinstance(v, Ref) and isinstance(s.store.get(v.loc), MapO) and s.store[v.loc].kty == KEY and v.loc not in cx.st0.store],
    loops=[LoopSpec(lambda L: [('exactly the matching items seen', exact(local(L, 'ix', MapO), fld(L, 'chart', True).dom, L.e('fa'), L.e('m'), L.it['seen']))])])
q.results_at_calls = (lambda cx: [cx.st.alloc(MapO(KEY, SETI, z3.Const(fresh_name('d'), z3.ArraySort(KEY.sort, B)), z3.Const(fresh_name('v'), z3.ArraySort(KEY.sort, SETI.sort))))])
q.field_types = {'ix': newmap}
C[(F, 'Chart._build_index')] = q

# query_mode: functor/arity and the positions bound by the query
modeof = z3.Function('mode_of', IT.sort, MODE.sort)
C[(F, 'query_mode')] = Contract(F, 'query_mode', params=[('q', IT)], trusted='a matching ground item has the functor, the arity and the ground arguments of the query',
    post=lambda cx: [('mode', FA([x], z3.Implies(match(x, cx.e('q')), z3.And(fa_of(x) == fa_of(cx.e('q')), key_of(x, modeof(cx.e('q'))) == key_of(cx.e('q'), modeof(cx.e('q'))))), match(x, cx.e('q'))))],
    results=lambda cx: [Tup([Z(fa_of(cx.e('q')), FAT), Z(modeof(cx.e('q')), MODE)])])

def lk_outer(L):
    cdom, q = fld(L, 'chart', True).dom, L.e('q')
    allx = L.it['all']
    return [('the indexes agree with the chart', agrees(fld(L, 'index'), fld(L, 'chart').dom)),
            ('every matching item is visited', FA([x], z3.Implies(z3.And(S(cdom, x), match(x, q)), S(allx, x)), match(x, q))),
            ('only items of the chart are visited', FA([x], z3.Implies(S(allx, x), S(cdom, x)), S(allx, x)))]
def lk_inner(L): return [('the indexes agree with the chart', agrees(fld(L, 'index'), fld(L, 'chart').dom))]
def lk_y(cx):
    c = fld(cx, 'chart', True)
    return [('the value of a matching item of the chart', z3.Exists([x], z3.And(S(c.dom, x), match(x, cx.e('q')), S(c.val, x) == cx.eng.lift(cx.result, W).e)))]
q = Contract(F, 'Chart._indexed_lookup', params=[('self', SELF), ('q', IT)], pre=inv_pre, gen='many', ypost=lk_y, results=lambda cx: [W],
    post=lambda cx: [('the indexes agree with the chart', agrees(fld(cx, 'index'), fld(cx, 'chart').dom))], modifies=index_ref, loops=[LoopSpec(lk_outer), LoopSpec(lk_inner)])
def bymode():
    return MapO(MODE, BYKEY, z3.EmptySet(MODE.sort), z3.Const(fresh_name('nomode'), z3.ArraySort(MODE.sort, BYKEY.sort)))
q.field_types = {'avail': bymode, '$set': IT}
q.dict_types = (MODE, BYKEY)
q.set_elem = IT
C[(F, 'Chart._indexed_lookup')] = q
C[(F, 'Chart._update_index')].set_elem = IT
