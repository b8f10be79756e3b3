"""Contracts for the editing of a program and the indexes it keeps (property C14; dyna/program.py).

Class invariant: the functor index, when present, lists for each functor exactly the positions of the rules whose head has it,
in order; the buckets, when present, map canonical heads to the position of a constant rule with that head.  Every mutator is
proved to keep it, to drop every value cached from the rules, and to change the rules exactly as specified.
"""
import ast
import z3
from pydv import frontend
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/program.py'
R, HD, KEY, FN, W, NM = (OBJ(q) for q in ('ERule', 'EHead', 'CanonHead', 'Functor', 'EWeight', 'CacheName'))
I, B, S = z3.IntSort(), z3.BoolSort(), z3.Select
RS, AR = R.sort, z3.ArraySort(I, R.sort)
LI = ListT(INT)
head = z3.Function('e_head_of', RS, HD.sort); canon = z3.Function('e_canon', HD.sort, KEY.sort)
isterm = z3.Function('e_isterm', HD.sort, B); fnof = z3.Function('e_fn', HD.sort, FN.sort); wild = z3.Const('e_wild', FN.sort)
isc = z3.Function('e_isconst', RS, B); cval = z3.Function('e_constval', RS, W.sort)
variant = z3.Function('e_variant', RS, RS, B)
fr = z3.Function('e_fresh', RS, RS); mkc = z3.Function('e_construle', HD.sort, W.sort, RS)
wadd = z3.Function('e_wadd', W.sort, W.sort, W.sort)
given, folded = z3.Const('e_given', RS), z3.Const('e_folded', RS); dead = z3.Const('e_dead', B)
r = z3.Const('e_r', RS); hd = z3.Const('e_h', HD.sort); w = z3.Const('e_w', W.sort); f = z3.Const('e_f', FN.sort); key = z3.Const('e_key', KEY.sort); nm = z3.Const('e_nm', NM.sort)
i, j, k, n = z3.Ints('e_i e_j e_k e_n')
def fnk(r): return z3.If(isterm(head(r)), fnof(head(r)), wild)
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats)) if pats else z3.ForAll(vs, b)
elems = z3.Function('e_elems', LI.sort, z3.ArraySort(I, B)); eix = z3.Function('e_ix', LI.sort, I, I)
lv, la = z3.Const('e_lv', LI.sort), z3.Const('e_la', z3.ArraySort(I, I))
def elems_axioms():
    t1 = LI.mk(n, z3.Store(la, j, i))
    return [FA([lv, i], z3.Implies(S(elems(lv), i), z3.And(0 <= eix(lv, i), eix(lv, i) < LI.n(lv), S(LI.arr(lv), eix(lv, i)) == i)), S(elems(lv), i)),
            FA([lv, j], z3.Implies(z3.And(0 <= j, j < LI.n(lv)), S(elems(lv), S(LI.arr(lv), j))), z3.MultiPattern(elems(lv), S(LI.arr(lv), j))),
            FA([n, la, j, i], z3.Implies(z3.And(0 <= j, n == j + 1), elems(t1) == z3.Store(elems(LI.mk(j, la)), i, True)), t1), elems(LI.empty()) == z3.EmptySet(I)]
AX = [FA([r], z3.And(head(fr(r)) == head(fr(r)), canon(head(fr(r))) == canon(head(r)), isterm(head(fr(r))) == isterm(head(r)), fnof(head(fr(r))) == fnof(head(r)), isc(fr(r)) == isc(r), cval(fr(r)) == cval(r), variant(fr(r), r)), fr(r)),
      FA([hd, w], z3.And(head(mkc(hd, w)) == hd, isc(mkc(hd, w)), cval(mkc(hd, w)) == w), mkc(hd, w)), FA([hd], fnof(hd) != wild, fnof(hd))]
_names = {}
def name(s):
    if s not in _names: _names[s] = z3.Const(f'nm!{s}', NM.sort)
    return _names[s]
def derived():
    "the cached properties of Program, read off the current source; builtins is the one not computed from the rules"
    out = []
    for nd in frontend.Module.get(F).classes['Program'].body:
        if isinstance(nd, ast.FunctionDef) and any((isinstance(d, ast.Name) and d.id == 'cached_property') or (isinstance(d, ast.Attribute) and d.attr == 'cached_property') for d in nd.decorator_list): out.append(nd.name)
    return [x for x in out if x not in ('builtins', 'measure', 'safe_by_smt', 'unit_measure', 'safe_by_unit')]

class Edits(Theory):
    def havoc_field(self, eng, st, ref, f_, old):
        if f_ == '_buckets': return st.alloc(MapO(KEY, INT, z3.Const(fresh_name('bk_d'), z3.ArraySort(KEY.sort, B)), z3.Const(fresh_name('bk_v'), z3.ArraySort(KEY.sort, I))))
        if f_ == '_cache_f2r': return st.alloc(F2R(fresh_name('f2r')))
        return None
    def axioms(self, eng): return elems_axioms() + AX + ([z3.Distinct(*[name(x) for x in _names])] if len(_names) > 1 else [])
    def global_name(self, eng, nme, module): return Builtin(nme) if nme in ('fresh', 'canonicalize') else None
    def getattr(self, eng, st, v, nme, line):
        if isinstance(v, Z) and v.ty == R and nme == 'head': return [(st, Z(head(v.e), HD))]
        if isinstance(v, Z) and v.ty == HD and nme == 'fn':
            out = []
            for s, c in eng.fork(st, isterm(v.e)): out.append((s, Z(fnof(v.e), FN) if c else Raised('AttributeError', line=line)))
            return out
        return None
    def isinst(self, eng, st, v, nme):
        if isinstance(v, Z) and v.ty == HD and nme in ('Term', 'Var'): return isterm(v.e) if nme == 'Term' else z3.Not(isterm(v.e))
        if isinstance(v, Z) and v.ty == R: return nme == 'Rule'
        return None
    def coerce(self, eng, v, ty):
        if ty == NM and isinstance(v, Py) and isinstance(v.v, str): return Z(name(v.v), NM)
        if ty == FN and isinstance(v, Cls) and v.name == 'Var': return Z(wild, FN)
        return None
    def key(self, eng, st, k_, kty):
        if kty in (NM, FN) and not isinstance(k_, Z): return self.coerce(eng, k_, kty)
        return None
    def norm_iter(self, eng, st, v):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], Rec) and st.store[v.loc].cls == (F, 'Program'): return st.store[v.loc].fields['rules']
        return None
    def binop(self, eng, st, op, a, b, line):
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == W and b.ty == W and isinstance(op, ast.Add): return [(st, Z(wadd(a.e, b.e), W))]
        if isinstance(op, ast.Add) and all(isinstance(q, (Ref, Place)) and isinstance(eng.read(st, q), ListO) for q in (a, b)):
            p, q = eng.read(st, a), eng.read(st, b)
            arr = z3.Const(fresh_name('cat'), p.arr.sort())
            st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < p.n), S(arr, j) == S(p.arr, j)), S(arr, j)), FA([j], z3.Implies(z3.And(0 <= j, j < q.n), S(arr, p.n + j) == S(q.arr, j)), S(q.arr, j)),
                      FA([j], z3.Implies(z3.And(p.n <= j, j < p.n + q.n), S(arr, j) == S(q.arr, j - p.n)), S(arr, j)))
            return [(st, st.alloc(ListO(p.ety, p.n + q.n, arr)))]
        return None
    def call(self, eng, st, f_, args, kwargs, line):
        if isinstance(f_, Builtin) and len(args) == 1 and isinstance(args[0], Z):
            if f_.name == 'fresh' and args[0].ty == R: return [(st, Z(fr(args[0].e), R))]
            if f_.name == 'canonicalize' and args[0].ty == HD: return [(st, Z(canon(args[0].e), KEY))]
        if isinstance(f_, Cls) and f_.name == 'Rule':
            if len(args) == 2 and all(isinstance(q, Z) for q in args) and args[1].ty == W: return [(st, Z(mkc(args[0].e, args[1].e), R))]
            if len(args) == 2 and isinstance(args[1], tuple): return [(st, Z(given, R))]
            if args and isinstance(args[0], Z) and args[0].ty == HD: return [(st, Z(given, R))]
        if isinstance(f_, Builtin) and f_.name == 'sorted' and len(args) == 1 and not kwargs and isinstance(args[0], (Ref, Place)) and isinstance(eng.read(st, args[0]), ListO):
            l = eng.read(st, args[0])
            if l.ety != INT: return None
            res = fresh(LI, 'sorted')
            st.assume(LI.n(res) == l.n, FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < l.n), S(LI.arr(res), j) <= S(LI.arr(res), k)), z3.MultiPattern(S(LI.arr(res), j), S(LI.arr(res), k))),
                      FA([i], S(elems(res), i) == z3.Exists([j], z3.And(0 <= j, j < l.n, S(l.arr, j) == i)), S(elems(res), i)))
            return [(st, st.alloc(ListO(INT, LI.n(res), LI.arr(res))))]
        return None

THEORY = Edits()
C = {}
def LEMMAS():
    jj, ll, e0, e1 = z3.Int('jj'), z3.Const('ll', la.sort()), z3.Int('e0'), z3.Int('e1')
    t0, t1 = LI.mk(jj, ll), LI.mk(jj + 1, z3.Store(ll, jj, e0))
    def a2(l): return z3.Implies(S(elems(l), e1), z3.And(0 <= eix(l, e1), eix(l, e1) < LI.n(l), S(LI.arr(l), eix(l, e1)) == e1))
    def a3(l, q): return z3.Implies(z3.And(0 <= q, q < LI.n(l)), S(elems(l), S(LI.arr(l), q)))
    return [('appending adds one element', [jj >= 0] + [a2(t0), a2(t1), a3(t0, eix(t1, e1)), a3(t1, eix(t0, e1)), a3(t1, jj)], S(elems(t1), e1) == z3.Or(S(elems(t0), e1), e1 == e0), [])]

AN, AA = z3.Int('rules_n'), z3.Const('rules_a', AR)
def F2R(nme, empty=False):
    m = MapO(FN, LI, z3.EmptySet(FN.sort) if empty else z3.Const(nme + '_d', z3.ArraySort(FN.sort, B)), z3.Const(nme + '_v', z3.ArraySort(FN.sort, LI.sort)))
    m.default = LI.empty()
    return m
def SELF(eng, st, nme):
    fs = {'rules': st.alloc(ListO(R, AN, AA)), '_cache_f2r': st.alloc(F2R('f2r')), '_buckets': st.alloc(MapO(KEY, INT, z3.Const('bk_d', z3.ArraySort(KEY.sort, B)), z3.Const('bk_v', z3.ArraySort(KEY.sort, I)))),
          '_caches': st.alloc(MapO(NM, W, z3.Const('ca_d', z3.ArraySort(NM.sort, B)), z3.Const('ca_v', z3.ArraySort(NM.sort, W.sort)))),
          '__dict__': st.alloc(MapO(NM, W, z3.Const('di_d', z3.ArraySort(NM.sort, B)), z3.Const('di_v', z3.ArraySort(NM.sort, W.sort))))}
    return st.alloc(Rec((F, 'Program'), fs))
def none(*fs):
    def g(eng, st, args):
        for q in fs: st.store[args['self'].loc].fields[q] = NONE
    return g
CASES = [('index and buckets present', None), ('no index', none('_cache_f2r')), ('no buckets', none('_buckets')), ('neither', none('_cache_f2r', '_buckets'))]
def fld(cx, nme, old=False):
    st = cx.st0 if old else cx.st
    v = st.store[cx['self'].loc].fields[nme]
    if isinstance(v, Py) and v.v is None: return None
    return cx.eng.read(st, v)
def f2r_ok(m, rs, upto=None):
    up = rs.n if upto is None else upto
    L = lambda q: S(m.val, q)
    at = lambda q, t: S(LI.arr(L(q)), t)
    return [('the index lists positions of rules with the functor, in order', FA([f, j], z3.Implies(z3.And(S(m.dom, f), 0 <= j, j < LI.n(L(f))), z3.And(0 <= at(f, j), at(f, j) < up, fnk(S(rs.arr, at(f, j))) == f)), at(f, j))),
            ('in increasing order', FA([f, j, k], z3.Implies(z3.And(S(m.dom, f), 0 <= j, j < k, k < LI.n(L(f))), at(f, j) < at(f, k)), z3.MultiPattern(at(f, j), at(f, k)))),
            ('the index lists every rule', FA([i], z3.Implies(z3.And(0 <= i, i < up), z3.And(S(m.dom, fnk(S(rs.arr, i))), S(elems(L(fnk(S(rs.arr, i)))), i))), S(rs.arr, i))),
            ('list lengths', FA([f], z3.Implies(S(m.dom, f), LI.n(L(f)) >= 0), L(f)))]
def bk_ok(m, rs, upto=None):
    up = rs.n if upto is None else upto
    q = lambda t: S(m.val, t)
    return [('a bucket is a constant rule with that head', FA([key], z3.Implies(S(m.dom, key), z3.And(0 <= q(key), q(key) < up, isc(S(rs.arr, q(key))), canon(head(S(rs.arr, q(key)))) == key)), S(m.dom, key)))]
def bk_all(m, rs, upto=None):
    up = rs.n if upto is None else upto
    return [('every constant rule has a bucket', FA([i], z3.Implies(z3.And(0 <= i, i < up, isc(S(rs.arr, i))), S(m.dom, canon(head(S(rs.arr, i))))), S(rs.arr, i)))]
def wf(cx, full=False):
    rs, ix, bk = fld(cx, 'rules'), fld(cx, '_cache_f2r'), fld(cx, '_buckets')
    return [('number of rules', rs.n >= 0)] + (f2r_ok(ix, rs) if ix is not None else []) + (bk_ok(bk, rs) + (bk_all(bk, rs) if full else []) if bk is not None else [])
def dropped(cx):
    return [('no cached value survives', fld(cx, '_caches').dom == z3.EmptySet(NM.sort)), ('no cached property survives', z3.And(*[z3.Not(S(fld(cx, '__dict__').dom, name(q))) for q in derived()]))]
def fref(cx, *names): return [cx.st0.store[cx['self'].loc].fields[q] for q in names if isinstance(cx.st0.store[cx['self'].loc].fields[q], Ref)]
def attr(cx, *names): return [(cx['self'], q) for q in names]
def appended(cx, x, n0=None):
    r0, r1 = fld(cx, 'rules', True), fld(cx, 'rules')
    return z3.And(r1.n == r0.n + 1, S(r1.arr, r0.n) == x, FA([j], z3.Implies(z3.And(0 <= j, j < r0.n), S(r1.arr, j) == S(r0.arr, j)), S(r1.arr, j)))
def same_rules(cx):
    r0, r1 = fld(cx, 'rules', True), fld(cx, 'rules')
    return z3.And(r1.n == r0.n, FA([j], z3.Implies(z3.And(0 <= j, j < r0.n), S(r1.arr, j) == S(r0.arr, j)), S(r1.arr, j)))

C[(F, 'Program._invalidate_caches')] = Contract(F, 'Program._invalidate_caches', params=[('self', SELF)], post=dropped, modifies=lambda cx: fref(cx, '_caches', '__dict__'))
C[(F, 'Program._add_rule')] = Contract(F, 'Program._add_rule', params=[('self', SELF), ('r', R)], cases=CASES, pre=wf,
    post=lambda cx: [*wf(cx), *dropped(cx), ('the rule is appended', appended(cx, cx.e('r'))), ('its position', cx.eng.lift(cx.result, INT).e == fld(cx, 'rules', True).n)], results=lambda cx: [INT],
    modifies=lambda cx: fref(cx, 'rules', '_cache_f2r', '_caches', '__dict__'))
def pop_post(cx):
    r0, r1, p = fld(cx, 'rules', True), fld(cx, 'rules'), cx.e('i')
    return [*wf(cx), *dropped(cx), ('the rule at the position', cx.eng.lift(cx.result, R).e == S(r0.arr, p)),
            ('exactly that rule is removed', z3.And(r1.n == r0.n - 1, FA([j], z3.Implies(z3.And(0 <= j, j < r1.n), S(r1.arr, j) == S(r0.arr, z3.If(j < p, j, j + 1))), S(r1.arr, j))))]
C[(F, 'Program.pop')] = Contract(F, 'Program.pop', params=[('self', SELF), ('i', INT)], cases=CASES, pre=lambda cx: wf(cx) + [('position', z3.And(0 <= cx.e('i'), cx.e('i') < AN))], post=pop_post, results=lambda cx: [R],
    modifies=lambda cx: fref(cx, 'rules', '_caches', '__dict__') + attr(cx, '_cache_f2r', '_buckets'))
C[(F, 'Program.get_const_rhs')] = Contract(F, 'Program.get_const_rhs', params=[('self', None), ('r', R)], trusted='the constant a rule adds, or None if its body is not constant (C15; bounded checks b14, b15)',
    post=lambda cx: [('constant', isc(cx.e('r')) if not (isinstance(cx.result, Py) and cx.result.v is None) else z3.Not(isc(cx.e('r')))), *([('its value', cx.result.e == cval(cx.e('r')))] if isinstance(cx.result, Z) else [])], results=lambda cx: [NONE, W])
C[(F, 'Program.constant_folding_rhs')] = Contract(F, 'Program.constant_folding_rhs', params=[('self', None), ('r', R)], trusted='multiplies the constants of the body; None if the rule is dead (C15; bounded checks b14, b15)',
    post=lambda cx: [('dead or folded', dead if isinstance(cx.result, Py) and cx.result.v is None else z3.And(z3.Not(dead), cx.result.e == folded))], results=lambda cx: [NONE, R])
def merged(cx, x):
    r0, r1 = fld(cx, 'rules', True), fld(cx, 'rules')
    def at(p): return z3.And(0 <= p, p < r0.n, isc(S(r0.arr, p)), canon(head(S(r0.arr, p))) == canon(head(x)), r1.n == r0.n, S(r1.arr, p) == mkc(head(S(r0.arr, p)), wadd(cval(S(r0.arr, p)), cval(x))),
                            FA([j], z3.Implies(z3.And(0 <= j, j < r0.n, j != p), S(r1.arr, j) == S(r0.arr, j)), S(r1.arr, j)))
    return at
def ub_post(cx):
    x, bk0 = cx.e('r'), fld(cx, '_buckets', True)
    res = cx.result
    if isinstance(res, Py) and res.v is None: return [*wf(cx, True), ('None: the rule is not constant, nothing changed', z3.And(z3.Not(isc(x)), same_rules(cx)))]
    p = cx.eng.lift(res, INT).e
    return [*wf(cx, True), *dropped(cx), ('the value is added to the rule of that head, or the rule is appended', z3.And(isc(x), z3.If(S(bk0.dom, canon(head(x))), merged(cx, x)(p), z3.And(p == fld(cx, 'rules', True).n, appended(cx, fr(x))))))]
C[(F, 'Program._update_bucket')] = Contract(F, 'Program._update_bucket', params=[('self', SELF), ('r', R)], cases=CASES[:2], pre=lambda cx: wf(cx, True), post=ub_post, results=lambda cx: [NONE, INT],
    modifies=lambda cx: fref(cx, 'rules', '_cache_f2r', '_buckets', '_caches', '__dict__'))
def mb_inv(L):
    bk, rs = fld(L, '_buckets'), fld(L, 'rules')
    return bk_ok(bk, rs, L.it['i']) + bk_all(bk, rs, L.it['i']) + [('position', z3.And(0 <= L.it['i'], L.it['i'] <= rs.n))]
mb = Contract(F, 'Program._make_buckets', params=[('self', SELF)], cases=CASES, pre=wf, post=lambda cx: bk_ok(fld(cx, '_buckets'), fld(cx, 'rules')) + bk_all(fld(cx, '_buckets'), fld(cx, 'rules')) if fld(cx, '_buckets') is not None else [('buckets made', z3.BoolVal(False))],
    loops=[LoopSpec(mb_inv)], modifies=lambda cx: attr(cx, '_buckets'))
mb.dict_types = (KEY, INT)
C[(F, 'Program._make_buckets')] = mb
def upd_post(cx):
    r0 = fld(cx, 'rules', True)
    p = z3.Int(fresh_name('p'))
    mg = merged(cx, folded)
    old_ = lambda q: z3.And(0 <= q, q < r0.n, isc(S(r0.arr, q)), canon(head(S(r0.arr, q))) == canon(head(folded)))
    return [*wf(cx, True), ('a dead rule changes nothing', z3.Implies(dead, same_rules(cx))),
            ('a rule that is not constant is appended', z3.Implies(z3.And(z3.Not(dead), z3.Not(isc(folded))), appended(cx, fr(folded)))),
            ('a constant is added to a rule of that head, or appended if there is none', z3.Implies(z3.And(z3.Not(dead), isc(folded)), z3.Or(z3.Exists([p], mg(p)), z3.And(appended(cx, fr(folded)), FA([i], z3.Not(old_(i)), S(r0.arr, i)))))),
            *[(l, z3.Implies(z3.Not(dead), g)) for l, g in dropped(cx)]]
up = Contract(F, 'Program.update', params=[('self', SELF), ('head', HD), ('body', W)], cases=CASES, pre=lambda cx: wf(cx, True), post=upd_post,
    modifies=lambda cx: fref(cx, 'rules', '_cache_f2r', '_buckets', '_caches', '__dict__') + attr(cx, '_buckets'))
C[(F, 'Program.update')] = up
def f2r_inv(L):
    m = L.st.frames[L.eng.top_frame].get('f2r')
    if not isinstance(m, Ref): raise Unsupported('local f2r not found')
    return f2r_ok(L.st.store[m.loc], fld(L, 'rules'), L.it['i']) + [('position', z3.And(0 <= L.it['i'], L.it['i'] <= AN))]
def f2r_post(cx):
    l, rs, q = cx.eng.read(cx.st, cx.result), fld(cx, 'rules'), cx.e('f')
    ls = LI.mk(l.n, l.arr)
    return [*wf(cx), ('positions of rules whose head may have the functor', FA([j], z3.Implies(z3.And(0 <= j, j < l.n), z3.And(0 <= S(l.arr, j), S(l.arr, j) < rs.n, z3.Or(fnk(S(rs.arr, S(l.arr, j))) == q, fnk(S(rs.arr, S(l.arr, j))) == wild))), S(l.arr, j))),
            ('all of them', FA([i], z3.Implies(z3.And(0 <= i, i < rs.n, z3.Or(fnk(S(rs.arr, i)) == q, fnk(S(rs.arr, i)) == wild)), z3.Or(S(elems(ls), i), z3.Exists([j], z3.And(0 <= j, j < l.n, S(l.arr, j) == i)))), S(rs.arr, i))),
            ('in order', FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < l.n), S(l.arr, j) <= S(l.arr, k)), z3.MultiPattern(S(l.arr, j), S(l.arr, k))))]
fc = Contract(F, 'Program.f2r', params=[('self', SELF), ('f', FN)], cases=CASES[:2], pre=lambda cx: wf(cx) + [('a functor', cx.e('f') != wild)], post=f2r_post, results=lambda cx: [lambda eng, s, v: isinstance(v, (Ref, Place)) and isinstance(eng.read(s, v), ListO)],
    loops=[LoopSpec(f2r_inv)], modifies=lambda cx: attr(cx, '_cache_f2r'))
fc.field_types = {'f2r': lambda: F2R(fresh_name('f2r'), True)}
fc.list_elem = INT
C[(F, 'Program.f2r')] = fc
ASSUMPTIONS = ['constant_folding_rhs, get_const_rhs (their values: C15), canonicalize and fresh (C05) as functions of the rule; Program.__dict__ holds the cached properties; no other code of the library assigns to rules, _cache_f2r, _buckets behind these methods']
