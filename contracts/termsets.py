"""Contracts for the subsumption-keyed collections of dyna/term.py (property C08).

The collections are verified against an ABSTRACT subsumption preorder cov, an abstract variant relation and an abstract
overlap relation, all invariant under renaming (what C01, C03, C05, C06 establish for the real covers, same, unifies,
fresh, canonicalize, generalizer): cov reflexive and transitive; fresh(x), canonicalize(x) are variants of x;
same an equivalence; unifies symmetric, and monotone: an instance of something that x does not overlap does not overlap x;
generalizer(a, b) covers both.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/term.py'
T = OBJ('AnyTerm')
TS, I, B = T.sort, z3.IntSort(), z3.BoolSort()
AT = z3.ArraySort(I, TS)
cov = z3.Function('cov', TS, TS, B)
same = z3.Function('same_rel', TS, TS, B)
ovl = z3.Function('overlap', TS, TS, B)
fr = z3.Function('fresh_of', TS, I, TS)
can = z3.Function('canon_of', TS, TS)
gen = z3.Function('generalizer_of', TS, TS, TS)
a, b, c = z3.Consts('ta tb tc', TS)
p, q, o, k, n = z3.Ints('p q o k n')
S = z3.Select
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
def MP(*x): return z3.MultiPattern(*x)

class Sets(Theory):
    count = 0
    def axioms(self, eng):
        f = fr(a, k)
        return [FA([a], cov(a, a), cov(a, a)), FA([a, b, c], z3.Implies(z3.And(cov(a, b), cov(b, c)), cov(a, c)), MP(cov(a, b), cov(b, c))),
                FA([a, k], z3.And(cov(a, f), cov(f, a)), f), FA([a], z3.And(cov(a, can(a)), cov(can(a), a)), can(a)),
                FA([a], same(a, a), same(a, a)), FA([a, b], same(a, b) == same(b, a), same(a, b)), FA([a, b, c], z3.Implies(z3.And(same(a, b), same(b, c)), same(a, c)), MP(same(a, b), same(b, c))),
                FA([a, k], same(a, f), f),
                FA([a, b], ovl(a, b) == ovl(b, a), ovl(a, b)),
                FA([a, b, c], z3.Implies(z3.And(cov(a, b), ovl(b, c)), ovl(a, c)), MP(cov(a, b), ovl(b, c))),
                FA([a, b], z3.And(cov(gen(a, b), a), cov(gen(a, b), b)), gen(a, b))]
    def global_name(self, eng, name, module):
        return Builtin(name) if name in ('fresh', 'canonicalize', 'unifies', 'generalizer') else None
    def call(self, eng, st, f, args, kwargs, line):
        if kwargs: return None
        if isinstance(f, Opaque) and f.why in ('cov', 'same'):
            return [(st, Z((cov if f.why == 'cov' else same)(args[0].e, args[1].e), BOOL))]
        if isinstance(f, Builtin) and f.name in ('fresh', 'canonicalize', 'unifies', 'generalizer') and all(isinstance(x, Z) and x.ty == T for x in args):
            if f.name == 'fresh' and len(args) == 1:
                self.count += 1
                return [(st, Z(fr(args[0].e, self.count), T))]
            if f.name == 'canonicalize' and len(args) == 1: return [(st, Z(can(args[0].e), T))]
            if f.name == 'unifies' and len(args) == 2: return [(st, Z(ovl(args[0].e, args[1].e), BOOL))]
            if f.name == 'generalizer' and len(args) == 2: return [(st, Z(gen(args[0].e, args[1].e), T))]
        return None

THEORY = Sets()
C = {}
xs_n, xs_a = z3.Int('xs_n'), z3.Const('xs_a', AT)
def mkself(cls, rel, empty=False):
    def mk(eng, st, nm):
        f = {} if empty else {'xs': st.alloc(ListO(T, xs_n, xs_a))}
        if rel and not empty: f[{'cov': 'covers', 'same': 'same'}[rel]] = Opaque(rel)
        return st.alloc(Rec((F, cls), f))
    return mk
def lst(cx, old=False):
    st = cx.st0 if old else cx.st
    v = st.store[cx['self'].loc].fields.get('xs')
    if not isinstance(v, Ref) or not isinstance(st.store[v.loc], ListO): raise Unsupported('self.xs is not a list')
    return st.store[v.loc]
def at(l, i): return S(l.arr, i)
def rg(l, *vs): return z3.And(*[z3.And(0 <= v, v < l.n) for v in vs])
def pairwise(l, rel):
    return FA([p, q], z3.Implies(z3.And(rg(l, p, q), p != q), z3.Not(rel(at(l, p), at(l, q)))), MP(at(l, p), at(l, q)))
def ex(l, i, body): return z3.Exists([i], z3.And(0 <= i, i < l.n, body))
def xs_ref(cx): return [cx.st0.store[cx['self'].loc].fields['xs']]
def local(L, name, kind=None):
    v = L.st.frames[L.eng.top_frame].get(name)
    if v is None: raise Unsupported(f'local {name} not found')
    if isinstance(v, Ref): return L.st.store[v.loc]
    return v.e

# ================================================================ NoDupsSet
nd_inv = lambda l: [('length', l.n >= 0), ('one member per class', pairwise(l, same))]
def prefix(l0, l): return z3.And(l.n >= l0.n, FA([k], z3.Implies(z3.And(0 <= k, k < l0.n), at(l, k) == at(l0, k)), at(l, k)))
def nd_add_post(cx):
    l0, l, x = lst(cx, True), lst(cx), cx.e('r')
    r = cx.result.e
    return [*nd_inv(l), ('members keep their places', prefix(l0, l)),
            ('True: already represented, nothing changes', z3.Implies(r, z3.And(l.n == l0.n, ex(l0, k, same(at(l0, k), x))))),
            ('False: new class, appended', z3.Implies(z3.Not(r), z3.And(l.n == l0.n + 1, same(at(l, l0.n), x), FA([k], z3.Implies(z3.And(0 <= k, k < l0.n), z3.Not(same(at(l0, k), x))), at(l0, k)))))]
def nd_scan(L):
    l, r = lst(L), local(L, 'r')
    return [('not among those seen', FA([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), z3.Not(same(at(l, k), r))), at(l, k))), ('variant', same(r, L.e('r')))]
C[(F, 'NoDupsSet.add')] = Contract(F, 'NoDupsSet.add', params=[('self', mkself('NoDupsSet', 'same')), ('r', T)], pre=lambda cx: nd_inv(lst(cx)), post=nd_add_post,
    results=lambda cx: [BOOL], modifies=xs_ref, loops=[LoopSpec(nd_scan)])
def find_contract(cls, rel, relf, pre):
    def post(cx):
        l, i = lst(cx), cx.result.e
        return [('index of a member related to the query', z3.And(0 <= i, i < l.n, relf(at(l, i), cx.e('x')))),
                ('the first one', FA([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(relf(at(l, k), cx.e('x')))), at(l, k)))]
    def inv(L):
        l, x = lst(L), local(L, 'x')
        return [('not among those seen', FA([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), z3.Not(relf(at(l, k), x))), at(l, k))),
                ('variant of the query', z3.And(cov(x, L.e('x')), cov(L.e('x'), x), same(x, L.e('x'))))]
    C[(F, cls + '.find')] = Contract(F, cls + '.find', params=[('self', mkself(cls, rel)), ('x', T)], pre=lambda cx: pre(lst(cx)), post=post, results=lambda cx: [INT],
        exc={'KeyError': lambda cx: [('only when no member is related', FA([k], z3.Implies(z3.And(0 <= k, k < lst(cx).n), z3.Not(relf(at(lst(cx), k), cx.e('x')))), at(lst(cx), k)))]},
        loops=[LoopSpec(inv)])
    C[(F, cls + '.root')] = Contract(F, cls + '.root', params=[('self', mkself(cls, rel)), ('x', T)], pre=lambda cx: pre(lst(cx)), results=lambda cx: [T],
        post=lambda cx: [('a member related to the query', z3.And(relf(cx.result.e, cx.e('x')), ex(lst(cx), k, at(lst(cx), k) == cx.result.e)))],
        exc={'KeyError': lambda cx: [('only when no member is related', FA([k], z3.Implies(z3.And(0 <= k, k < lst(cx).n), z3.Not(relf(at(lst(cx), k), cx.e('x')))), at(lst(cx), k)))]})
find_contract('NoDupsSet', 'same', same, nd_inv)

# ================================================================ MostGeneralSet
mg_inv = lambda l: [('length', l.n >= 0), ('antichain', pairwise(l, cov))]
def covered_by(l0, l): return FA([o], z3.Implies(rg(l0, o), z3.Exists([p], z3.And(rg(l, p), cov(at(l, p), at(l0, o))))), at(l0, o))
def mg_add_post(cx):
    l0, l, x, r = lst(cx, True), lst(cx), cx.e('r'), cx.result.e
    return [*mg_inv(l), ('every earlier member is covered', covered_by(l0, l)), ('the new element is covered', ex(l, p, cov(at(l, p), x))),
            ('nothing invented', FA([p], z3.Implies(rg(l, p), z3.Or(z3.Exists([o], z3.And(rg(l0, o), at(l0, o) == at(l, p))), z3.And(cov(at(l, p), x), cov(x, at(l, p))))), at(l, p))),
            ('True exactly when it was covered already', r == ex(l0, o, cov(at(l0, o), x))), ('True: nothing changes', z3.Implies(r, z3.And(l.n == l0.n, prefix(l0, l))))]
def rm_facts(rm, l0, r, i):
    return [('removal list in range and increasing', z3.And(rm.n >= 0, FA([p], z3.Implies(z3.And(0 <= p, p < rm.n), z3.And(0 <= S(rm.arr, p), S(rm.arr, p) < i)), S(rm.arr, p)),
                 FA([p, q], z3.Implies(z3.And(0 <= p, p < q, q < rm.n), S(rm.arr, p) < S(rm.arr, q)), MP(S(rm.arr, p), S(rm.arr, q))))),
            ('room', FA([p], z3.Implies(z3.And(0 <= p, p < rm.n), S(rm.arr, p) + rm.n - p <= i), S(rm.arr, p))),
            ('it lists covered members', FA([p], z3.Implies(z3.And(0 <= p, p < rm.n), cov(r, S(l0.arr, S(rm.arr, p)))), S(rm.arr, p))),
            ('it lists every covered member', FA([o], z3.Implies(z3.And(0 <= o, o < i, cov(r, S(l0.arr, o))), z3.Exists([p], z3.And(0 <= p, p < rm.n, S(rm.arr, p) == o))), S(l0.arr, o)))]
def variant(L): return [('variant', z3.And(cov(local(L, 'r'), L.e('r')), cov(L.e('r'), local(L, 'r'))))]
def mg_scan(L):
    l, r, rm, i = lst(L), local(L, 'r'), local(L, 'rm'), L.it['i']
    return [*variant(L), *rm_facts(rm, l, r, i), ('not covered by those seen', FA([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(cov(at(l, k), r))), at(l, k)))]
def mg_del(L):
    l, l0, r, t, srt = lst(L), lst(L, True), local(L, 'r'), L.it['i'], L.it['arr']
    rm = local(L, 'rm')
    nxt = z3.If(t < L.it['n'], S(srt, t), l0.n)      # indices from here on have been dealt with
    return [*variant(L), ('index', z3.And(0 <= t, t <= L.it['n'])), ('length', z3.And(l.n >= 0, l.n == l0.n - (L.it['n'] - t))),
            ('the part still to be treated is untouched', FA([k], z3.Implies(z3.And(0 <= k, k < nxt), at(l, k) == at(l0, k)), at(l, k))),
            ('the treated part is not covered', FA([k], z3.Implies(z3.And(nxt <= k, k < l.n), z3.Not(cov(r, at(l, k)))), at(l, k))),
            ('antichain', pairwise(l, cov)), ('none covers the new element', FA([k], z3.Implies(rg(l, k), z3.Not(cov(at(l, k), r))), at(l, k))),
            ('removed members are covered', FA([o], z3.Implies(rg(l0, o), z3.Or(cov(r, at(l0, o)), z3.Exists([p], z3.And(rg(l, p), at(l, p) == at(l0, o))))), at(l0, o))),
            ('nothing invented', FA([p], z3.Implies(rg(l, p), z3.Exists([o], z3.And(rg(l0, o), at(l0, o) == at(l, p)))), at(l, p)))]
cx_ = Contract(F, 'MostGeneralSet.add', params=[('self', mkself('MostGeneralSet', 'cov')), ('r', T)], pre=lambda cx: mg_inv(lst(cx)), post=mg_add_post,
    results=lambda cx: [BOOL], modifies=xs_ref, loops=[LoopSpec(mg_scan), LoopSpec(mg_del)])
cx_.field_types = {'rm': lambda: ListO(INT, z3.IntVal(0), z3.Const('rm_arr', z3.ArraySort(I, I)))}
C[(F, 'MostGeneralSet.add')] = cx_
find_contract('MostGeneralSet', 'cov', cov, mg_inv)

# ================================================================ DisjointEstimate
de_inv = lambda l: [('length', l.n >= 0), ('pairwise non-overlapping', pairwise(l, ovl))]
def de_post(cx):
    l0, l = lst(cx, True), lst(cx)
    return [*de_inv(l), ('every earlier pattern is covered', covered_by(l0, l)), ('the new pattern is covered', ex(l, p, cov(at(l, p), cx.e('r'))))]
def de_common(L, r):
    l, l0 = lst(L), lst(L, True)
    return [('covers the new pattern', cov(r, L.e('r'))), *de_inv(l),
            ('earlier patterns are kept or covered', FA([o], z3.Implies(rg(l0, o), z3.Or(cov(r, at(l0, o)), z3.Exists([p], z3.And(rg(l, p), at(l, p) == at(l0, o))))), at(l0, o)))]
def de_outer(L): return de_common(L, local(L, 'r'))
def de_any(L):
    l, r = lst(L), local(L, 'r')
    return [('none of those seen overlaps', FA([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), z3.Not(ovl(r, at(l, k)))), at(l, k)))]
def de_inner(L):
    l, r, i = lst(L), local(L, 'r'), L.it['i']
    le = L.entry.store[L.entry.store[L['self'].loc].fields['xs'].loc]
    re = L.entry.frames[L.eng.top_frame]['r'].e
    return de_common(L, r) + [('progress', z3.And(0 <= i, i <= l.n, l.n <= le.n, z3.Or(l.n < le.n, z3.And(r == re, FA([k], z3.Implies(z3.And(0 <= k, k < l.n), at(l, k) == at(le, k)), at(l, k)),
                               FA([k], z3.Implies(z3.And(i <= k, k < l.n), z3.Not(ovl(r, at(l, k)))), at(l, k))))))]
C[(F, 'DisjointEstimate.add')] = Contract(F, 'DisjointEstimate.add', params=[('self', mkself('DisjointEstimate', None)), ('r', T)], pre=lambda cx: de_inv(lst(cx)), post=de_post,
    modifies=xs_ref, loops=[LoopSpec(de_outer, decreases=lambda L: lst(L).n), LoopSpec(de_any), LoopSpec(de_inner)])

# ---- look-ups
def fa_list(cx): return cx.st.store[cx.result.loc]
def fa_post(cx):
    l, f, x = lst(cx), fa_list(cx), cx.e('x')
    return [('length', f.n >= 0), ('indices of overlapping members', FA([p], z3.Implies(z3.And(0 <= p, p < f.n), z3.And(0 <= S(f.arr, p), S(f.arr, p) < l.n, ovl(x, at(l, S(f.arr, p))))), S(f.arr, p))),
            ('all of them', FA([o], z3.Implies(z3.And(rg(l, o), ovl(x, at(l, o))), z3.Exists([p], z3.And(0 <= p, p < f.n, S(f.arr, p) == o))), at(l, o))),
            ('in order, once each', FA([p, q], z3.Implies(z3.And(0 <= p, p < q, q < f.n), S(f.arr, p) < S(f.arr, q)), MP(S(f.arr, p), S(f.arr, q))))]
def fa_inv(L):
    l, f, x, i = lst(L), local(L, 'index'), local(L, 'x'), L.it['i']
    return [('variant', z3.And(cov(x, L.e('x')), cov(L.e('x'), x))), ('length', f.n >= 0),
            ('indices of overlapping members', FA([p], z3.Implies(z3.And(0 <= p, p < f.n), z3.And(0 <= S(f.arr, p), S(f.arr, p) < i, ovl(x, at(l, S(f.arr, p))))), S(f.arr, p))),
            ('all of those seen', FA([o], z3.Implies(z3.And(0 <= o, o < i, ovl(x, at(l, o))), z3.Exists([p], z3.And(0 <= p, p < f.n, S(f.arr, p) == o))), at(l, o))),
            ('in order', FA([p, q], z3.Implies(z3.And(0 <= p, p < q, q < f.n), S(f.arr, p) < S(f.arr, q)), MP(S(f.arr, p), S(f.arr, q))))]
int_list = lambda: ListO(INT, z3.IntVal(0), z3.Const('idx_arr', z3.ArraySort(I, I)))
def any_int_list(cx):
    l = ListO(INT, z3.Const(fresh_name('n'), I), z3.Const(fresh_name('ix'), z3.ArraySort(I, I)))
    return cx.st.alloc(l)
cx_ = Contract(F, 'DisjointEstimate.find_all', params=[('self', mkself('DisjointEstimate', None)), ('x', T)], pre=lambda cx: de_inv(lst(cx)), post=fa_post,
    results=lambda cx: [lambda eng, s, v: isinstance(v, Ref) and isinstance(s.store[v.loc], ListO)], loops=[LoopSpec(fa_inv)])
cx_.results_at_calls = lambda cx: [any_int_list(cx)]
cx_.field_types = {'index': int_list}
C[(F, 'DisjointEstimate.find_all')] = cx_
C[(F, 'DisjointEstimate.find')] = Contract(F, 'DisjointEstimate.find', params=[('self', mkself('DisjointEstimate', None)), ('x', T)], pre=lambda cx: de_inv(lst(cx)), results=lambda cx: [INT],
    post=lambda cx: [('the only overlapping member', z3.And(rg(lst(cx), cx.result.e), FA([o], z3.Implies(rg(lst(cx), o), ovl(cx.e('x'), at(lst(cx), o)) == (o == cx.result.e)), at(lst(cx), o))))],
    exc={'KeyError': lambda cx: [('only when not exactly one member overlaps', z3.Not(z3.Exists([q], z3.And(rg(lst(cx), q), FA([o], z3.Implies(rg(lst(cx), o), ovl(cx.e('x'), at(lst(cx), o)) == (o == q)), at(lst(cx), o))))))]})

# ---- constructors: the invariant holds, and every given element is represented
in_n, in_a = z3.Int('in_n'), z3.Const('in_a', AT)
def init_contract(cls, inv, rel, covers, fld):
    def post(cx, upto=None):
        l = lst(cx)
        m = in_n if upto is None else upto
        return [*inv(l), ('every given element is represented', FA([o], z3.Implies(z3.And(0 <= o, o < m), z3.Exists([p], z3.And(rg(l, p), covers(at(l, p), S(in_a, o))))), S(in_a, o)))]
    ps = [('self', mkself(cls, rel, empty=True)), ('xs', lambda eng, st, nm: st.alloc(ListO(T, in_n, in_a)))]
    if fld: ps.append((fld, lambda eng, st, nm: Opaque(rel)))
    cx_ = Contract(F, cls + '.__init__', params=ps, pre=lambda cx: [('length', in_n >= 0)], post=post, modifies=lambda cx: [], loops=[LoopSpec(lambda L: post(L, L.it['i']) + [('index', z3.And(0 <= L.it['i'], L.it['i'] <= in_n))])])
    cx_.field_types = {'xs': lambda: ListO(T, z3.IntVal(0), z3.Const('xs_init', AT))}
    C[(F, cls + '.__init__')] = cx_
init_contract('NoDupsSet', nd_inv, 'same', same, 'same')
init_contract('MostGeneralSet', mg_inv, 'cov', cov, 'covers')
init_contract('DisjointEstimate', de_inv, None, cov, None)
