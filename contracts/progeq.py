"""Contracts for program equality (property C13, dyna/program.py): two programs are equal iff their rules are the same MULTISET of
rule classes.  Rule sameness is an abstract equivalence relation with equal hashes on each class (what C03/C13's rule part establishes
for the real Rule.same); cnt(A, n, c) = how many of A[0..n) belong to the class of c.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/program.py'
R = OBJ('AnyRule')
RS, I, B = R.sort, z3.IntSort(), z3.BoolSort()
AR = z3.ArraySort(I, RS)
LR = ListT(R)
same = z3.Function('rule_same', RS, RS, B)
h = z3.Function('rule_hash', RS, I)
cnt = z3.Function('cnt', AR, I, RS, I)
rmv = z3.Function('rmv', AR, I, AR)
wit = z3.Function('wit', AR, I, RS, I)
A, A2 = z3.Consts('A_ A2_', AR)
c, d, x, y, w_ = z3.Consts('c_ d_ x_ y_ w_', RS)
n, m, j, k = z3.Ints('n_ m_ j_ k_')
S = z3.Select
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
def MP(*a): return z3.MultiPattern(*a)
def is_(a, b): return z3.If(same(a, b), 1, 0)
EQUIV = [FA([x], same(x, x), same(x, x)), FA([x, y], same(x, y) == same(y, x), same(x, y)), FA([x, y, w_], z3.Implies(z3.And(same(x, y), same(y, w_)), same(x, w_)), MP(same(x, y), same(y, w_))),
         FA([x, y], z3.Implies(same(x, y), h(x) == h(y)), same(x, y))]
def d0(A, c): return cnt(A, z3.IntVal(0), c) == 0
def dS(A, n, c): return z3.Implies(n >= 0, cnt(A, n + 1, c) == cnt(A, n, c) + is_(S(A, n), c))
DEFS = [FA([A, c], d0(A, c), cnt(A, 0, c)), FA([A, n, c], dS(A, n, c), cnt(A, n + 1, c)),
        FA([A, j, k], z3.Implies(k >= 0, S(rmv(A, j), k) == z3.If(k < j, S(A, k), S(A, k + 1))), S(rmv(A, j), k))]
# the lemmas, in the order in which they are proved
def l_store(n): return z3.Implies(n <= m, cnt(z3.Store(A, m, x), n, c) == cnt(A, n, c))
def l_nonneg(n): return cnt(A, n, c) >= 0
def l_wit(n): return z3.Implies(cnt(A, n, c) > 0, z3.Exists([k], z3.And(0 <= k, k < n, same(S(A, k), c))))
def l_has(n): return z3.Implies(z3.And(0 <= k, k < n, same(S(A, k), c)), cnt(A, n, c) > 0)
def l_cls(n): return z3.Implies(same(c, d), cnt(A, n, c) == cnt(A, n, d))
def l_rm1(n): return z3.Implies(n <= j, cnt(rmv(A, j), n, c) == cnt(A, n, c))
def l_rm2(n): return z3.Implies(n >= j, cnt(rmv(A, j), n, c) + is_(S(A, j), c) == cnt(A, n + 1, c))
def l_mono(n): return z3.Implies(z3.And(0 <= m, m <= n), cnt(A, m, c) <= cnt(A, n, c))
# sub-multisets of the same size are equal:  le(A, n, B, m): all class counts <=
le = z3.Function('sub_multiset', AR, I, AR, I, B)
bad = z3.Function('bad_class', AR, I, AR, I, RS)
LEDEF = [FA([A, n, A2, m, c], z3.Implies(le(A, n, A2, m), cnt(A, n, c) <= cnt(A2, m, c)), MP(le(A, n, A2, m), cnt(A, n, c)), MP(le(A, n, A2, m), cnt(A2, m, c))),
         FA([A, n, A2, m], z3.Implies(z3.Not(le(A, n, A2, m)), cnt(A, n, bad(A, n, A2, m)) > cnt(A2, m, bad(A, n, A2, m))), le(A, n, A2, m))]
def l_sub(n): return FA([A2, m], z3.Implies(z3.And(m >= 0, le(A, n, A2, m)), z3.And(n <= m, z3.Implies(n == m, FA([c], cnt(A, n, c) == cnt(A2, m, c), cnt(A, n, c))))), le(A, n, A2, m))
PROVED = {
 'store': lambda: FA([A, m, x, n, c], z3.Implies(n >= 0, l_store(n)), cnt(z3.Store(A, m, x), n, c)),
 'nonneg': lambda: FA([A, n, c], z3.Implies(n >= 0, l_nonneg(n)), cnt(A, n, c)),
 'mono': lambda: FA([A, m, n, c], z3.Implies(n >= 0, l_mono(n)), MP(cnt(A, m, c), cnt(A, n, c))),
 'more': lambda: FA([A, m, n, c], z3.Implies(z3.And(0 <= m, m < n, same(S(A, m), c)), cnt(A, m, c) + 1 <= cnt(A, n, c)), MP(cnt(A, m, c), cnt(A, n, c))),
 'wit': lambda: FA([A, n, c], z3.Implies(z3.And(n >= 0, cnt(A, n, c) > 0), z3.And(0 <= wit(A, n, c), wit(A, n, c) < n, same(S(A, wit(A, n, c)), c))), cnt(A, n, c)),
 'has': lambda: FA([A, n, c, k], z3.Implies(n >= 0, l_has(n)), MP(cnt(A, n, c), same(S(A, k), c))),
 'cls': lambda: FA([A, n, c, d], z3.Implies(n >= 0, l_cls(n)), MP(same(c, d), cnt(A, n, c), cnt(A, n, d))),
 'rm': lambda: FA([A, j, n, c], z3.Implies(z3.And(0 <= j, j < n), cnt(rmv(A, j), n - 1, c) + is_(S(A, j), c) == cnt(A, n, c)), MP(rmv(A, j), cnt(A, n, c))),
}
def LEMMAS():
    out, zero = [], z3.IntVal(0)
    ax = EQUIV + DEFS
    def induct(name, P, hyps=(), axs=(), step=()):
        out.append((name + ': base', list(hyps), P(zero), ax + list(axs)))
        out.append((name + ': step', [*hyps, n >= 0, P(n), *step], P(n + 1), ax + list(axs)))
    stp = lambda *As: [dS(a, n, cc) for a in As for cc in (c, d)]
    induct('writing at or past the end', l_store, step=stp(z3.Store(A, m, x), A))
    induct('counts are not negative', l_nonneg, step=stp(A))
    induct('counts grow with the prefix', l_mono, step=stp(A), axs=[PROVED['nonneg']()])
    out.append(('a member counts', [0 <= m, m < n, same(S(A, m), c), dS(A, m, c)], cnt(A, m, c) + 1 <= cnt(A, n, c), ax + [PROVED['nonneg'](), FA([m, n], z3.Implies(n >= 0, l_mono(n)), MP(cnt(A, m, c), cnt(A, n, c)))]))
    induct('a positive count has a member', l_wit, step=stp(A))
    induct('a member makes the count positive', l_has, step=stp(A), axs=[PROVED['nonneg']()])
    induct('counts depend on the class only', l_cls, step=stp(A))
    induct('removal: before', l_rm1, hyps=[j >= 0], step=stp(A, rmv(A, j)))
    J = [j >= 0, d0(A, c), l_rm1(j), dS(A, n, c), dS(A, n + 1, c), dS(rmv(A, j), n, c), dS(A, j, c)]
    out.append(('removal: after, base', J, l_rm2(j), ax))
    out.append(('removal: after, step', J + [n >= j, l_rm2(n)], l_rm2(n + 1), ax))
    out.append(('removal', J + [j < n, l_rm2(n - 1)], cnt(rmv(A, j), n - 1, c) + is_(S(A, j), c) == cnt(A, n, c), ax))
    P = [PROVED[q]() for q in ('nonneg', 'wit', 'has', 'cls', 'rm')]
    B0, m0 = z3.Const('B0_', AR), z3.Int('m0_')
    a0 = S(A, n)
    out.append(('sub-multiset: base', [m >= 0, n == 0, le(A, n, B0, m)], z3.And(n <= m, z3.Implies(m == 0, cnt(A, n, c) == cnt(B0, m, c))), ax + LEDEF + P))
    j0 = wit(B0, m0, a0)
    H = [n >= 0, m0 >= 0, l_sub(n), le(A, n + 1, B0, m0), dS(A, n, c), dS(A, n, a0), cnt(A, n + 1, a0) <= cnt(B0, m0, a0), dS(A, n, bad(A, n, rmv(B0, j0), m0 - 1))]
    out.append(('sub-multiset: step, the class of the last rule occurs', H, z3.And(0 <= j0, j0 < m0, same(S(B0, j0), a0)), ax + LEDEF + P))
    H2 = H + [z3.And(0 <= j0, j0 < m0, same(S(B0, j0), a0))]
    b_ = bad(A, n, rmv(B0, j0), m0 - 1)
    out.append(('sub-multiset: step, the rests are related', H2 + [cnt(B0, m0, b_) >= cnt(A, n + 1, b_)], le(A, n, rmv(B0, j0), m0 - 1), ax + LEDEF + P))
    out.append(('sub-multiset: step', H2 + [le(A, n, rmv(B0, j0), m0 - 1)], z3.And(n + 1 <= m0, z3.Implies(n + 1 == m0, cnt(A, n + 1, c) == cnt(B0, m0, c))), ax + LEDEF + P))
    return out
SUBFACT = lambda: FA([A, n, A2, m, c], z3.Implies(z3.And(n >= 0, m >= 0, le(A, n, A2, m), n == m), cnt(A, n, c) == cnt(A2, m, c)), MP(le(A, n, A2, m), cnt(A, n, c)), MP(le(A, n, A2, m), cnt(A2, m, c)))
SUBLEN = lambda: FA([A, n, A2, m], z3.Implies(z3.And(n >= 0, m >= 0, le(A, n, A2, m)), n <= m), le(A, n, A2, m))

SIG = OBJ('ProgramSignature')
psig = z3.Function('program_signature', AR, I, SIG.sort)
shash = z3.Function('signature_hash', SIG.sort, I)
df = z3.Function('differing_class', AR, I, AR, I, RS)
# what is assumed about signatures: they depend on the multiset of rule classes only
SIGDEF = [FA([A, n, A2, m], z3.Implies(z3.And(n == m, cnt(A, n, df(A, n, A2, m)) == cnt(A2, m, df(A, n, A2, m))), psig(A, n) == psig(A2, m)), MP(psig(A, n), psig(A2, m)))]
def prog(st, v):
    if isinstance(v, Ref) and isinstance(st.store[v.loc], Rec) and st.store[v.loc].cls == (F, 'Program'): return st.store[st.store[v.loc].fields['rules'].loc]

class Programs(Theory):
    def axioms(self, eng): return SIGDEF + EQUIV + DEFS + [f() for f in PROVED.values()] + LEDEF + [SUBFACT(), SUBLEN()]
    def removed(self, eng, st, old, new, j): st.assume(new == rmv(old.arr, j))
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == R:
            if name == 'same': return [(st, Bound(v, name))]
            if name == '_hash_cache': return [(st, Z(h(v.e), INT))]
        o = prog(st, v)
        if o is not None and name == 'signature': return [(st, Z(psig(o.arr, o.n), SIG))]
        if o is not None and name == '_hash_cache': return [(st, Z(shash(psig(o.arr, o.n)), INT))]
        return None
    def norm_iter(self, eng, st, v):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], Rec) and 'rules' in st.store[v.loc].fields: return st.store[v.loc].fields['rules']
        return None
    def length(self, eng, st, v):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], Rec) and 'rules' in st.store[v.loc].fields: return Z(st.store[st.store[v.loc].fields['rules'].loc].n, INT)
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Bound) and isinstance(f.obj, Z) and f.obj.ty == R and f.name == 'same' and len(args) == 1:
            return [(st, Z(same(f.obj.e, eng.lift(args[0], R).e), BOOL))]
        return None
THEORY = Programs()
C = {}
def local(L, name):
    v = L.st.frames[L.eng.top_frame].get(name)
    if v is None: raise Unsupported(f'local {name} not found')
    return v
def lloc(L, name, st=None):
    o = L.eng.read(st or L.st, local(L, name))
    if not isinstance(o, ListO): raise Unsupported(f'local {name} is not a list')
    return o
def arg(cx, name):
    o = cx.eng.read(cx.st0, cx[name])
    if not isinstance(o, ListO): raise Unsupported(f'{name} is not a list')
    return o
def LIST(nm_):
    return lambda eng, st, nm: st.alloc(ListO(R, z3.Int(nm_ + '_n'), z3.Const(nm_ + '_a', AR)))
def sizes(cx, *names): return [('length of ' + q, arg(cx, q).n >= 0) for q in names]

# ================================================================ _check_bucket
def cb_post(cx):
    r, s = arg(cx, 'Rb'), arg(cx, 'Sb')
    return [('True: every class occurs at least as often in Sb', z3.Implies(cx.result.e, le(r.arr, r.n, s.arr, s.n))),
            ('False: some class occurs more often in Rb', z3.Implies(z3.Not(cx.result.e), z3.Not(le(r.arr, r.n, s.arr, s.n))))]
def cb_outer(L):
    r, s0, s = arg(L, 'Rb'), arg(L, 'Sb'), lloc(L, 'Sb')
    return [('length', s.n >= 0), ('what is left plus what was matched is Sb', FA([c], cnt(s.arr, s.n, c) + cnt(r.arr, L.it['i'], c) == cnt(s0.arr, s0.n, c), cnt(s.arr, s.n, c), cnt(r.arr, L.it['i'], c), cnt(s0.arr, s0.n, c)))]
def cb_inner(L):
    s, rr = lloc(L, 'Sb'), local(L, 'r')
    return [('not among those seen', FA([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), z3.Not(same(rr.e, S(s.arr, k)))), S(s.arr, k)))]
C[(F, 'Program._check_bucket')] = Contract(F, 'Program._check_bucket', params=[('Rb', LIST('Rb')), ('Sb', LIST('Sb'))], pre=lambda cx: sizes(cx, 'Rb', 'Sb'),
    post=cb_post, results=lambda cx: [BOOL], loops=[LoopSpec(cb_outer), LoopSpec(cb_inner)])

# ================================================================ bucketing and the comparison of two rule lists
def bmap():
    m = MapO(INT, LR, z3.EmptySet(I), z3.Const(fresh_name('nobucket'), z3.ArraySort(I, LR.sort)))
    m.default = LR.empty()
    return m
def mloc(L, name):
    o = L.eng.read(L.st, local(L, name))
    if not isinstance(o, MapO) or o.vty != LR: raise Unsupported(f'local {name} is not a map of lists')
    return o
b_ = z3.Int('b_')
def bucketed(M, A, i):
    "M groups A[0..i) by hash"
    L, N = (lambda b: LR.arr(S(M.val, b))), (lambda b: LR.n(S(M.val, b)))
    return [('index', i >= 0), ('a key has rules, the first of which occurs', FA([b_], z3.Implies(S(M.dom, b_), z3.And(N(b_) > 0, h(S(L(b_), 0)) == b_, cnt(A, i, S(L(b_), 0)) > 0)), S(M.dom, b_))),
            ('rules are under their hash', FA([b_, k], z3.Implies(z3.And(S(M.dom, b_), 0 <= k, k < N(b_)), h(S(L(b_), k)) == b_), S(L(b_), k))),
            ('a bucket holds the classes with that hash', FA([b_, c], z3.Implies(S(M.dom, b_), cnt(L(b_), N(b_), c) == z3.If(h(c) == b_, cnt(A, i, c), 0)), cnt(L(b_), N(b_), c))),
            ('every class is in its bucket', FA([c], cnt(A, i, c) == z3.If(S(M.dom, h(c)), cnt(L(h(c)), N(h(c)), c), 0), cnt(A, i, c)))]
def eq_contract(qual, params, lists, pre):
    def two(cx): return lists(cx)
    def post(cx):
        a_, b2 = two(cx)
        return [('True: every class occurs at least as often in the second', z3.Implies(cx.result.e, z3.And(a_.n == b2.n, le(a_.arr, a_.n, b2.arr, b2.n)) if qual.endswith('symbolic_equal') else z3.Implies(cx.result.e, le(a_.arr, a_.n, b2.arr, b2.n)))),
                ('False: the multisets differ', z3.Implies(z3.Not(cx.result.e), z3.Exists([c], cnt(a_.arr, a_.n, c) != cnt(b2.arr, b2.n, c))) if not qual.endswith('symbolic_equal') else
                 z3.Implies(z3.Not(cx.result.e), z3.Or(a_.n != b2.n, z3.Exists([c], cnt(a_.arr, a_.n, c) != cnt(b2.arr, b2.n, c)))))]
    def one(name, which): return LoopSpec(lambda L: bucketed(mloc(L, name), two(L)[which].arr, L.it['i']) + (bucketed(mloc(L, 'R'), two(L)[0].arr, two(L)[0].n) if which else []))
    def scan(L):
        Rm, Sm = mloc(L, 'R'), mloc(L, 'S')
        dn = L.it['seen']
        lr = lambda M, b: (LR.arr(S(M.val, b)), LR.n(S(M.val, b)))
        return [('buckets compared so far', FA([b_], z3.Implies(S(dn, b_), le(*lr(Rm, b_), *lr(Sm, b_))), S(dn, b_)))]
    q = Contract(F, qual, params=params, pre=pre, post=post, results=lambda cx: [BOOL], loops=[one('R', 0), one('S', 1), LoopSpec(scan)])
    q.field_types = {'R': bmap, 'S': bmap}
    C[(F, qual)] = q
eq_contract('Program._symbolic_equal', [('rules_a', LIST('rules_a')), ('rules_b', LIST('rules_b'))], lambda cx: (arg(cx, 'rules_a'), arg(cx, 'rules_b')), lambda cx: sizes(cx, 'rules_a', 'rules_b'))
def PROG(nm_):
    return lambda eng, st, nm: st.alloc(Rec((F, 'Program'), {'rules': st.alloc(ListO(R, z3.Int(nm_ + '_n'), z3.Const(nm_ + '_a', AR)))}))
def rules(cx, name):
    v = cx.st0.store[cx[name].loc].fields['rules']
    return cx.st0.store[v.loc]
eq_contract('Program._bucket_equal', [('self', PROG('self')), ('other', PROG('other'))], lambda cx: (rules(cx, 'self'), rules(cx, 'other')), lambda cx: [('lengths', z3.And(rules(cx, 'self').n >= 0, rules(cx, 'other').n >= 0))])

def eq_post(cx):
    a_, b2 = rules(cx, 'self'), rules(cx, 'other')
    return [('True: the same multiset of rule classes', z3.Implies(cx.result.e, z3.And(a_.n == b2.n, FA([c], cnt(a_.arr, a_.n, c) == cnt(b2.arr, b2.n, c), cnt(a_.arr, a_.n, c))))),
            ('False: the multisets differ', z3.Implies(z3.Not(cx.result.e), z3.Or(a_.n != b2.n, z3.Exists([c], cnt(a_.arr, a_.n, c) != cnt(b2.arr, b2.n, c)))))]
C[(F, 'Program.__eq__')] = Contract(F, 'Program.__eq__', params=[('self', PROG('self')), ('other', PROG('other'))], pre=lambda cx: [('lengths', z3.And(rules(cx, 'self').n >= 0, rules(cx, 'other').n >= 0))], post=eq_post, results=lambda cx: [BOOL])
