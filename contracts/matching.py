"""Contracts for matching one collection of subgoals into another (C07).

al is an ARBITRARY one-to-one map from the positions 0..n-1 of the pattern to positions.  Product._covers is proved to
yield the alignment al (restricted to the positions from the cursor on) exactly once when it is valid - its partners are
available and distinct, and extending the substitution along it never fails - and never otherwise, with the substitution
so obtained; every alignment it yields is a one-to-one map onto the remaining positions, with exactly the leftover
positions reported.  Product._match_comm yields each substitution as often as there are alignments that lead to it.
"""
import z3
from pydv.base import Theory
from pydv.engine import Contract, Engine, LoopSpec
from pydv.values import *

FILE = 'dyna/term.py'
C = {}
I, B = z3.IntSort(), z3.BoolSort()
DS, DV = z3.ArraySort(I, B), z3.ArraySort(I, I)
SEQ, PVT, SUB, SRT = Ty('subgoals', z3.DeclareSort('Subgoals')), Ty('subgoal', z3.DeclareSort('Subgoal')), Ty('subst', z3.DeclareSort('Subst')), Ty('sorted', DS)
n_, at = z3.Function('n_subgoals', SEQ.sort, I), z3.Function('subgoal_at', SEQ.sort, I, PVT.sort)
cov = z3.Function('extend', SUB.sort, PVT.sort, PVT.sort, SUB.sort)
FAIL, EMPTY = z3.Const('FAIL', SUB.sort), z3.Const('emptysubst', SUB.sort)
S, And, Or, Not, Imp, If = z3.Select, z3.And, z3.Or, z3.Not, z3.Implies, z3.If
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats))
def card(D): return Engine.card(Engine, D)
al, g = z3.Function('al', I, I), z3.Function('al_inv', I, I)
X, Y = z3.Const('X', SEQ.sort), z3.Const('Y', SEQ.sort)
valid, fin = z3.Function('valid', SEQ.sort, SEQ.sort, I, DS, SUB.sort, B), z3.Function('fin', SEQ.sort, SEQ.sort, I, SUB.sort, SUB.sort)
match, mw = z3.Function('is_al', SEQ.sort, I, DS, DV, B), z3.Function('is_al_w', SEQ.sort, I, DS, DV, I)
NA, SUMN = z3.Function('n_alignments', SEQ.sort, SEQ.sort, I, DS, SUB.sort, I), z3.Function('n_alignments_sum', SEQ.sort, SEQ.sort, I, DS, SUB.sort, DS, I)
tS = z3.Const('target', SUB.sort)
unf = z3.Function('unfold', I, B)        # the recursive definitions are unfolded at the cursor of the function under verification only
i, j, s, D, Vv, W = z3.Int('qi'), z3.Int('qj'), z3.Const('qs', SUB.sort), z3.Const('qD', DS), z3.Const('qV', DV), z3.Const('qW', DS)
def rm(D_, j_): return z3.Store(D_, j_, False)
def tgt(X_, i_, j_): return And(i_ <= g(j_), g(j_) < n_(X_), al(g(j_)) == j_)
def matchdef(X_, i_, D_, V_, j_): return And(S(D_, j_) == tgt(X_, i_, j_), Imp(S(D_, j_), S(V_, j_) == g(j_)))
DEFS = [FA([i], g(al(i)) == i, al(i)), FA([X], n_(X) >= 0, n_(X)),
        FA([X, Y, i, D, s], valid(X, Y, i, D, s) == And(s != FAIL, Or(i == n_(X), And(i < n_(X), S(D, al(i)), valid(X, Y, i + 1, rm(D, al(i)), cov(s, at(X, i), at(Y, al(i))))))), z3.MultiPattern(valid(X, Y, i, D, s), unf(i))),
        FA([X, Y, i, s], fin(X, Y, i, s) == If(i >= n_(X), s, fin(X, Y, i + 1, cov(s, at(X, i), at(Y, al(i))))), z3.MultiPattern(fin(X, Y, i, s), unf(i))),
        FA([X, i, D, Vv, j], Imp(match(X, i, D, Vv), matchdef(X, i, D, Vv, j)), z3.MultiPattern(match(X, i, D, Vv), S(D, j))),
        FA([X, i, D, Vv, j], Imp(And(match(X, i, D, Vv), i <= j, j < n_(X)), S(D, al(j))), z3.MultiPattern(match(X, i, D, Vv), al(j))),
        FA([X, i, D, Vv], Or(match(X, i, D, Vv), Not(matchdef(X, i, D, Vv, mw(X, i, D, Vv)))), match(X, i, D, Vv)),
        FA([a for a in (z3.Const('qp', PVT.sort), z3.Const('qp2', PVT.sort))], cov(FAIL, z3.Const('qp', PVT.sort), z3.Const('qp2', PVT.sort)) == FAIL, cov(FAIL, z3.Const('qp', PVT.sort), z3.Const('qp2', PVT.sort)))]
# bounded unfolding: the recursive definitions are applied where a term occurs, the ones they introduce are left alone
CARD = [card(z3.K(I, False)) == 0, FA([D], card(D) >= 0, card(D)), FA([D, j], card(rm(D, j)) == If(S(D, j), card(D) - 1, card(D)), rm(D, j)),
        FA([D, j], card(z3.Store(D, j, True)) == If(S(D, j), card(D), card(D) + 1), z3.Store(D, j, True))]
VC = [FA([X, Y, i, D, s], Imp(And(valid(X, Y, i, D, s), i <= n_(X)), n_(X) - i <= card(D)), valid(X, Y, i, D, s))]
NAD = [FA([X, Y, i, D, s], NA(X, Y, i, D, s) == If(Or(s == FAIL, n_(X) - i != card(D)), 0, If(i == n_(X), If(s == tS, 1, 0), SUMN(X, Y, i, D, s, D))), z3.MultiPattern(NA(X, Y, i, D, s), unf(i))),
       FA([X, Y, i, D, s], SUMN(X, Y, i, D, s, z3.K(I, False)) == 0, SUMN(X, Y, i, D, s, z3.K(I, False))),
       FA([X, Y, i, D, s, W, j], Imp(Not(S(W, j)), SUMN(X, Y, i, D, s, z3.Store(W, j, True)) == SUMN(X, Y, i, D, s, W) + NA(X, Y, i + 1, rm(D, j), cov(s, at(X, i), at(Y, j)))), SUMN(X, Y, i, D, s, z3.Store(W, j, True)))]
NANN = [FA([X, Y, i, D, s], NA(X, Y, i, D, s) >= 0, NA(X, Y, i, D, s))]

class MTheory(Theory):
    def axioms(self, eng): return DEFS + RNGD + CARD + VC + NAD + NANN
    def assume_params(self, eng, st, args, contract):
        if isinstance(args.get('i'), Z): st.assume(unf(args['i'].e))
    def coerce(self, eng, v, ty):
        if ty == SUB and isinstance(v, Py) and v.v is None: return Z(FAIL, SUB)
        return None
    def global_name(self, eng, name, module):
        if name == 'FAIL': return Z(FAIL, SUB)
        if name == 'Ellipsis': return Py(Ellipsis)
        return None
    def eq(self, eng, st, a, b):
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == b.ty == SUB: return a.e == b.e
        return None
    def is_(self, eng, st, a, b):
        if isinstance(a, Z) and a.ty == SUB and isinstance(b, (Z, Py)):
            if isinstance(b, Py) and b.v is not None: return False
            return a.e == eng.lift(b, SUB).e
        return None
    def isinst(self, eng, st, v, name):
        if isinstance(v, Z) and v.ty == SEQ: return name in ('Product', 'tuple')
        if isinstance(v, Z) and v.ty == INT: return name == 'int'
        if isinstance(v, Ref) and isinstance(st.store.get(v.loc), SetO): return name in ('set', 'frozenset')
        if isinstance(v, Z) and v.ty == SUB: return v.e != FAIL if name == 'Subst' else None
        return None
    def length(self, eng, st, v): return [(st, Z(n_(v.e), INT))] if isinstance(v, Z) and v.ty == SEQ else None
    def getitem(self, eng, st, o, k, line):
        if isinstance(o, Z) and o.ty == SEQ:
            k = eng.lift(k, INT).e
            eng.oblige(st, 'index in range', And(0 <= k, k < n_(o.e)), line)
            return [(st, Z(at(o.e, k), PVT))]
        return None
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == SUB and name in ('copy', 'cover'): 
            eng.oblige(st, 'no attribute of FAIL', v.e != FAIL, line)
            return [(st, Bound(v, name))]
        if isinstance(v, Z) and v.ty == SEQ and name in ('_covers', '_match_comm'):
            return [(st, Func(eng.class_methods((FILE, 'Product'))[name], FILE, selfv=v, qual='Product.' + name, cls=(FILE, 'Product')))]
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Bound) and isinstance(f.obj, Z) and f.obj.ty == SUB:
            if f.name == 'copy' and not args: return [(st, f.obj)]
            if f.name == 'cover' and len(args) == 2: return [(st, Z(cov(f.obj.e, eng.lift(args[0], PVT).e, eng.lift(args[1], PVT).e), SUB))]
        if isinstance(f, Builtin) and f.name in ('set', 'frozenset') and len(args) == 1 and isinstance(args[0], IterV) and args[0].kind == 'range' and len(args[0].args) == 1:
            return [(st, st.alloc(SetO(INT, RNG(eng.lift(args[0].args[0], INT).e))))]
        if isinstance(f, Cls) and f.name == 'Subst' and not args: return [(st, Z(EMPTY, SUB))]
        if isinstance(f, Builtin) and f.name == 'sorted' and len(args) == 1 and not kwargs:
            o = eng.read(st, args[0]) if isinstance(args[0], (Ref, Place)) else None
            if isinstance(o, SetO): return [(st, Z(o.arr, SRT))]
        return None
    def binop(self, eng, st, op, a, b, line):
        if type(op).__name__ == 'Sub' and all(isinstance(v, (Ref, Place)) and isinstance(eng.read(st, v), SetO) for v in (a, b)):
            p, q = eng.read(st, a), eng.read(st, b).arr
            if z3.is_store(q) and z3.is_const_array(q.arg(0)) and z3.is_true(q.arg(2)) and z3.is_false(q.arg(0).arg(0)): return [(st, st.alloc(SetO(p.ety, rm(p.arr, q.arg(1)))))]
        return None
    def iter_start(self, eng, st, it):
        if isinstance(it, Z) and it.ty == SRT: return {'kind': 'set', 'all': it.e, 'seen': z3.K(I, False), 'ety': INT}
        return None

THEORY = MTheory()
ASSUMPTIONS = ['Subst.cover, proved in terms_subst, is the function extend(s, x, y) here; it returns FAIL from FAIL; s.copy() is an independent copy',
               'sorted() of a set of positions is a function of that set; generators run to completion; termination is not proved']

def mk_js(eng, st, name): return st.alloc(SetO(INT, z3.Const('js', DS)))
def js(c, st=None): return (st or c.st).store[c['js'].loc].arr
def pre(c): return [('cursor', And(0 <= c.e('i'), c.e('i') <= n_(c.e('self')))), ('available positions exist', FA([j], Imp(S(js(c), j), And(0 <= j, j < n_(c.e('y')))), S(js(c), j))), ('unbound marker', EMPTY != FAIL)]
def parts(c):
    r = c.result
    if not isinstance(r, Tup) or len(r.items) != 3: raise Unsupported('yielded value')
    S_, A, R = r.items
    A = c.eng.read(c.st, A)
    if not isinstance(A, MapO) or not (isinstance(R, Z) and R.ty == SRT): raise Unsupported('yielded value')
    return c.eng.lift(S_, SUB).e, A, R.e
def cov_y(c):
    X_, i_, s_ = c.e('self'), c.e('i'), c.e('s')
    S_, A, R = parts(c)
    return [('a one-to-one map ...', FA([i, j], Imp(And(S(A.dom, i), S(A.dom, j), S(A.val, i) == S(A.val, j)), i == j), z3.MultiPattern(S(A.val, i), S(A.val, j)))),
            ('... from available positions ...', FA([j], Imp(S(A.dom, j), And(S(js(c), j), i_ <= S(A.val, j), S(A.val, j) < n_(X_))), S(A.dom, j))),
            ('... onto the remaining ones', card(A.dom) == n_(X_) - i_),
            ('the leftover positions', FA([j], S(R, j) == And(S(js(c), j), Not(S(A.dom, j))), S(R, j), S(A.dom, j))),
            ('the substitution of the alignment', Imp(match(X_, i_, A.dom, A.val), S_ == fin(X_, c.e('y'), i_, s_))), ('not FAIL', S_ != FAIL)]
def hit(c):
    _, A, _ = parts(c)
    return If(match(c.e('self'), c.e('i'), A.dom, A.val), 1, 0)
def total(c): return If(valid(c.e('self'), c.e('y'), c.e('i'), js(c), c.e('s')), 1, 0)
def hits(L, st=None): return (st or L.st).store[L['$hits'].loc].fields['n'].e
def cov_outer(L):
    i_ = L.e('i')
    return [('counted', hits(L) == If(And(S(L.it['seen'], al(i_)), valid(L.e('self'), L.e('y'), i_, js(L), L.e('s'))), 1, 0)), ('all available positions are tried', FA([j], S(L.it['all'], j) == S(js(L), j), S(L.it['all'], j)))]
def cov_inner(L):
    i_ = L.e('i')
    sub = L.entry.store[L.it['args']['js'].loc].arr
    return [('counted', hits(L) == hits(L, L.entry) + If(And(S(js(L), al(i_)), Not(S(sub, al(i_)))), L.it['total'] - L.it['left'], 0))]
def yres(c): return [Tup([Z(fresh(SUB, 'S'), SUB), c.st.alloc(MapO(INT, INT, z3.Const(fresh_name('A_dom'), DS), z3.Const(fresh_name('A_val'), DV))), Z(z3.Const(fresh_name('R'), DS), SRT)])]
def cardmap(c): return []
q = Contract(FILE, 'Product._covers', params=[('self', SEQ), ('y', SEQ), ('i', INT), ('js', mk_js), ('s', SUB)], pre=pre, gen='many', ypost=cov_y, results=yres, loops=[LoopSpec(cov_outer), LoopSpec(cov_inner)])
q.hit, q.total, q.total_label = hit, total, 'each valid alignment is yielded exactly once, others never'
q.dict_types = (INT, INT)
C[(FILE, 'Product._covers')] = q

# the public entry points: all positions of ys are available
RNG = z3.Function('positions', I, DS)
RNGD = [FA([i, j], S(RNG(i), j) == And(0 <= j, j < i), S(RNG(i), j))]
def noS(eng, st, args): args['s'] = Py(Ellipsis)
def s0(c): return EMPTY if isinstance(c['s'], Py) else c.e('s')
def mpre(c): return [('cursor', And(0 <= c.e('i'), c.e('i') <= n_(c.e('self')))), ('available positions exist', FA([j], Imp(S(js(c), j), And(0 <= j, j < n_(c.e('ys')))), S(js(c), j)))]
def m_outer(L): return [('counted', hits(L) == SUMN(L.e('self'), L.e('ys'), L.e('i'), js(L), L.e('s'), L.it['seen'])), ('all available positions are tried', L.it['all'] == js(L))]
def m_inner(L): return [('counted', hits(L) == hits(L, L.entry) + (L.it['total'] - L.it['left']))]
q = Contract(FILE, 'Product._match_comm', params=[('self', SEQ), ('ys', SEQ), ('i', INT), ('js', mk_js), ('s', SUB)], pre=mpre, gen='many', ypost=lambda c: [('not FAIL', c.eng.lift(c.result, SUB).e != FAIL)],
             results=lambda c: [SUB], loops=[LoopSpec(m_outer), LoopSpec(m_inner)])
q.hit = lambda c: If(c.eng.lift(c.result, SUB).e == tS, 1, 0)
q.total = lambda c: NA(c.e('self'), c.e('ys'), c.e('i'), js(c), c.e('s'))
q.total_label = 'each substitution is yielded once per alignment that leads to it'
C[(FILE, 'Product._match_comm')] = q

def res3(c):
    r = parts(c)
    return r
def whole(L): return [('counted', hits(L) == L.it['total'] - L.it['left'])]
def c_y(c):
    X_ = c.e('self')
    S_, A, R = parts(c)
    inr = lambda t: And(0 <= t, t < n_(c.e('ys')))
    return [('a one-to-one map ...', FA([i, j], Imp(And(S(A.dom, i), S(A.dom, j), S(A.val, i) == S(A.val, j)), i == j), z3.MultiPattern(S(A.val, i), S(A.val, j)))),
            ('... from positions of ys ...', FA([j], Imp(S(A.dom, j), And(inr(j), 0 <= S(A.val, j), S(A.val, j) < n_(X_))), S(A.dom, j))), ('... onto all positions', card(A.dom) == n_(X_)),
            ('the leftover positions', FA([j], S(R, j) == And(inr(j), Not(S(A.dom, j))), S(R, j), S(A.dom, j))), ('the substitution of the alignment', Imp(match(X_, 0, A.dom, A.val), S_ == fin(X_, c.e('ys'), 0, s0(c)))), ('not FAIL', S_ != FAIL)]
q = Contract(FILE, 'Product.covers', params=[('self', SEQ), ('ys', SEQ), ('s', SUB)], cases=[('s given', None), ('s omitted', noS)], gen='many', ypost=c_y, results=yres, loops=[LoopSpec(whole)],
             pre=lambda c: [('unbound marker', EMPTY != FAIL), ('a substitution', s0(c) != FAIL)])
def hit0(c):
    _, A, _ = parts(c)
    return If(match(c.e('self'), 0, A.dom, A.val), 1, 0)
q.hit, q.total, q.total_label = hit0, lambda c: If(valid(c.e('self'), c.e('ys'), 0, RNG(n_(c.e('ys'))), s0(c)), 1, 0), 'each valid alignment is yielded exactly once, others never'
C[(FILE, 'Product.covers')] = q

def mdflt(*ns):
    def f(eng, st, args):
        for n in ns: args[n] = {'i': Py(0), 'js': Py(None), 's': Py(Ellipsis)}[n]
    return f
def mjs(c): return RNG(n_(c.e('other'))) if isinstance(c['js'], Py) else js(c, c.st0)
def mi(c): return z3.IntVal(0) if isinstance(c['i'], Py) else c.e('i')
q = Contract(FILE, 'Product.match_comm', params=[('self', SEQ), ('other', SEQ), ('i', INT), ('js', mk_js), ('s', SUB)], cases=[('all given', None), ('defaults', mdflt('i', 'js', 's')), ('s given', mdflt('i', 'js'))], gen='many',
             pre=lambda c: [('unbound marker', EMPTY != FAIL), ('a substitution', s0(c) != FAIL), ('cursor', And(0 <= mi(c), mi(c) <= n_(c.e('self'))))] + ([] if isinstance(c['js'], Py) else [('available positions exist', FA([j], Imp(S(js(c), j), And(0 <= j, j < n_(c.e('other')))), S(js(c), j)))]),
             ypost=lambda c: [('not FAIL', c.eng.lift(c.result, SUB).e != FAIL)], results=lambda c: [SUB], loops=[LoopSpec(whole)])
q.hit = lambda c: If(c.eng.lift(c.result, SUB).e == tS, 1, 0)
q.total = lambda c: NA(c.e('self'), c.e('other'), mi(c), mjs(c), s0(c))
q.total_label = 'each substitution is yielded once per alignment that leads to it'
C[(FILE, 'Product.match_comm')] = q

def LEMMAS():
    out = []
    X0, Y0, i0, D0, s0, j0 = z3.Const('X0', SEQ.sort), z3.Const('Y0', SEQ.sort), z3.Int('i0'), z3.Const('D0', DS), z3.Const('s0', SUB.sort), z3.Int('j0')
    s1 = cov(s0, at(X0, i0), at(Y0, al(i0)))
    def vc(i_, D_, s_): return Imp(And(valid(X0, Y0, i_, D_, s_), i_ <= n_(X0)), n_(X0) - i_ <= card(D_))
    out.append(('a valid alignment has enough positions', [vc(i0 + 1, rm(D0, al(i0)), s1)], vc(i0, D0, s0), DEFS[:3] + CARD + [unf(i0)]))
    out.append(('numbers of alignments are not negative', [Imp(And(s0 != FAIL, n_(X0) - i0 == card(D0), i0 != n_(X0)), SUMN(X0, Y0, i0, D0, s0, D0) >= 0)], NA(X0, Y0, i0, D0, s0) >= 0, NAD[:1] + [unf(i0)]))
    out.append(('sums of alignments are not negative', [SUMN(X0, Y0, i0, D0, s0, W) >= 0, Not(S(W, j0)), NA(X0, Y0, i0 + 1, rm(D0, j0), cov(s0, at(X0, i0), at(Y0, j0))) >= 0],
                And(SUMN(X0, Y0, i0, D0, s0, z3.Store(W, j0, True)) >= 0, SUMN(X0, Y0, i0, D0, s0, z3.K(I, False)) >= 0), NAD[1:]))
    return out
