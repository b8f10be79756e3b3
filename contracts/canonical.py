"""Contracts for canonicalize (C05).

A state is the map `vs` with the number of its entries.  nS(H, s, t) is the state after the variables of t have been
visited in order of first occurrence, cr(H, s, t) the term with each variable replaced by the canonical one.  The code
is proved to compute exactly these two; the lemmas prove, of these two, that equal results come from variants only
(back) and that variants give equal results (equivariance).
"""
import z3
from pydv.engine import Contract, Engine, LoopSpec
from pydv.values import *
from pydv.terms import *
from pydv import terms as TM
from . import terms_unify as TU

FILE = 'dyna/term.py'
C_ = {}
BS = z3.BoolSort()
DS = z3.ArraySort(I, BS)
_cs = z3.Datatype('CS'); _cs.declare('mk', ('dom', DS), ('mp', HS), ('cnt', I)); CS = _cs.create()
mk = CS.mk
def _sel(f): return lambda s: s.arg(('dom', 'mp', 'cnt').index(f.name())) if z3.is_app(s) and s.decl().eq(mk) else f(s)
dom, mp, cnt = _sel(CS.dom), _sel(CS.mp), _sel(CS.cnt)
nS, nSl = z3.Function('nS', HS, CS, PV, CS), z3.Function('nSl', HS, CS, PL, CS)
cr, crl = z3.Function('cr', HS, CS, PV, PV), z3.Function('crl', HS, CS, PL, PL)
cv, icv = z3.Function('cv', I, I), z3.Function('icv', I, I)
def card(D): return Engine.card(Engine, D)
s, D_ = z3.Const('qs', CS), z3.Const('qD', DS)
CV = [FA([i], icv(cv(i)) == i, cv(i))]
CARD = [card(z3.K(I, False)) == 0, FA([D_, i], card(St(D_, i, True)) == If(S(D_, i), card(D_), card(D_) + 1), card(St(D_, i, True))), FA([D_], card(D_) >= 0, card(D_))]
def visit(s, j): return If(S(dom(s), j), s, mk(St(dom(s), j, True), St(mp(s), j, V(cv(cnt(s)))), cnt(s) + 1))
def canon_of(s, j): return If(S(dom(s), j), S(mp(s), j), V(cv(cnt(s))))
DEF = [FA([H, s, j], nS(H, s, V(j)) == If(S(H, j) == Null, visit(s, j), nS(H, s, S(H, j))), nS(H, s, V(j))),
       FA([H, s, c], nS(H, s, C(c)) == s, nS(H, s, C(c))), FA([H, s, l], nS(H, s, T(l)) == nSl(H, s, l), nS(H, s, T(l))),
       FA([H, s], nSl(H, s, nil) == s, nSl(H, s, nil)), FA([H, s, h, l], nSl(H, s, cons(h, l)) == nSl(H, nS(H, s, h), l), nSl(H, s, cons(h, l))),
       FA([H, s, j], cr(H, s, V(j)) == If(S(H, j) == Null, canon_of(s, j), cr(H, s, S(H, j))), cr(H, s, V(j))),
       FA([H, s, c], cr(H, s, C(c)) == C(c), cr(H, s, C(c))), FA([H, s, l], cr(H, s, T(l)) == T(crl(H, s, l)), cr(H, s, T(l))),
       FA([H, s], crl(H, s, nil) == nil, crl(H, s, nil)), FA([H, s, h, l], crl(H, s, cons(h, l)) == cons(cr(H, s, h), crl(H, nS(H, s, h), l)), crl(H, s, cons(h, l)))]
SN_C = [FA([H, s, x], And(nS(H, s, sn(H, x)) == nS(H, s, x), cr(H, s, sn(H, x)) == cr(H, s, x)), MP(sn(H, x), nS(H, s, x))),
        FA([H, s, x], And(nS(H, s, sn(H, x)) == nS(H, s, x), cr(H, s, sn(H, x)) == cr(H, s, x)), MP(sn(H, x), cr(H, s, x)))]
# shapes: no tuples/lists/Ellipsis inside, in the bindings neither
wa, wal, wH = z3.Function('wa', PV, BS), z3.Function('wal', PL, BS), z3.Function('wH', HS, BS)
WA = [FA([i], wa(V(i)), V(i)), FA([c], wa(C(c)), C(c)), Not(wa(Null)), FA([l], Not(wa(Tu(l))), Tu(l)), FA([l], Not(wa(Li(l))), Li(l)), FA([l], wa(T(l)) == wal(l), T(l)),
      wal(nil), FA([h, l], wal(cons(h, l)) == And(wa(h), wal(l)), cons(h, l))]
SN_END = [FA([H, x], Imp(isV(sn(H, x)), S(H, PV.vid(sn(H, x))) == Null), sn(H, x))]
WA_SN = [FA([H, x], Imp(And(wH(H), wa(x)), wa(sn(H, x))), MP(wH(H), sn(H, x)))]

THEORY = TermTheory(extra=CV + CARD + DEF + SN_C + SN_END + WA + WA_SN)
ASSUMPTIONS = ['terms contain no tuples or lists (canonicalize leaves those as they are)',
               'structural and evaluation induction principles over terms with acyclic bindings; termination is not proved']

def add(qual, **kw): C_[(FILE, qual)] = Contract(FILE, qual, **kw)
add('snap', params=[('x', PVT)], pre=TU.pre_nn('x'), results=lambda c: [PVT], post=lambda c: [('result is the end of the binding chain', c.eng.lift(c.result, PVT).e == sn(c.st0.H, c.e('x')))], trusted='proved in terms_unify')
add('_canonicalize_var', params=[('i', INT)], pre=lambda c: [('index', c.e('i') >= 0)], results=lambda c: [PVT], post=lambda c: [('the i-th canonical variable', c.eng.lift(c.result, PVT).e == V(cv(c.e('i'))))],
    trusted='proved in cvars: the i-th entry of an append-only table of distinct variables')
def mk_vs(eng, st, name): return st.alloc(MapO(INT, PVT, z3.Const('vs_dom', DS), z3.Const('vs_val', HS)))
def vars_only(c):
    m_ = c.st.store[c['vs'].loc]
    return [('entries are variables', ForAll([i], Imp(S(m_.dom, i), isV(S(m_.val, i))), patterns=[S(m_.dom, i), S(m_.val, i)]))]
def state(st, ref):
    m_ = st.store[ref.loc]
    return mk(m_.dom, m_.val, card(m_.dom))
def shp(c, n): return [('bindings well formed', And(WF(c.st.H), wH(c.st.H))), (f'{n} is a term', And(nn(c.e(n)), wa(c.e(n))))]
def post(c):
    s0, s1 = state(c.st0, c['vs']), state(c.st, c['vs'])
    return [('variables are visited in order of first occurrence', s1 == nS(c.st0.H, s0, c.e('x'))), ('each variable is replaced by its canonical one', c.eng.lift(c.result, PVT).e == cr(c.st0.H, s0, c.e('x')))] + vars_only(c)
def inv(L):
    w, r, res, rr, Hh = L.it['whole'], L.it['rest'], L.it['res'], L.it['rrest'], L.st0.H
    s0, s1 = state(L.st0, L['vs']), state(L.st, L['vs'])
    return [('visited so far', nSl(Hh, s0, w) == nSl(Hh, s1, r)), ('replaced so far', Imp(rr == crl(Hh, s1, r), res == crl(Hh, s0, w))), ('rest', And(nnl(r), wal(r)))] + vars_only(L)
add('_canonicalize', params=[('x', PVT), ('vs', mk_vs)], pre=lambda c: shp(c, 'x') + vars_only(c), results=lambda c: [PVT], post=post, modifies=lambda c: [c['vs']], loops=[LoopSpec(inv)])
EMPTY = lambda val: mk(z3.K(I, False), val, z3.IntVal(0))
def last_map(st):
    rs = [o for o in st.store.values() if isinstance(o, MapO)]
    if not rs: raise Unsupported('no variable table')
    return rs[0]
v0 = z3.Const('dflt_pv', PV)
def canon_post(c):
    return [('numbered from the start', c.eng.lift(c.result, PVT).e == cr(c.st0.H, EMPTY(z3.K(I, v0)), c.e('X')))]
add('canonicalize', params=[('X', PVT)], pre=lambda c: shp(c, 'X'), results=lambda c: [PVT], post=canon_post)
C_[(FILE, 'canonicalize')].dict_types = (INT, PVT)

# ---------------------------------------------------------------- what the two functions guarantee
def LEMMAS(C=C):
    out = []
    H0, s0, s1, s2, s3 = z3.Const('H0', HS), z3.Const('s0', CS), z3.Const('s1', CS), z3.Const('s2', CS), z3.Const('s3', CS)
    i0, j0, k0, y0, l0, m0, a0, b0, c0, d0, x0 = z3.Int('i0'), z3.Int('j0'), z3.Int('k0'), z3.Const('y0', PV), z3.Const('l0', PL), z3.Const('m0', PL), z3.Const('a0', PV), z3.Const('b0', PV), z3.Const('c0', PyConst), z3.Const('d0', PyConst), z3.Const('x0', PV)
    shapes = [('constant', C(c0), []), ('term', T(l0), None)]
    # 1. snapping first does not matter (evaluation induction)
    def sp(t): return And(nS(H0, s0, sn(H0, t)) == nS(H0, s0, t), cr(H0, s0, sn(H0, t)) == cr(H0, s0, t), Imp(And(wH(H0), wa(t)), wa(sn(H0, t))), Imp(isV(sn(H0, t)), S(H0, PV.vid(sn(H0, t))) == Null))
    A = DEF + defs_sn() + WA + [FA([H, i], Imp(And(wH(H), S(H, i) != Null), wa(S(H, i))), MP(wH(H), S(H, i)))]
    out.append(('snap first: unbound variable', [S(H0, j0) == Null], sp(V(j0)), A))
    out.append(('snap first: bound variable', [S(H0, j0) != Null, sp(S(H0, j0))], sp(V(j0)), A))
    for nm, t, _ in shapes: out.append((f'snap first: {nm}', [], sp(t), A))
    # 2. bound variables: the result is that of the resolved term
    res, resl = z3.Function('res', HS, PV, PV), z3.Function('resl', HS, PL, PL)
    N0 = z3.K(I, Null)
    RES = [FA([H, j], res(H, V(j)) == If(S(H, j) == Null, V(j), res(H, S(H, j))), res(H, V(j))), FA([H, c], res(H, C(c)) == C(c), res(H, C(c))), FA([H, l], res(H, T(l)) == T(resl(H, l)), res(H, T(l))),
           FA([H], resl(H, nil) == nil, resl(H, nil)), FA([H, h, l], resl(H, cons(h, l)) == cons(res(H, h), resl(H, l)), resl(H, cons(h, l)))]
    def rp(t, s_=s0): return And(nS(N0, s_, res(H0, t)) == nS(H0, s_, t), cr(N0, s_, res(H0, t)) == cr(H0, s_, t))
    def rpl(t, s_=s0): return And(nSl(N0, s_, resl(H0, t)) == nSl(H0, s_, t), crl(N0, s_, resl(H0, t)) == crl(H0, s_, t))
    A = DEF + RES
    out.append(('resolved term: unbound variable', [S(H0, j0) == Null], rp(V(j0)), A))
    out.append(('resolved term: bound variable', [S(H0, j0) != Null, rp(S(H0, j0))], rp(V(j0)), A))
    out.append(('resolved term: constant', [], rp(C(c0)), A)); out.append(('resolved term: term', [rpl(l0)], rp(T(l0)), A))
    out.append(('resolved term: nil', [], rpl(nil), A)); out.append(('resolved term: cons', [rp(a0), rpl(l0, nS(H0, s0, a0))], rpl(cons(a0, l0)), A))
    # 3. variants have equal canonical forms: rho is an injective renaming
    rho, rinv = z3.Function('rho', I, I), z3.Function('rinv', I, I)
    ren, renl = z3.Function('ren', PV, PV), z3.Function('renl', PL, PL)
    REN = [FA([i], rinv(rho(i)) == i, rho(i)), FA([i], ren(V(i)) == V(rho(i)), ren(V(i))), FA([c], ren(C(c)) == C(c), ren(C(c))), FA([l], ren(T(l)) == T(renl(l)), ren(T(l))),
           renl(nil) == nil, FA([h, l], renl(cons(h, l)) == cons(ren(h), renl(l)), renl(cons(h, l)))]
    def rel(p, q): return And(cnt(p) == cnt(q), ForAll([j], And(S(dom(q), rho(j)) == S(dom(p), j), Imp(S(dom(p), j), S(mp(q), rho(j)) == S(mp(p), j))), patterns=[rho(j)]))
    def relg(p, q, t): return And(cnt(p) == cnt(q), S(dom(q), rho(t)) == S(dom(p), t), Imp(S(dom(p), t), S(mp(q), rho(t)) == S(mp(p), t)))
    def eq(t, p=s0, q=s1): return Imp(rel(p, q), And(rel(nS(N0, p, t), nS(N0, q, ren(t))), cr(N0, q, ren(t)) == cr(N0, p, t)))
    def eql(t, p=s0, q=s1): return Imp(rel(p, q), And(rel(nSl(N0, p, t), nSl(N0, q, renl(t))), crl(N0, q, renl(t)) == crl(N0, p, t)))
    A = DEF + REN
    vis = ForAll([j], relg(visit(s0, i0), visit(s1, rho(i0)), j), patterns=[rho(j)])
    out.append(('variants: variable, at each variable', [rel(s0, s1)], And(relg(visit(s0, i0), visit(s1, rho(i0)), j0), canon_of(s1, rho(i0)) == canon_of(s0, i0)), [FA([i], rinv(rho(i)) == i, rho(i)), rho(j0) == rho(j0), rinv(rho(i0)) == i0]))
    out.append(('variants: variable', [rel(s0, s1), vis, rel(visit(s0, i0), visit(s1, rho(i0))), canon_of(s1, rho(i0)) == canon_of(s0, i0)], And(rel(nS(N0, s0, V(i0)), nS(N0, s1, ren(V(i0)))), cr(N0, s1, ren(V(i0))) == cr(N0, s0, V(i0))),
                [nS(N0, s0, V(i0)) == visit(s0, i0), nS(N0, s1, V(rho(i0))) == visit(s1, rho(i0)), cr(N0, s0, V(i0)) == canon_of(s0, i0), cr(N0, s1, V(rho(i0))) == canon_of(s1, rho(i0)), ren(V(i0)) == V(rho(i0))]))
    out.append(('variants: constant', [], eq(C(c0)), A)); out.append(('variants: term', [eql(l0)], eq(T(l0)), A))
    out.append(('variants: nil', [], eql(nil), A))
    out.append(('variants: cons', [eq(a0), eql(l0, nS(N0, s0, a0), nS(N0, s1, ren(a0)))], eql(cons(a0, l0)), A))
    out.append(('variants: start', [], rel(EMPTY(z3.K(I, v0)), EMPTY(z3.K(I, v0))), []))
    # 4. equal canonical forms come from variants
    ap, apl = z3.Function('ap', CS, PV, PV), z3.Function('apl', CS, PL, PL)
    vin, vinl = z3.Function('vin', CS, PV, BS), z3.Function('vinl', CS, PL, BS)
    APD = [FA([s, i], ap(s, V(i)) == S(mp(s), i), ap(s, V(i))), FA([s, c], ap(s, C(c)) == C(c), ap(s, C(c))), FA([s, l], ap(s, T(l)) == T(apl(s, l)), ap(s, T(l))),
           FA([s], apl(s, nil) == nil, apl(s, nil)), FA([s, h, l], apl(s, cons(h, l)) == cons(ap(s, h), apl(s, l)), apl(s, cons(h, l))),
           FA([s, i], vin(s, V(i)) == S(dom(s), i), vin(s, V(i))), FA([s, c], vin(s, C(c)), vin(s, C(c))), FA([s, l], vin(s, T(l)) == vinl(s, l), vin(s, T(l))),
           FA([s], vinl(s, nil), vinl(s, nil)), FA([s, h, l], vinl(s, cons(h, l)) == And(vin(s, h), vinl(s, l)), vinl(s, cons(h, l)))]
    def ext(p, q): return ForAll([j], Imp(S(dom(p), j), And(S(dom(q), j), S(mp(q), j) == S(mp(p), j))), patterns=[S(dom(p), j), S(dom(q), j)])
    A = DEF + APD
    def e1(t, p=s0): return ext(p, nS(N0, p, t))
    def e1l(t, p=s0): return ext(p, nSl(N0, p, t))
    out.append(('only adds: variable', [], e1(V(i0)), A)); out.append(('only adds: constant', [], e1(C(c0)), A)); out.append(('only adds: term', [e1l(l0)], e1(T(l0)), A))
    out.append(('only adds: nil', [], e1l(nil), A)); out.append(('only adds: cons', [e1(a0), e1l(l0, nS(N0, s0, a0))], e1l(cons(a0, l0)), A))
    def st_(t): return Imp(And(ext(s0, s1), vin(s0, t)), And(vin(s1, t), ap(s1, t) == ap(s0, t)))
    def stl(t): return Imp(And(ext(s0, s1), vinl(s0, t)), And(vinl(s1, t), apl(s1, t) == apl(s0, t)))
    for nm, t, ih in (('variable', V(i0), []), ('constant', C(c0), []), ('term', T(l0), [stl(l0)])): out.append((f'stable: {nm}', ih, st_(t), A))
    out.append(('stable: nil', [], stl(nil), A)); out.append(('stable: cons', [st_(a0), stl(l0)], stl(cons(a0, l0)), A))
    def ra(t, p=s0): return And(vin(nS(N0, p, t), t), cr(N0, p, t) == ap(nS(N0, p, t), t))
    def ral(t, p=s0): return And(vinl(nSl(N0, p, t), t), crl(N0, p, t) == apl(nSl(N0, p, t), t))
    out.append(('a renaming: variable', [], ra(V(i0)), A)); out.append(('a renaming: constant', [], ra(C(c0)), A)); out.append(('a renaming: term', [ral(l0)], ra(T(l0)), A)); out.append(('a renaming: nil', [], ral(nil), A))
    n1 = nS(N0, s0, a0); n2 = nSl(N0, n1, l0)
    out.append(('a renaming: cons', [ra(a0), ral(l0, n1), ext(n1, n2), Imp(And(ext(n1, n2), vin(n1, a0)), And(vin(n2, a0), ap(n2, a0) == ap(n1, a0)))], ral(cons(a0, l0)), A))
    def inj(p): return And(ForAll([j], Imp(S(dom(p), j), And(S(mp(p), j) == V(cv(icv(PV.vid(S(mp(p), j))))), icv(PV.vid(S(mp(p), j))) < cnt(p), icv(PV.vid(S(mp(p), j))) >= 0)), patterns=[S(dom(p), j), S(mp(p), j)]), cnt(p) >= 0,
                           ForAll([i, j], Imp(And(S(dom(p), i), S(dom(p), j), S(mp(p), i) == S(mp(p), j)), i == j), patterns=[MP(S(dom(p), i), S(dom(p), j))]))
    A4 = DEF + CV
    out.append(('injective: variable, seen', [inj(s0), S(dom(s0), i0)], visit(s0, i0) == s0, CV))
    out.append(('injective: variable, new', [inj(s0), Not(S(dom(s0), i0))], inj(mk(St(dom(s0), i0, True), St(mp(s0), i0, V(cv(cnt(s0)))), cnt(s0) + 1)), CV))
    out.append(('injective: variable', [], nS(N0, s0, V(i0)) == visit(s0, i0), DEF)); out.append(('injective: constant', [], nS(N0, s0, C(c0)) == s0, DEF))
    out.append(('injective: term', [Imp(inj(s0), inj(nSl(N0, s0, l0)))], Imp(inj(s0), inj(nS(N0, s0, T(l0)))), DEF))
    out.append(('injective: cons', [Imp(inj(s0), inj(n1)), Imp(inj(n1), inj(n2))], Imp(inj(s0), inj(nSl(N0, s0, cons(a0, l0)))), DEF))
    out.append(('injective: start', [], inj(EMPTY(z3.K(I, v0))), CV))
    g, tr, trl = z3.Function('gback', I, I), z3.Function('tr', PV, PV), z3.Function('trl', PL, PL)
    TR = [FA([i], tr(V(i)) == V(g(i)), tr(V(i))), FA([c], tr(C(c)) == C(c), tr(C(c))), FA([l], tr(T(l)) == T(trl(l)), tr(T(l))), trl(nil) == nil, FA([h, l], trl(cons(h, l)) == cons(tr(h), trl(l)), trl(cons(h, l)))]
    # s2, s3: the states of x and y; g: which variable of y got the canonical variable of a variable of x
    GD = [ForAll([i, j], Imp(And(S(dom(s2), i), S(dom(s3), j), S(mp(s2), i) == S(mp(s3), j)), g(i) == j), patterns=[MP(S(dom(s2), i), S(dom(s3), j))])]
    hyp = [inj(s2), inj(s3)]
    def bk(p, q): return Imp(And(vin(s2, p), vin(s3, q), ap(s2, p) == ap(s3, q)), q == tr(p))
    def bkl(p, q): return Imp(And(vinl(s2, p), vinl(s3, q), apl(s2, p) == apl(s3, q)), q == trl(p))
    for n1_, p, q1 in (('variable', V(i0), 0), ('constant', C(c0), 0), ('term', T(l0), 1)):
        for n2_, q in (('variable', V(j0)), ('constant', C(d0)), ('term', T(m0))):
            out.append((f'back: {n1_}, {n2_}', hyp + ([bkl(l0, m0)] if n1_ == n2_ == 'term' else []), bk(p, q), APD + TR + GD))
    out.append(('back: nil, nil', hyp, bkl(nil, nil), APD + TR + GD)); out.append(('back: nil, cons', hyp, bkl(nil, cons(b0, m0)), APD + TR + GD)); out.append(('back: cons, nil', hyp, bkl(cons(a0, l0), nil), APD + TR + GD))
    out.append(('back: cons, cons', hyp + [bk(a0, b0), bkl(l0, m0)], bkl(cons(a0, l0), cons(b0, m0)), APD + TR + GD))
    return out

C = C_
