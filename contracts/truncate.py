"""Contract for truncate_term (C27): the depth limit of the type analyzer.

sig is an ARBITRARY valuation of the variables; a variable created by a call of truncate_term(x, .) is valued sig(v) = val(x),
the choice of its value that the argument makes.  Proved: val(result) = val(x), so every instance of x is an instance of the
result (the result covers x, and no two positions are tied together that x does not tie); and the result is at most D deep.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.values import *
from pydv.terms import *
from pydv import terms as TM
from . import terms_unify as TU

TFILE, FILE = 'dyna/term.py', 'dyna/analyze/types.py'
C_ = {}
BS = z3.BoolSort()
dp, dpl = z3.Function('depth', PV, I), z3.Function('depthl', PL, I)
DP = [FA([i], dp(V(i)) == 0, V(i)), FA([c], dp(C(c)) == 0, C(c)), FA([l], dp(T(l)) == 1 + dpl(l), T(l)), dpl(nil) == 0, FA([h, l], dpl(cons(h, l)) == If(dp(h) >= dpl(l), dp(h), dpl(l)), cons(h, l))]
ub, ubl = z3.Function('unb', HS, PV, BS), z3.Function('unbl', HS, PL, BS)
UB = [FA([H, i], ub(H, V(i)) == (S(H, i) == Null), ub(H, V(i))), FA([H, c], ub(H, C(c)), ub(H, C(c))), FA([H, l], ub(H, T(l)) == ubl(H, l), ub(H, T(l))), FA([H], ubl(H, nil), ubl(H, nil)), FA([H, h, l], ubl(H, cons(h, l)) == And(ub(H, h), ubl(H, l)), ubl(H, cons(h, l)))]
SN_END = [FA([H, x], Imp(isV(sn(H, x)), S(H, PV.vid(sn(H, x))) == Null), sn(H, x))]
DPP = [FA([l], dpl(l) >= 0, dpl(l))]
wa, wal, wH = z3.Function('wt', PV, BS), z3.Function('wtl', PL, BS), z3.Function('wH', HS, BS)
WA = [FA([i], wa(V(i)), V(i)), FA([c], wa(C(c)), C(c)), Not(wa(Null)), FA([l], Not(wa(Tu(l))), Tu(l)), FA([l], Not(wa(Li(l))), Li(l)),
      FA([l], wa(T(l)) == And(PL.is_cons(l), isC(PL.hd(l)), wal(l)), T(l)), wal(nil), FA([h, l], wal(cons(h, l)) == And(wa(h), wal(l)), cons(h, l))]
WA_SN = [FA([H, x], Imp(And(wH(H), wa(x)), wa(sn(H, x))), MP(wH(H), sn(H, x)))]

class TTheory(TermTheory):
    def fresh_facts(self, eng, st, n):
        return super().fresh_facts(eng, st, n) + [('its value is that of the argument', sig(n) == val(eng.lift(st.frames[eng.top_frame]['x'], PVT).e))]

THEORY = TTheory(extra=DP + DPP + WA + WA_SN + UB + SN_END)
ASSUMPTIONS = ['terms have a constant functor and contain no tuples or lists', 'structural induction over terms; termination is not proved']
def add(file, qual, **kw): C_[(file, qual)] = Contract(file, qual, **kw)
def shp(c, n='x'): return [('bindings well formed', And(WF(c.st.H), wH(c.st.H))), (f'{n} is a term', And(nn(c.e(n)), wa(c.e(n))))]
add(TFILE, 'snap', params=[('x', PVT)], pre=TU.pre_nn('x'), results=lambda c: [PVT], post=lambda c: [('result is the end of the binding chain', c.eng.lift(c.result, PVT).e == sn(c.st0.H, c.e('x')))], trusted='proved in terms_unify')
def mx(D): return If(D >= 0, D, 0)
def post(c):
    r = c.eng.lift(c.result, PVT).e
    return [('every instance of the term is an instance of the result', Imp(Mod(c.st0.H), val(r) == val(c.e('x')))), ('no bound variable is left', ub(c.st0.H, r)), ('the depth is limited', dp(r) <= mx(c.e('D')))]
def inv(L):
    w, r, res, rr = L.it['whole'], L.it['rest'], L.it['res'], L.it['rrest']
    k = mx(L.e('D') - 1)
    return [('the same instances so far', Imp(And(Mod(L.st0.H), vall(rr) == vall(r)), vall(res) == vall(w))), ('no bound variable so far', Imp(ubl(L.st0.H, rr), ubl(L.st0.H, res))), ('depth so far', Imp(dpl(rr) <= k, dpl(res) <= k)), ('rest', And(nnl(r), wal(r)))]
add(FILE, 'truncate_term', params=[('x', PVT), ('D', INT)], pre=shp, results=lambda c: [PVT], post=post, loops=[LoopSpec(inv)])

def LEMMAS(C=C):
    out = list(lemmas())
    H0, l0, a0, c0, i0 = z3.Const('H0', HS), z3.Const('l0', PL), z3.Const('a0', PV), z3.Const('c0', PyConst), z3.Int('i0')
    WB = [FA([H, i], Imp(And(wH(H), S(H, i) != Null), wa(S(H, i))), MP(wH(H), S(H, i)))]
    def sp(t): return And(Imp(And(wH(H0), wa(t)), wa(sn(H0, t))), Imp(isV(sn(H0, t)), S(H0, PV.vid(sn(H0, t))) == Null))
    A = defs_sn() + WA + WB
    out.append(('snap keeps terms: unbound variable', [S(H0, i0) == Null], sp(V(i0)), A)); out.append(('snap keeps terms: bound variable', [S(H0, i0) != Null, sp(S(H0, i0))], sp(V(i0)), A))
    for nm, t in (('constant', C(c0)), ('term', T(l0)), ('tuple', Tu(l0)), ('list', Li(l0))): out.append((f'snap keeps terms: {nm}', [], sp(t), A))
    out.append(('depths are not negative: nil', [], dpl(nil) >= 0, DP)); out.append(('depths are not negative: cons', [dpl(l0) >= 0], dpl(cons(a0, l0)) >= 0, DP))
    return out
C = C_
