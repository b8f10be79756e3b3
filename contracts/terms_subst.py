"""Contracts for Subst (apply, mgu, one-way matching) and covers (C03, C04).

A Subst is viewed as the array A : variable -> term (Null outside its domain).
 * mgu(x, y), for an arbitrary valuation sig:  the solutions of the extended substitution are exactly the
   solutions of the old one that make x and y equal; FAIL only when there are none.
 * cover(x, y), for an arbitrary instantiation th of the pattern variables: th extends the extended substitution
   iff it extends the old one and th(x) = y; FAIL only when no such th exists.  (x's variables are the pattern
   variables, y's are not: standardised apart, as every caller that renames with fresh() guarantees.)
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.values import *
from pydv.terms import *
from pydv import terms as TM

FILE = 'dyna/term.py'
C_ = {}
BS = z3.BoolSort()

# ---- term shapes: no tuples/lists inside terms
wa, wal = z3.Function('wa', PV, BS), z3.Function('wal', PL, BS)
WA_AX = [FA([i], wa(V(i)), V(i)), FA([c], wa(C(c)), C(c)), Not(wa(Null)), FA([l], Not(wa(Tu(l))), Tu(l)), FA([l], Not(wa(Li(l))), Li(l)), FA([l], wa(T(l)) == wal(l), T(l)),
         wal(nil), FA([h, l], wal(cons(h, l)) == And(wa(h), wal(l)), cons(h, l))]
def wax(e): return Or(wa(e), And(isTu(e), wal(PV.telems(e))))
# ---- pattern variables / instantiation
pat = z3.Function('pat', I, BS)
allpat, allpatl, AP = all_vars('allpat', pat)
nopat, nopatl, NP = all_vars('nopat', lambda t: Not(pat(t)))
th = z3.Function('th', I, PV)
inst, instl = z3.Function('inst', PV, PV), z3.Function('instl', PL, PL)
INST = [FA([i], inst(V(i)) == If(pat(i), th(i), V(i)), inst(V(i))), FA([c], inst(C(c)) == C(c), inst(C(c))), FA([l], inst(T(l)) == T(instl(l)), inst(T(l))),
        FA([l], inst(Tu(l)) == Tu(instl(l)), inst(Tu(l))), instl(nil) == nil, FA([h, l], instl(cons(h, l)) == cons(inst(h), instl(l)), instl(cons(h, l)))]
INST_ID = [FA([x], Imp(And(nopat(x), wa(x)), inst(x) == x), inst(x)), FA([l], Imp(And(nopatl(l), wal(l)), instl(l) == l), instl(l)),
           FA([x], Imp(And(nopat(x), wa(x)), inst(x) == x), nopat(x))]
INST_LEN = [FA([l], plen(instl(l)) == plen(l), instl(l))]
Ext, WFC, WFS = z3.Function('Ext', HS, BS), z3.Function('WFC', HS, BS), z3.Function('WFS', HS, BS)
def ext_def(A): return Ext(A) == ForAll([i], Imp(S(A, i) != Null, th(i) == S(A, i)))
def wfc_cell(A, t): return Or(S(A, t) == Null, And(pat(t), nopat(S(A, t)), wa(S(A, t))))
def wfs_cell(A, t): return Or(S(A, t) == Null, wa(S(A, t)))
MAPS = [FA([H, i, y], Imp(And(S(H, i) == Null, y != Null), Ext(St(H, i, y)) == And(Ext(H), th(i) == y)), Ext(St(H, i, y))),
        FA([H, i], Imp(And(Ext(H), S(H, i) != Null), th(i) == S(H, i)), MP(Ext(H), S(H, i))),
        FA([H, i, y], Imp(And(WFC(H), pat(i), nopat(y), wa(y)), WFC(St(H, i, y))), WFC(St(H, i, y))),
        FA([H, i], Imp(WFC(H), wfc_cell(H, i)), MP(WFC(H), S(H, i))),
        FA([H, i, y], Imp(And(WFS(H), wa(y)), WFS(St(H, i, y))), WFS(St(H, i, y))),
        FA([H, i], Imp(WFS(H), wfs_cell(H, i)), MP(WFS(H), S(H, i))),
        FA([H], Imp(WFC(H), WFS(H)), WFC(H))]
# a pattern variable cannot occur in a pattern-free term through pattern-free bindings
NOOCC = [FA([H, i, x], Imp(And(WFC(H), pat(i), nopat(x)), Not(occ(H, i, x))), MP(WFC(H), occ(H, i, x)))]
ub = z3.Function('ub', HS, PV, BS); ubl = z3.Function('ubl', HS, PL, BS)
UB = [FA([H, j], ub(H, V(j)) == (S(H, j) == Null), ub(H, V(j))), FA([H, c], ub(H, C(c)), ub(H, C(c))),
      FA([H, l], ub(H, T(l)) == ubl(H, l), ub(H, T(l))), FA([H, l], ub(H, Tu(l)) == ubl(H, l), ub(H, Tu(l))),
      FA([H], ubl(H, nil), ubl(H, nil)), FA([H, h, l], ubl(H, cons(h, l)) == And(ub(H, h), ubl(H, l)), ubl(H, cons(h, l)))]

THEORY = TermTheory(tagged=True, pure=True, extra=WA_AX + AP + NP + INST + INST_ID + INST_LEN + MAPS + NOOCC + UB)
THEORY.dict_classes = {'Subst': (FILE, 'Subst')}
ASSUMPTIONS = ['terms without bound variables (the output of fresh/deref; bound ones are snapped by the callers), no tuples or lists nested inside terms',
               'constants compared modulo Python == (NaN excluded)', 'structural induction principles over terms; termination of mgu/__call__ is not proved',
               'for cover/covers: pattern and target share no variable (the library renames apart with fresh); the default OCCURS_CHECK_ENABLED=True']

def LEMMAS(C=C):
    out = lemmas(tagged=True)
    l0, a0, i0, c0, A0, y0, b0, j0 = z3.Const('l0', PL), z3.Const('a0', PV), z3.Int('i0'), z3.Const('c0', PyConst), z3.Const('A0', HS), z3.Const('y0', PV), z3.Const('b0', PV), z3.Int('j0')
    D = WA_AX + AP + NP + INST + defs_len() + LEN_POS
    def idp(t): return Imp(And(nopat(t), wa(t)), inst(t) == t)
    def idl(t): return Imp(And(nopatl(t), wal(t)), instl(t) == t)
    for nm, t, ih in (('variable', V(i0), []), ('constant', C(c0), []), ('term', T(l0), [idl(l0)]), ('tuple', Tu(l0), []), ('list', Li(l0), []), ('null', Null, [])):
        out.append((f'inst is the identity on pattern-free terms: {nm}', ih, idp(t), D))
    out.append(('inst identity: nil', [], idl(nil), D))
    out.append(('inst identity: cons', [idp(a0), idl(l0)], idl(cons(a0, l0)), D))
    out.append(('inst keeps lengths: nil', [], plen(instl(nil)) == plen(nil), D))
    out.append(('inst keeps lengths: cons', [plen(instl(l0)) == plen(l0)], plen(instl(cons(a0, l0))) == plen(cons(a0, l0)), D))
    St0 = St(A0, i0, y0)
    def alld(P, cell, A): return P(A) == ForAll([i], cell(A, i), patterns=[S(A0, i)])
    extc = lambda A, t: Imp(S(A, t) != Null, th(t) == S(A, t))
    for P, cell, nm in ((Ext, extc, 'Ext'), (WFC, wfc_cell, 'WFC'), (WFS, wfs_cell, 'WFS')):
        dd = [alld(P, cell, A0), alld(P, cell, St0)]
        out.append((f'{nm}: each cell', [P(A0)], Imp(BoolT(), cell(A0, j0)), dd + [S(A0, j0) == S(A0, j0)]))
        if P is Ext: out.append((f'{nm}: update', [S(A0, i0) == Null, y0 != Null], Ext(St0) == And(Ext(A0), th(i0) == y0), dd))
        elif P is WFC: out.append((f'{nm}: update', [WFC(A0), pat(i0), nopat(y0), wa(y0)], WFC(St0), dd))
        else: out.append((f'{nm}: update', [WFS(A0), wa(y0)], WFS(St0), dd))
    out.append(('WFC implies WFS', [WFC(A0)], WFS(A0), [alld(WFC, wfc_cell, A0), alld(WFS, wfs_cell, A0)]))
    DO = D + defs_occ() + MAPS
    def no(t): return Imp(nopat(t), Not(occ(A0, i0, t)))
    def nol_(t): return Imp(nopatl(t), Not(occl(A0, i0, t)))
    hyp = [WFC(A0), pat(i0)]
    for nm, t, ih in (('variable', V(j0), []), ('constant', C(c0), []), ('term', T(l0), [nol_(l0)]), ('tuple', Tu(l0), [nol_(l0)]), ('list', Li(l0), [nol_(l0)])):
        out.append((f'no occurrence in pattern-free terms: {nm}', hyp + ih, no(t), DO))
    out.append(('no occurrence: nil', hyp, nol_(nil), DO))
    out.append(('no occurrence: cons', hyp + [no(a0), nol_(l0)], nol_(cons(a0, l0)), DO))
    return out
def BoolT(): return z3.BoolVal(True)


def add(qual, **kw): C_[(FILE, qual)] = Contract(FILE, qual, **kw)
def mk_subst(eng, st, name):
    m_ = MapO(INT, PVT, z3.Const('s_dom', z3.ArraySort(I, BS)), z3.Const('s_val', HS))
    m_.cls = (FILE, 'Subst')
    return st.alloc(m_)
def A_(c, old_=False): return (c.st0 if old_ else c.st).store[c['self'].loc].val
def tied(m_): return ForAll([i], S(m_.dom, i) == (S(m_.val, i) != Null), patterns=[S(m_.dom, i), S(m_.val, i)])
def wfs(c):
    m_ = c.st.store[c['self'].loc]
    return [('domain and bindings agree', tied(m_)), ('bindings are terms', WFS(m_.val))]
def selfmod(c): return [c['self']]
def failed(c): return isinstance(c.result, Py) and c.result.v is None
def ok_or_fail(c): return [c['self'], NONE]

# ---- occurs check through the substitution
def oc_post(c):
    r, A, v, t = c.eng.lift(c.result, BOOL).e, A_(c), c.e('var'), c.e('x')
    return [('tells whether var occurs in x under the substitution', r == occ(A, PV.vid(v), t)),
            ('an occurrence rules out equality', Imp(And(r, Mod(A)), And(sz(val(v)) <= sz(val(t)), Imp(Not(isV(t)), sz(val(v)) < sz(val(t))))))]
def oc_inv(L):
    A, v, w, r = A_(L), PV.vid(L.e('var')), L.it['whole'], L.it['rest']
    return [('not found so far', occl(A, v, w) == occl(A, v, r)), ('rest is smaller', szl(vall(r)) <= szl(vall(w))), ('rest', wal(r))]
add('Subst.occur_check', params=[('self', mk_subst), ('var', PVT), ('x', PVT)],
    pre=lambda c: wfs(c) + [('var is a variable', isV(c.e('var'))), ('x is a term', wa(c.e('x')))], results=lambda c: [BOOL], post=oc_post, loops=[LoopSpec(oc_inv)])

# ---- most general unifier
def mgu_pre(c):
    x_, y_ = c.e('x'), c.e('y')
    return wfs(c) + [('x is a term or argument tuple', wax(x_)), ('y is a term or argument tuple', wax(y_)), ('same kind', isTu(x_) == isTu(y_))]
def mgu_post(c):
    e = val(c.e('x')) == val(c.e('y'))
    if failed(c): return [('FAIL only when no solution makes x and y equal', Not(And(Mod(A_(c, True)), e)))]
    return [('solutions are exactly those making x and y equal', Mod(A_(c)) == And(Mod(A_(c, True)), e))] + wfs(c)
def mgu_inv(L):
    (w1, w2), (r1, r2) = L.it['wholes'], L.it['rests']
    return [('solutions so far', And(Mod(A_(L)), vall(r1) == vall(r2)) == And(Mod(A_(L, True)), vall(w1) == vall(w2))),
            ('rest', And(wal(r1), wal(r2), plen(r1) == plen(r2)))] + wfs(L)
add('Subst.mgu', params=[('self', mk_subst), ('x', PVT), ('y', PVT)], pre=mgu_pre, results=ok_or_fail, post=mgu_post, modifies=selfmod, loops=[LoopSpec(mgu_inv)])

# ---- application
def app_post(c):
    r, A, x_ = c.eng.lift(c.result, PVT).e, A_(c), c.e('x')
    return [('every solution gives the result the value of x', Imp(Mod(A), val(r) == val(x_))), ('no substituted variable is left', ub(A, r)),
            ('shape kept', And(Imp(wa(x_), wa(r)), Imp(isTu(x_), And(isTu(r), wal(PV.telems(r))))))]
def app_inv(L):
    w, r, res, rr, A = L.it['whole'], L.it['rest'], L.it['res'], L.it['rrest'], A_(L)
    return [('same value so far', Imp(And(Mod(A), vall(rr) == vall(r)), vall(res) == vall(w))), ('resolved so far', Imp(ubl(A, rr), ubl(A, res))),
            ('terms so far', Imp(wal(rr), wal(res))), ('rest', wal(r))]
add('Subst.__call__', params=[('self', mk_subst), ('x', PVT)], pre=lambda c: wfs(c) + [('x is a term or argument tuple', wax(c.e('x')))],
    results=lambda c: [PVT], post=app_post, loops=[LoopSpec(app_inv)])

# ---- one-way matching
def cov_pre(c):
    m_ = c.st.store[c['self'].loc]
    return [('domain and bindings agree', tied(m_)), ('bindings map pattern variables to targets', WFC(m_.val)),
            ('x is a pattern', And(wa(c.e('x')), allpat(c.e('x')))), ('y is a target', And(wa(c.e('y')), nopat(c.e('y'))))]
def cov_inv0(c):
    m_ = c.st.store[c['self'].loc]
    return [('domain and bindings agree', tied(m_)), ('bindings map pattern variables to targets', WFC(m_.val))]
def cov_post(c):
    e = inst(c.e('x')) == c.e('y')
    if failed(c): return [('FAIL only when no extension of the substitution maps x to y', Not(And(Ext(A_(c, True)), e)))]
    return [('extensions are exactly those mapping x to y', Ext(A_(c)) == And(Ext(A_(c, True)), e))] + cov_inv0(c)
def cov_inv(L):
    (w1, w2), (r1, r2) = L.it['wholes'], L.it['rests']
    return [('matches so far', And(Ext(A_(L)), instl(r1) == r2) == And(Ext(A_(L, True)), instl(w1) == w2)),
            ('rest', And(wal(r1), wal(r2), allpatl(r1), nopatl(r2), plen(r1) == plen(r2)))] + cov_inv0(L)
add('Subst.cover', params=[('self', mk_subst), ('x', PVT), ('y', PVT)], pre=cov_pre, results=ok_or_fail, post=cov_post, modifies=selfmod, loops=[LoopSpec(cov_inv)])

def last_subst(st):
    rs = [o for o in st.store.values() if isinstance(o, MapO) and o.cls == (FILE, 'Subst')]
    return rs[-1] if rs else None
def covers_post(c):
    r, e = c.eng.lift(c.result, BOOL).e, inst(c.e('x')) == c.e('y')
    s = last_subst(c.st)
    out = [('False only when y is not an instance of x', Imp(Not(r), Not(e)))]
    if s is not None: out.append(('True comes with a substitution mapping x to y', Imp(And(r, Ext(s.val)), e)))
    else: out.append(('True comes with a substitution mapping x to y', Imp(r, e)))
    return out
add('covers', params=[('x', PVT), ('y', PVT)], pre=lambda c: [('x is a pattern', And(wa(c.e('x')), allpat(c.e('x')))), ('y is a target', And(wa(c.e('y')), nopat(c.e('y')))),
    ('the empty substitution is well formed (definition)', And(WFC(z3.K(I, Null)), Ext(z3.K(I, Null))))],
    results=lambda c: [BOOL], post=covers_post)

C = C_
