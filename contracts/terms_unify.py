"""Contracts for snap / == / occurs_check / unify / unifyN and their direct clients (C01, C02).

All of them are stated for an arbitrary valuation sig of the variables:
  unify(x, y): at the yield, the valuations satisfying the bindings are EXACTLY those that satisfied
  them before and make x and y equal (hence: most general unifier); if it never yields, no valuation
  satisfying the bindings makes them equal.  On every way out the bindings are what they were.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.values import *
from pydv.terms import *

FILE = 'dyna/term.py'
C_ = {}
THEORY = TermTheory()
LEMMAS = lemmas
ASSUMPTIONS = ['terms are built from Var, Term, tuple/Product, list and constants; constants are compared modulo Python == (NaN excluded)',
               'structural / evaluation induction principles and the acyclicity of bindings (each binding is proved to pass the occurs check; '
               'that occurs-checked bindings have no cycle is a meta-argument) ; termination of the recursive functions is not proved',
               'the default OCCURS_CHECK_ENABLED=True is what is verified']


def add(qual, **kw):
    C_[(FILE, qual)] = Contract(FILE, qual, **kw)

def pre_nn(*names):
    return lambda c: [('bindings well formed', WF(c.st.H))] + [(f'{n} is a term', nn(c.e(n))) for n in names]

add('snap', params=[('x', PVT)], pre=pre_nn('x'), results=lambda c: [PVT],
    post=lambda c: [('result is the end of the binding chain', c.eng.lift(c.result, PVT).e == sn(c.st0.H, c.e('x')))])

isself = lambda c: ('self is a variable', isV(c.e('self')))
add('Var.__eq__', params=[('self', PVT), ('other', PVT)], pre=lambda c: pre_nn('self', 'other')(c) + [isself(c)], results=lambda c: [BOOL],
    post=lambda c: [('== on variables compares what they are bound to, and identity of unbound variables',
                     c.eng.lift(c.result, BOOL).e == veq(c.st0.H, c.e('self'), c.e('other')))])
add('Term.__eq__', params=[('self', PVT), ('other', PVT)], pre=lambda c: pre_nn('self', 'other')(c) + [('self is a Term', isT(c.e('self')))], results=lambda c: [BOOL],
    post=lambda c: [('== on terms compares functor and arguments', c.eng.lift(c.result, BOOL).e == teq(c.st0.H, c.e('self'), c.e('other')))])


def truthy(c):
    r = c.result
    return z3.BoolVal(bool(r.v)) if isinstance(r, Py) else r.e

def occurs_post(c):
    r, Hh, s, t = truthy(c), c.st0.H, c.e('self'), c.e('x')
    return [('result tells whether the variable occurs', r == occ(Hh, PV.vid(s), t)),
            ('an occurrence rules out equality', Imp(And(r, Mod(Hh)), And(sz(val(s)) <= sz(val(t)), Imp(Not(isV(t)), sz(val(s)) < sz(val(t))))))]

def occ_inv(L):
    Hh, s = L.st0.H, PV.vid(L.e('self'))
    w, r = L.it['whole'], L.it['rest']
    return [('not found so far', occl(Hh, s, w) == occl(Hh, s, r)), ('rest is smaller', szl(vall(r)) <= szl(vall(w))), ('rest is well formed', nnl(r))]
add('Var.occurs_check', params=[('self', PVT), ('x', PVT)], pre=lambda c: pre_nn('self', 'x')(c) + [isself(c)],
    results=lambda c: [BOOL, NONE], post=occurs_post, loops=[LoopSpec(occ_inv)])


def wf_y(c): return [('bindings well formed', WF(c.st.H))]
def unify_y(c):
    return [('solutions at the yield are exactly the solutions that make x and y equal',
             Mod(c.st.H) == And(Mod(c.st0.H), val(c.e('x')) == val(c.e('y'))))] + wf_y(c)
def unify_n(c):
    return [('no yield only when no solution makes x and y equal', Imp(Mod(c.st0.H), val(c.e('x')) != val(c.e('y'))))]
def oldH(Hh): return And(ForAll([i], av(S(Hh, i)), patterns=[S(Hh, i)]), ForAll([i], nol(S(Hh, i)), patterns=[S(Hh, i)]))
nol, noll = z3.Function('nolist', PV, z3.BoolSort()), z3.Function('nolistl', PL, z3.BoolSort())     # no Python list inside
THEORY.extra += [FA([i], nol(V(i)), V(i)), FA([c], nol(C(c)), C(c)), nol(Null), FA([l], Not(nol(Li(l))), Li(l)), FA([l], nol(T(l)) == noll(l), T(l)), FA([l], nol(Tu(l)) == noll(l), Tu(l)),
                 noll(nil), FA([h, l], noll(cons(h, l)) == And(nol(h), noll(l)), cons(h, l))]
def unify_y0(c, nolx=lambda e: nol(e)):
    x_, y_ = c.e('x'), c.e('y')
    return unify_y(c) + [('bindings mention only existing variables', Imp(And(av(x_), av(y_), oldH(c.st0.H), nolx(x_), nolx(y_)), oldH(c.st.H)))]
def nolseq(e): return Or(nol(e), And(isLi(e), noll(PV.lelems(e))))
add('unify', params=[('x', PVT), ('y', PVT)], pre=pre_nn('x', 'y'), gen='once', ypost=unify_y0, npost=unify_n)

def seq(c, n):
    e = c.e(n)
    return Or(isT(e), isTu(e), isLi(e))
def seqlist(e): return If(isT(e), PV.fargs(e), If(isTu(e), PV.telems(e), PV.lelems(e)))
add('unifyN', params=[('x', PVT), ('y', PVT)], pre=lambda c: pre_nn('x', 'y')(c) + [('two sequences', And(seq(c, 'x'), seq(c, 'y'))),
    ('equal length', plen(seqlist(c.e('x'))) == plen(seqlist(c.e('y'))))], gen='once', ypost=lambda c: unify_y0(c, nolseq), npost=unify_n)

add('is_ground', params=[('x', PVT)], pre=pre_nn('x'), results=lambda c: [BOOL],
    post=lambda c: [('ground iff every variable is bound to something ground', c.eng.lift(c.result, BOOL).e == gr(c.st0.H, c.e('x')))],
    loops=[LoopSpec(lambda L: [('ground so far', grl(L.st0.H, L.it['whole']) == grl(L.st0.H, L.it['rest'])), ('rest is well formed', nnl(L.it['rest']))])])
add('is_var', params=[('x', PVT)], pre=pre_nn('x'), results=lambda c: [BOOL],
    post=lambda c: [('var iff the chain ends in an unbound variable', c.eng.lift(c.result, BOOL).e == isV(sn(c.st0.H, c.e('x'))))])

# unifies(A, B): sat(H, A, B) abbreviates "some valuation satisfying H makes A and B equal"
def unifies_post(c):
    r = c.eng.lift(c.result, BOOL).e
    return [('False only when no solution makes them equal', Imp(And(Not(r), Mod(c.st0.H)), val(c.e('A')) != val(c.e('B'))))]
add('unifies', params=[('A', PVT), ('B', PVT)], pre=pre_nn('A', 'B'), results=lambda c: [BOOL], post=unifies_post)

def deref_post(c):
    r = c.eng.lift(c.result, PVT).e
    Hh, x_ = c.st0.H, c.e('x')
    return [('same denotation', Imp(Mod(Hh), val(r) == val(x_))), ('no bound variable is left', ub(Hh, r)), ('still a term', nn(r)), ('shape kept', Imp(isTu(x_), isTu(r)))]
ub = z3.Function('ub', HS, PV, z3.BoolSort()); ubl = z3.Function('ubl', HS, PL, z3.BoolSort())
THEORY.extra += [FA([H, j], ub(H, V(j)) == (S(H, j) == Null), ub(H, V(j))), FA([H, c], ub(H, C(c)), ub(H, C(c))), FA([H, l], ub(H, Li(l)), ub(H, Li(l))),
                 FA([H, l], ub(H, T(l)) == ubl(H, l), ub(H, T(l))), FA([H, l], ub(H, Tu(l)) == ubl(H, l), ub(H, Tu(l))),
                 FA([H], ubl(H, nil), ubl(H, nil)), FA([H, h, l], ubl(H, cons(h, l)) == And(ub(H, h), ubl(H, l)), ubl(H, cons(h, l)))]
def deref_inv(L):
    w, r, res, rr, Hh = L.it['whole'], L.it['rest'], L.it['res'], L.it['rrest'], L.st0.H
    return [('same denotation so far', Imp(And(Mod(Hh), vall(rr) == vall(r)), vall(res) == vall(w))),
            ('resolved so far', Imp(ubl(Hh, rr), ubl(Hh, res))), ('well formed so far', Imp(nnl(rr), nnl(res))), ('rest is well formed', nnl(r))]
add('deref', params=[('x', PVT)], pre=pre_nn('x'), results=lambda c: [PVT], post=deref_post, loops=[LoopSpec(deref_inv)])


# ---------------------------------------------------------------- fresh copies
def mk_fresh(eng, st, name):
    m_ = MapO(INT, PVT, z3.Const('m_dom', z3.ArraySort(I, z3.BoolSort())), z3.Const('m_val', z3.ArraySort(I, PV)))
    return st.alloc(Rec((FILE, 'Fresh'), {'m': st.alloc(m_), 'nice_name': Z(z3.Bool('nice'), BOOL)}))

def fmap(c, ref='self', old_=False):
    st = c.st0 if old_ else c.st
    r = c.args[ref] if isinstance(ref, str) else ref
    return st.store[st.store[r.loc].fields['m'].loc]

def link(m_):
    "sig gives each copy the value of its original"
    return ForAll([i], Imp(S(m_.dom, i), val(S(m_.val, i)) == sig(i)), patterns=[S(m_.dom, i), S(m_.val, i)])

def wf_map(m_, Hh):
    D = lambda t: S(m_.dom, t)
    M = lambda t: S(m_.val, t)
    return [('copies are fresh unbound variables', ForAll([i], Imp(D(i), And(isV(M(i)), Not(old(PV.vid(M(i)))), S(Hh, PV.vid(M(i))) == Null)), patterns=[D(i), M(i)])),
            ('only original variables are renamed', ForAll([i], Imp(D(i), And(old(i), S(Hh, i) == Null)), patterns=[D(i)])),
            ('distinct variables get distinct copies', ForAll([i, j], Imp(And(D(i), D(j), M(i) == M(j)), i == j), patterns=[MP(M(i), M(j))]))]

def extends(m1, m0):
    return ForAll([i], Imp(S(m0.dom, i), And(S(m1.dom, i), S(m1.val, i) == S(m0.val, i))), patterns=[S(m0.dom, i), S(m1.dom, i)])

newv = z3.Function('inr', z3.ArraySort(I, z3.BoolSort()), z3.ArraySort(I, PV), PV, z3.BoolSort())
newvl = z3.Function('inrl', z3.ArraySort(I, z3.BoolSort()), z3.ArraySort(I, PV), PL, z3.BoolSort())
# isnew(t): no variable of t existed at entry
isnew, isnewl, NEW_AX = all_vars('allnew', lambda t: Not(old(t)))
THEORY.extra += NEW_AX

def fresh_pre(c):
    return pre_nn('x')(c) + [('variables of x and of the bindings exist', And(av(c.e('x')), nol(c.e('x')), oldH(c.st.H)))] + wf_map(fmap(c), c.st.H)
def fresh_post(c):
    r, Hh, x_, m_ = c.eng.lift(c.result, PVT).e, c.st0.H, c.e('x'), fmap(c)
    return [('a variant: same denotation under the renaming', Imp(And(Mod(Hh), link(m_)), val(r) == val(x_))),
            ('renamed apart: no variable of the input survives', isnew(r)), ('well formed', nn(r)), ('shape kept', Imp(isTu(x_), isTu(r))),
            ('earlier choices are kept', extends(m_, fmap(c, old_=True)))] + wf_map(m_, Hh)
def fresh_inv(L):
    w, r, res, rr, Hh = L.it['whole'], L.it['rest'], L.it['res'], L.it['rrest'], L.st0.H
    m_ = fmap(L)
    return [('variant so far', Imp(And(Mod(Hh), link(m_), vall(rr) == vall(r)), vall(res) == vall(w))),
            ('apart so far', Imp(isnewl(rr), isnewl(res))), ('well formed so far', Imp(nnl(rr), nnl(res))),
            ('rest', And(nnl(r), avl(r), noll(r))), ('earlier choices are kept', extends(m_, fmap(L, old_=True)))] + wf_map(m_, Hh)
add('Fresh.__call__', params=[('self', mk_fresh), ('x', PVT)], pre=fresh_pre, results=lambda c: [PVT], post=fresh_post,
    modifies=lambda c: [c.st.store[c['self'].loc].fields['m']], loops=[LoopSpec(fresh_inv), LoopSpec(fresh_inv)])

def last_fresh(st):
    rs = [(k_, o) for k_, o in st.store.items() if isinstance(o, Rec) and o.cls == (FILE, 'Fresh')]
    if not rs: raise Unsupported('no Fresh object was used')
    return st.store[rs[-1][1].fields['m'].loc]

def fresh_fn_post(c):
    r, x_ = c.eng.lift(c.result, PVT).e, c.e('z')
    m_ = last_fresh(c.st)
    return [('a variant: same denotation under an injective renaming', Imp(And(Mod(c.st0.H), link(m_)), val(r) == val(x_))),
            ('renamed apart', isnew(r)), ('well formed', nn(r))] + wf_map(m_, c.st0.H)
add('fresh', params=[('z', PVT), ('nice_name', BOOL)], pre=lambda c: pre_nn('z')(c) + [('variables exist', And(av(c.e('z')), nol(c.e('z')), oldH(c.st.H)))],
    results=lambda c: [PVT], post=fresh_fn_post)
C_[(FILE, 'fresh')].dict_types = (INT, PVT)
C_[(FILE, 'fresh')].inline_at_calls = True

# intersect(x, y): None iff nothing is in both; otherwise a fresh term whose instances are exactly the common ones
def intersect_post(c):
    r = c.result
    Hh, e = c.st0.H, val(c.e('x')) == val(c.e('y'))
    if isinstance(r, Py) and r.v is None: return [('None only when nothing is in both', Imp(Mod(Hh), Not(e)))]
    m_ = last_fresh(c.st)
    return [('each common instance is denoted by the result', Imp(And(Mod(Hh), e, link(m_)), val(c.eng.lift(r, PVT).e) == val(c.e('x')))),
            ('renamed apart', isnew(c.eng.lift(r, PVT).e))]
add('intersect', params=[('x', PVT), ('y', PVT)], pre=lambda c: pre_nn('x', 'y')(c) + [('variables exist', And(av(c.e('x')), av(c.e('y')), nol(c.e('x')), nol(c.e('y')), oldH(c.st.H)))],
    results=lambda c: [NONE, PVT], post=intersect_post)
C_[(FILE, 'intersect')].dict_types = (INT, PVT)

# ---------------------------------------------------------------- term_vars
def mk_set(eng, st, name): return st.alloc(SetO(PVT, z3.Const('vs0', z3.ArraySort(PV, z3.BoolSort()))))
def tv_none(eng, st, args): args['vs'] = NONE
def inset(st, ref): return st.store[ref.loc].arr
def tv_post(c):
    r = c.result
    if not isinstance(r, Ref): raise Unsupported('term_vars result')
    out, Hh, x_ = c.st.store[r.loc].arr, c.st0.H, c.e('x')
    before = (lambda e: z3.BoolVal(False)) if not isinstance(c['vs'], Ref) else (lambda e: S(c.st0.store[c['vs'].loc].arr, e))
    return [('exactly the free variables are added', ForAll([a], S(out, a) == Or(before(a), And(isV(a), S(Hh, PV.vid(a)) == Null, occ(Hh, PV.vid(a), x_)))))] + \
           ([('the given set is extended', z3.BoolVal(isinstance(r, Ref) and r.loc == c['vs'].loc))] if isinstance(c['vs'], Ref) else [])
def tv_inv(L):
    v = L.env['vs']
    Hh, (w, r) = L.st0.H, (L.it['whole'], L.it['rest'])
    cur, ini = L.st.store[v.loc].arr, L.entry.store[v.loc].arr
    f = lambda l_, e: And(isV(e), S(Hh, PV.vid(e)) == Null, occl(Hh, PV.vid(e), l_))
    return [('variables so far', ForAll([a], Or(S(cur, a), f(r, a)) == Or(S(ini, a), f(w, a)))), ('rest', nnl(r))]
def tv_results(c):
    if isinstance(c['vs'], Ref): return [c['vs']]
    return [c.st.alloc(SetO(PVT, z3.Const(fresh_name('vs'), z3.ArraySort(PV, z3.BoolSort()))))]
add('term_vars', params=[('x', PVT), ('vs', mk_set)], cases=[('vs given', None), ('vs=None', tv_none)], pre=pre_nn('x'),
    post=tv_post, modifies=lambda c: [c['vs']] if isinstance(c['vs'], Ref) else [], loops=[LoopSpec(tv_inv)])
C_[(FILE, 'term_vars')].results_at_calls = tv_results

C = C_
