"""Contracts for anti-unification (C06).

(Ds, Ms) is an ARBITRARY table from pairs of terms to variables.  R(x, y) is the term obtained by descending x and y
in parallel while they agree and looking disagreeing pairs up in the table.  traverse is proved to return R(x, y) for
every table that contains the pairs it recorded, and to keep the recorded table injective with variables as values.
The lemmas prove of R that (a) mapping each recorded variable back to the first (second) component gives x (y), so the
result subsumes both, and (b) every term that subsumes both subsumes R(x, y), so the result is the least such term.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.values import *
from pydv.terms import *
from pydv import terms as TM

FILE = 'dyna/term.py'
C_ = {}
BS = z3.BoolSort()
TAB = z3.ArraySort(PV, PV); TD = z3.ArraySort(PV, BS)
Ds, Ms = z3.Const('Ds', TD), z3.Const('Ms', TAB)
X, Y = z3.Function('inX', I, BS), z3.Function('inY', I, BS)
aX, aXl, AX_X = all_vars('allX', lambda t: X(t))
aY, aYl, AX_Y = all_vars('allY', lambda t: Y(t))
def P(a_, b_): return Tu(cons(a_, cons(b_, nil)))
R, Rl = z3.Function('R', PV, PV, PV), z3.Function('Rl', PL, PL, PL)
Cov, Covl = z3.Function('Cov', PV, PV, BS), z3.Function('Covl', PL, PL, BS)
agree = z3.Function('agree', PV, PV, BS)
RDEF = [FA([x, y], agree(x, y) == And(isT(x), isT(y), plen(PV.fargs(x)) == plen(PV.fargs(y)), PL.hd(PV.fargs(x)) == PL.hd(PV.fargs(y))), agree(x, y)),
        FA([x, y], R(x, y) == If(x == y, x, If(agree(x, y), T(Rl(PV.fargs(x), PV.fargs(y))), S(Ms, P(x, y)))), R(x, y)),
        Rl(nil, nil) == nil, FA([a, b, l, m], Rl(cons(a, l), cons(b, m)) == cons(R(a, b), Rl(l, m)), Rl(cons(a, l), cons(b, m))),
        FA([x, y], Cov(x, y) == Or(x == y, If(agree(x, y), Covl(PV.fargs(x), PV.fargs(y)), S(Ds, P(x, y)))), Cov(x, y)),
        Covl(nil, nil), FA([a, b, l, m], Covl(cons(a, l), cons(b, m)) == And(Cov(a, b), Covl(l, m)), Covl(cons(a, l), cons(b, m)))]
# terms: a constant functor, no tuples, lists or Ellipsis
wa, wal = z3.Function('wt', PV, BS), z3.Function('wtl', PL, BS)
WA = [FA([i], wa(V(i)), V(i)), FA([c], wa(C(c)), C(c)), Not(wa(Null)), FA([l], Not(wa(Tu(l))), Tu(l)), FA([l], Not(wa(Li(l))), Li(l)),
      FA([l], wa(T(l)) == And(PL.is_cons(l), isC(PL.hd(l)), wal(l)), T(l)), wal(nil), FA([h, l], wal(cons(h, l)) == And(wa(h), wal(l)), cons(h, l))]
APART = [FA([i], Not(And(X(i), Y(i))), X(i)), FA([i], Imp(X(i), old(i)), X(i)), FA([i], Imp(Y(i), old(i)), Y(i))]

class GTheory(TermTheory):
    def fresh_facts(self, eng, st, n):
        out = [('not a variable of the inputs', Not(old(n)))]
        for o in st.store.values():
            if isinstance(o, MapO): out.append(('not in a table', ForAll([a], Imp(S(o.dom, a), S(o.val, a) != V(n)), patterns=[S(o.dom, a), S(o.val, a)])))
        return out

    def contains(self, eng, st, x_, c_, line):
        o = eng.read(st, c_)
        if isinstance(o, MapO) and o.kty == PVT: return [(st, S(o.dom, eng.lift(x_, PVT).e))]
        return super().contains(eng, st, x_, c_, line)

THEORY = GTheory(extra=RDEF + AX_X + AX_Y + WA + APART, pure=True)
ASSUMPTIONS = ['terms without bound variables (the callers pass fresh or snapped terms), whose functor is a constant, with no tuples or lists inside',
               'the two terms have no variable in common (the property\'s hypothesis)',
               'structural induction over terms; termination is not proved; an injective finite table has an inverse']

def add(qual, **kw): C_[(FILE, qual)] = Contract(FILE, qual, **kw)
PURE = lambda c: [('no variable is bound', c.st.H == z3.K(I, Null))]
add('snap', params=[('x', PVT)], pre=PURE, results=lambda c: [PVT], post=lambda c: [('a term without bound variables is itself', c.eng.lift(c.result, PVT).e == c.e('x'))])
add('Var.occurs_check', params=[('self', PVT), ('x', PVT)], results=lambda c: [BOOL, NONE], post=lambda c: [], trusted='either answer is handled (proved in terms_unify)')

def mk_map(eng, st, name): return st.alloc(MapO(PVT, PVT, z3.Const(name + '_dom', TD), z3.Const(name + '_val', TAB)))
def tab(st, ref):
    if not isinstance(ref, Ref) or not isinstance(st.store.get(ref.loc), MapO): raise Unsupported('table')
    return st.store[ref.loc]
def ext(m_): return ForAll([a, b], Imp(S(m_.dom, P(a, b)), And(S(Ds, P(a, b)), S(Ms, P(a, b)) == S(m_.val, P(a, b)))), patterns=[P(a, b)])
def grows(n_, m_): return ForAll([a, b], Imp(S(m_.dom, P(a, b)), And(S(n_.dom, P(a, b)), S(n_.val, P(a, b)) == S(m_.val, P(a, b)))), patterns=[P(a, b)])
def grows1(n_, m_): return ForAll([a], Imp(S(m_.dom, a), S(n_.dom, a)), patterns=[S(m_.dom, a), S(n_.dom, a)])
def J(m_, s1, s2):
    v = lambda p, q: S(m_.val, P(p, q))
    D = lambda p, q: S(m_.dom, P(p, q))
    x_, y_ = z3.Const('qx2', PV), z3.Const('qy2', PV)
    return [('the table maps disagreeing pairs to variables', ForAll([a, b], Imp(D(a, b), And(isV(v(a, b)), a != b, Not(agree(a, b)))), patterns=[P(a, b)])),
            ('a variable of the first term stands for one pair only', ForAll([a, b], Imp(And(D(a, b), X(PV.vid(v(a, b)))), And(a == v(a, b), S(s1.dom, a))), patterns=[P(a, b)])),
            ('a variable of the second term stands for one pair only', ForAll([a, b], Imp(And(D(a, b), Y(PV.vid(v(a, b)))), And(b == v(a, b), S(s2.dom, b))), patterns=[P(a, b)])),
            ('distinct pairs, distinct variables', ForAll([a, b, x_, y_], Imp(And(D(a, b), D(x_, y_), v(a, b) == v(x_, y_)), And(a == x_, b == y_)), patterns=[MP(P(a, b), P(x_, y_))]))]
def maps(c, st=None):
    st = st or c.st
    return tab(st, c['pairs']), tab(st, c['s1']), tab(st, c['s2'])
def terms(p, q): return [('first term', And(aX(p), wa(p))), ('second term', And(aY(q), wa(q)))]
def tpost(c):
    p, q, r = c.e('x'), c.e('y'), c.eng.lift(c.result, PVT).e
    m_, s1, s2 = maps(c); m0 = maps(c, c.st0)[0]
    return [('the result is read off the table', Imp(ext(m_), And(r == R(p, q), Cov(p, q)))), ('recorded pairs stay', grows(m_, m0))] + J(m_, s1, s2)
def tinv(L):
    ms, (w1, w2), (r1, r2) = maps(L), L.it['wholes'], L.it['rests']
    res, rr = L.it['res'], L.it['rrest']
    return [('read off the table so far', Imp(And(ext(ms[0]), rr == Rl(r1, r2), Covl(r1, r2)), And(res == Rl(w1, w2), Covl(w1, w2)))), ('recorded pairs stay', grows(ms[0], maps(L, L.st0)[0])),
            ('rests', And(plen(r1) == plen(r2), aXl(r1), aYl(r2), wal(r1), wal(r2)))] + J(*ms)
add('generalizer.traverse', params=[('x', PVT), ('y', PVT), ('s1', mk_map), ('s2', mk_map), ('pairs', mk_map)], consts={'s1': 's1', 's2': 's2', 'pairs': 'pairs'},
    pre=lambda c: PURE(c) + terms(c.e('x'), c.e('y')) + J(*maps(c)), results=lambda c: [PVT], post=tpost, modifies=lambda c: [c['s1'], c['s2'], c['pairs']], loops=[LoopSpec(tinv)])
C_[(FILE, 'generalizer.traverse')].nested = True

def dflt(*ns):
    def f(eng, st, args):
        for n in ns: args[n] = Py(Ellipsis)
    return f
def gpost(c):
    fr = c.st.frames[c.eng.top_frame]
    for n in ('pairs', 's1', 's2'):
        if n not in fr: raise Unsupported(f'no local {n}')
    m_, s1, s2 = (tab(c.st, fr[n]) for n in ('pairs', 's1', 's2'))
    r = c.eng.lift(c.result, PVT).e
    return [('the result is read off the table', Imp(ext(m_), And(r == R(c.e('t1'), c.e('t2')), Cov(c.e('t1'), c.e('t2')))))] + J(m_, s1, s2)
add('generalizer', params=[('t1', PVT), ('t2', PVT), ('s1', mk_map), ('s2', mk_map)], cases=[('tables given', None), ('tables omitted', dflt('s1', 's2')), ('first omitted', dflt('s1')), ('second omitted', dflt('s2'))],
    pre=lambda c: PURE(c) + terms(c.e('t1'), c.e('t2')), results=lambda c: [PVT], post=gpost,
    modifies=lambda c: [c[n] for n in ('s1', 's2') if isinstance(c[n], Ref)])
C_[(FILE, 'generalizer')].dict_types = (PVT, PVT)

# ---------------------------------------------------------------- what the table gives
def LEMMAS(C=C):
    out = []
    i0, l0, m0, a0, b0, c0, d0, x0, y0, f0 = (z3.Int('i0'), z3.Const('l0', PL), z3.Const('m0', PL), z3.Const('a0', PV), z3.Const('b0', PV), z3.Const('c0', PyConst), z3.Const('d0', PyConst),
        z3.Const('x0', PV), z3.Const('y0', PV), z3.Const('f0', PyConst))
    def subst(nm):
        th, ap, apl = z3.Function('th' + nm, I, PV), z3.Function('ap' + nm, PV, PV), z3.Function('ap' + nm + 'l', PL, PL)
        return th, ap, apl, [FA([i], ap(V(i)) == th(i), ap(V(i))), FA([a], Imp(isV(a), ap(a) == th(PV.vid(a))), ap(a)), FA([c], ap(C(c)) == C(c), ap(C(c))), FA([l], ap(T(l)) == T(apl(l)), ap(T(l))),
                             apl(nil) == nil, FA([h, l], apl(cons(h, l)) == cons(ap(h), apl(l)), apl(cons(h, l)))]
    t1, p1, p1l, D1 = subst('1'); t2, p2, p2l, D2 = subst('2')
    B = RDEF + AX_X + AX_Y + WA + APART + defs_len() + LEN_POS
    # (a) a term with variables of both terms is ground, so it is its own instance
    def gd(t): return Imp(And(aX(t), aY(t), wa(t)), And(p1(t) == t, p2(t) == t))
    def gdl(t): return Imp(And(aXl(t), aYl(t), wal(t)), And(p1l(t) == t, p2l(t) == t))
    A = B + D1 + D2
    for nm, t, ih in (('variable', V(i0), []), ('constant', C(c0), []), ('term', T(l0), [gdl(l0)])): out.append((f'shared part is ground: {nm}', ih, gd(t), A))
    out.append(('shared part is ground: nil', [], gdl(nil), A)); out.append(('shared part is ground: cons', [gd(a0), gdl(l0)], gdl(cons(a0, l0)), A))
    # (b) mapping each recorded variable back gives the two terms
    Q = FA([a, b], Imp(S(Ds, P(a, b)), And(isV(S(Ms, P(a, b))), t1(PV.vid(S(Ms, P(a, b)))) == a, t2(PV.vid(S(Ms, P(a, b)))) == b)), P(a, b))
    def cg(p, q): return Imp(And(aX(p), aY(q), wa(p), wa(q), Cov(p, q)), And(p1(R(p, q)) == p, p2(R(p, q)) == q))
    def cgl(p, q): return Imp(And(aXl(p), aYl(q), wal(p), wal(q), plen(p) == plen(q), Covl(p, q)), And(p1l(Rl(p, q)) == p, p2l(Rl(p, q)) == q))
    out.append(('subsumes both: equal terms', [gd(x0)], cg(x0, x0), A + [Q]))
    out.append(('subsumes both: same functor', [cgl(l0, m0), agree(T(l0), T(m0)), gd(T(l0))], cg(T(l0), T(m0)), A + [Q]))
    out.append(('subsumes both: a disagreement', [Not(agree(x0, y0)), gd(x0)], cg(x0, y0), A + [Q]))
    out.append(('subsumes both: nil', [], cgl(nil, nil), A + [Q])); out.append(('subsumes both: cons', [cg(a0, b0), cgl(l0, m0)], cgl(cons(a0, l0), cons(b0, m0)), A + [Q]))
    out.append(('subsumes both: different lengths', [], And(cgl(nil, cons(b0, m0)), cgl(cons(a0, l0), nil)), A + [Q]))
    # (c) every common generalisation g (with instances p1(g), p2(g)) subsumes the result
    t3, p3, p3l, D3 = subst('3')
    RHO = FA([i], t3(i) == R(t1(i), t2(i)), t3(i))
    A = RDEF + WA + D1 + D2 + D3 + [RHO] + defs_len() + LEN_POS
    def dg(t): return R(t, t) == t
    def dgl(t): return Rl(t, t) == t
    out.append(('equal arguments: any', [], dg(x0), RDEF)); out.append(('equal arguments: nil', [], dgl(nil), RDEF)); out.append(('equal arguments: cons', [dgl(l0)], dgl(cons(a0, l0)), RDEF))
    def ls(t): return Imp(wa(t), p3(t) == R(p1(t), p2(t)))
    def lsl(t): return Imp(wal(t), And(p3l(t) == Rl(p1l(t), p2l(t)), plen(p1l(t)) == plen(p2l(t))))
    out.append(('least: variable', [], ls(V(i0)), A)); out.append(('least: constant', [], ls(C(c0)), A))
    out.append(('least: term', [lsl(cons(C(f0), l0)), dgl(p1l(cons(C(f0), l0)))], ls(T(cons(C(f0), l0))), A + [agree(T(p1l(cons(C(f0), l0))), T(p2l(cons(C(f0), l0)))) == agree(T(p1l(cons(C(f0), l0))), T(p2l(cons(C(f0), l0))))]))
    out.append(('least: a term has a constant functor', [wa(T(l0)), PL.is_cons(l0)], isC(PL.hd(l0)), WA))
    out.append(('least: nil', [], lsl(nil), A)); out.append(('least: cons', [ls(a0), lsl(l0)], lsl(cons(a0, l0)), A))
    # (d) one subsumes the other: x p2 = y gives R(x, y) = x p3, an instance of x
    ID = FA([i], t1(i) == V(i), t1(i))
    def idn(t): return Imp(wa(t), p1(t) == t)
    def idl(t): return Imp(wal(t), p1l(t) == t)
    A = D1 + WA + [ID]
    for nm, t, ih in (('variable', V(i0), []), ('constant', C(c0), []), ('term', T(l0), [idl(l0)])): out.append((f'identity: {nm}', ih, idn(t), A))
    out.append(('identity: nil', [], idl(nil), A)); out.append(('identity: cons', [idn(a0), idl(l0)], idl(cons(a0, l0)), A))
    out.append(('one subsumes the other: the result is an instance of it', [wa(x0), ls(x0), idn(x0), p2(x0) == y0], R(x0, y0) == p3(x0), []))
    return out

C = C_
