"""Contracts for the order, equality and hash of terms (C09).

rs(H, t) is t with every bound variable replaced by what it is bound to.  == is proved (evaluation induction) to be
equality of rs, hence an equivalence; hash is a function of rs, hence equal for equal terms; lt(x, y) is proved to
compute LT(rs x, rs y) for the relation LT below, and the lemmas prove LT a strict total order with variables on top.
"""
import z3
from pydv.engine import Contract, LoopSpec
from pydv.values import *
from pydv.terms import *
from . import terms_unify as TU

FILE = 'dyna/term.py'
C_ = {}
BS = z3.BoolSort()
rs, rsl = z3.Function('rs', HS, PV, PV), z3.Function('rsl', HS, PL, PL)
nlt = z3.Function('name_lt', I, I, BS)               # order of the variables' names
clt, cmpable, natlt, tnlt = (z3.Function(n, PyConst, PyConst, BS) for n in ('const_lt', 'comparable', 'native_lt', 'typename_lt'))
LT, lex = z3.Function('LT', PV, PV, BS), z3.Function('lex', PL, PL, BS)
drop, nth = z3.Function('drop', PL, I, PL), z3.Function('nth', PL, I, PV)
hs, hsl = z3.Function('hs', PV, I), z3.Function('hsl', PL, I)
hcst, hid = z3.Function('hash_const', PyConst, I), z3.Function('hash_id', I, I)
hcons = z3.Function('hash_step', I, I, I)
wa, wal, wH = z3.Function('wo', PV, BS), z3.Function('wol', PL, BS), z3.Function('woH', HS, BS)
WA = [FA([i], wa(V(i)), V(i)), FA([c], wa(C(c)), C(c)), Not(wa(Null)), FA([l], Not(wa(Tu(l))), Tu(l)), FA([l], Not(wa(Li(l))), Li(l)),
      FA([l], wa(T(l)) == And(PL.is_cons(l), isC(PL.hd(l)), wal(l)), T(l)), wal(nil), FA([h, l], wal(cons(h, l)) == And(wa(h), wal(l)), cons(h, l))]
WH = [FA([H, i], Imp(And(wH(H), S(H, i) != Null), wa(S(H, i))), MP(wH(H), S(H, i)))]
RS = [FA([H], sn(H, Null) == Null, sn(H, Null)), FA([H, j], rs(H, V(j)) == If(S(H, j) == Null, V(j), rs(H, S(H, j))), rs(H, V(j))), FA([H, c], rs(H, C(c)) == C(c), rs(H, C(c))), FA([H, l], rs(H, T(l)) == T(rsl(H, l)), rs(H, T(l))),
      FA([H, l], rs(H, Tu(l)) == Tu(rsl(H, l)), rs(H, Tu(l))), FA([H], rsl(H, nil) == nil, rsl(H, nil)), FA([H, h, l], rsl(H, cons(h, l)) == cons(rs(H, h), rsl(H, l)), rsl(H, cons(h, l)))]
LTD = [FA([i, j], LT(V(i), V(j)) == nlt(i, j), LT(V(i), V(j))), FA([i, c], Not(LT(V(i), C(c))), LT(V(i), C(c))), FA([i, l], Not(LT(V(i), T(l))), LT(V(i), T(l))),
       FA([i, c], LT(C(c), V(i)), LT(C(c), V(i))), FA([i, l], LT(T(l), V(i)), LT(T(l), V(i))),
       FA([l, m], LT(T(l), T(m)) == lex(l, m), LT(T(l), T(m))), FA([l, c], LT(T(l), C(c)) == clt(PV.const(PL.hd(l)), c), LT(T(l), C(c))),
       FA([l, c], LT(C(c), T(l)) == Not(clt(PV.const(PL.hd(l)), c)), LT(C(c), T(l))), FA([c, d], LT(C(c), C(d)) == clt(c, d), LT(C(c), C(d))),
       Not(lex(nil, nil)), FA([h, l], lex(nil, cons(h, l)), lex(nil, cons(h, l))), FA([h, l], Not(lex(cons(h, l), nil)), lex(cons(h, l), nil)),
       FA([a, b, l, m], lex(cons(a, l), cons(b, m)) == If(a == b, lex(l, m), LT(a, b)), lex(cons(a, l), cons(b, m)))]
CLT = [FA([c, d], clt(c, d) == If(cmpable(c, d), natlt(c, d), tnlt(c, d)), clt(c, d)), FA([c], Not(clt(c, c)), clt(c, c)),
       FA([c, d], And(Imp(clt(c, d), Not(clt(d, c))), Or(c == d, clt(c, d), clt(d, c))), clt(c, d))]
e_ = z3.Const('qe', PyConst)
CTR = [FA([c, d, e_], Imp(And(clt(c, d), clt(d, e_)), clt(c, e_)), MP(clt(c, d), clt(d, e_)))]
NLT = [FA([i], Not(nlt(i, i)), nlt(i, i)), FA([i, j], And(Imp(nlt(i, j), Not(nlt(j, i))), Or(i == j, nlt(i, j), nlt(j, i))), nlt(i, j))]
k_ = z3.Int('qk_')
NTR = [FA([i, j, k_], Imp(And(nlt(i, j), nlt(j, k_)), nlt(i, k_)), MP(nlt(i, j), nlt(j, k_)))]
# consequences proved below by structural / evaluation induction
CONS = [FA([l], drop(l, 0) == l, drop(l, 0)),
        FA([l, i], Imp(And(0 <= i, i < plen(l)), And(drop(l, i) == cons(nth(l, i), drop(l, i + 1)))), drop(l, i)),
        FA([l, i], Imp(And(0 <= i, i <= plen(l)), plen(drop(l, i)) == plen(l) - i), drop(l, i)),
        FA([l, i], Imp(And(wal(l), 0 <= i, i < plen(l)), wa(nth(l, i))), MP(wal(l), nth(l, i))),
        FA([l, i], Imp(And(nnl(l), 0 <= i, i < plen(l)), nn(nth(l, i))), MP(nnl(l), nth(l, i))),
        FA([H, x], rs(H, sn(H, x)) == rs(H, x), sn(H, x)), FA([H, x], Imp(And(wH(H), wa(x)), wa(sn(H, x))), MP(wH(H), sn(H, x))),
        FA([H, x], Imp(And(wH(H), wa(x)), wa(rs(H, x))), MP(wH(H), rs(H, x))),
        FA([H, j], Imp(isV(sn(H, V(j))), S(H, PV.vid(sn(H, V(j)))) == Null), sn(H, V(j))), FA([H, x], Imp(isV(sn(H, x)), S(H, PV.vid(sn(H, x))) == Null), sn(H, x)),
        FA([H, l], plen(rsl(H, l)) == plen(l), rsl(H, l))]
PEQ = [FA([H, x, y], Imp(And(wH(H), wa(x), wa(y)), peq(H, x, y) == (rs(H, x) == rs(H, y))), peq(H, x, y)), FA([H, l, m], Imp(And(wH(H), wal(l), wal(m)), peql(H, l, m) == (rsl(H, l) == rsl(H, m))), peql(H, l, m))]
HSD = [FA([i], hs(V(i)) == hid(i), hs(V(i))), FA([c], hs(C(c)) == hcst(c), hs(C(c))), FA([l], hs(T(l)) == hsl(l), hs(T(l))), FA([l], hs(Tu(l)) == hsl(l), hs(Tu(l)))]
NAME, TYP, TNAME, HASH = Ty('varname', I), Ty('typeof', PV), Ty('typename', PyConst), INT

class OTheory(TermTheory):
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Builtin) and f.name == 'type' and len(args) == 1 and self.is_pv(args[0]): return [(st, Z(args[0].e, TYP))]
        if isinstance(f, Builtin) and f.name == 'hash' and len(args) == 1 and self.is_pv(args[0]): return [(st, Z(hs(rs(st.H, args[0].e)), INT))]
        if isinstance(f, Builtin) and f.name == 'object.__hash__' and len(args) == 1 and self.is_pv(args[0]):
            s = self.shape(st, args[0].e)
            if s is not None and s.decl().name() == 'V': return [(st, Z(hid(s.arg(0)), INT))]
            if s is None:
                eng.oblige(st, 'identity hash of a variable', isV(args[0].e), line)
                return [(st, Z(hid(PV.vid(args[0].e)), INT))]
        return super().call(eng, st, f, args, kwargs, line)
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Builtin) and v.name == 'object' and name == '__hash__': return [(st, Builtin('object.__hash__'))]
        if isinstance(v, Z) and v.ty == TYP and name == '__name__':
            out = []
            for s, ct in self.expand(eng, st, v.e):
                if ct.decl().name() != 'C': raise Unsupported('type name of a non-constant')
                out.append((s, Z(ct.arg(0), TNAME)))
            return out
        if self.is_pv(v) and name == 'name':
            s = self.shape(st, v.e)
            if s is not None and s.decl().name() == 'V': return [(st, Z(s.arg(0), NAME))]
        return super().getattr(eng, st, v, name, line)
    def getitem(self, eng, st, o, k, line):
        if self.is_pv(o) and isinstance(k, Z) and k.ty == INT:
            s = self.shape(st, o.e)
            if s is None or s.decl().name() not in ('Tu', 'Li'): raise Unsupported('indexing')
            eng.oblige(st, 'index in range', And(0 <= k.e, k.e < plen(s.arg(0))), line)
            return [(st, Z(nth(s.arg(0), k.e), PVT))]
        return super().getitem(eng, st, o, k, line)
    def compare(self, eng, st, op, a, b, line):
        if type(op) in (ast.Gt, ast.GtE, ast.LtE): 
            if isinstance(op, ast.Gt): return self.compare(eng, st, ast.Lt(), b, a, line) if (isinstance(a, Z) and a.ty in (NAME, TNAME)) else None
            return None
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == b.ty == NAME: return [(st, nlt(a.e, b.e))]
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == b.ty == TNAME: return [(st, tnlt(a.e, b.e))]
        if not (self.is_pv(a) and self.is_pv(b)): return None
        out = []
        for s, ct in self.expand(eng, st, a.e):
            nm = ct.decl().name()
            if nm in ('V', 'T'):
                q = {'V': 'Var', 'T': 'Term'}[nm]
                fn = Func(eng.class_methods((TERM, q))['__lt__'], TERM, selfv=a, qual=f'{q}.__lt__', cls=(TERM, q))
                out.extend((s1, v if isinstance(v, Raised) else eng.truth(s1, v)) for s1, v in eng.call_func(s, fn, [b], {}, line)); continue
            for s2, ct2 in self.expand(eng, s, b.e):
                if nm == 'C' and ct2.decl().name() == 'C':
                    c1, c2 = ct.arg(0), ct2.arg(0)
                    s3 = s2.copy()
                    s2.assume(cmpable(c1, c2)); out.append((s2, natlt(c1, c2)))
                    s3.assume(Not(cmpable(c1, c2))); out.append((s3, Raised('TypeError', line=line)))
                else: out.append((s2, z3.Const(fresh_name('cmp'), B)))       # tuples, lists: ruled out by the precondition; the obligations must not depend on it
        return out

import ast
from pydv.values import Unsupported
IRR = [FA([x], Imp(wa(x), Not(LT(x, x))), LT(x, x))]
THEORY = OTheory(extra=IRR + WA + WH + RS + LTD + CLT + NLT + CONS + PEQ + HSD)
ASSUMPTIONS = ['terms have a constant functor and no tuples or lists inside',
               'constants (strings, numbers except NaN) are strictly totally ordered by native <, falling back to the type name; == on them is consistent with hash; distinct variables have distinct names (the property\'s hypothesis)',
               'structural and evaluation induction principles over terms with acyclic bindings; termination is not proved']
def add(qual, **kw): C_[(FILE, qual)] = Contract(FILE, qual, **kw)
def shp(*ns): return lambda c: [('bindings well formed', And(WF(c.st.H), wH(c.st.H)))] + [(f'{n} is a term', And(nn(c.e(n)), wa(c.e(n)))) for n in ns]
add('snap', params=[('x', PVT)], pre=TU.pre_nn('x'), results=lambda c: [PVT], post=lambda c: [('result is the end of the binding chain', c.eng.lift(c.result, PVT).e == sn(c.st0.H, c.e('x')))])
add('Var.__eq__', params=[('self', PVT), ('other', PVT)], pre=lambda c: TU.pre_nn('self', 'other')(c) + [TU.isself(c)], results=lambda c: [BOOL],
    post=lambda c: [('== on variables compares what they are bound to, and identity of unbound variables', c.eng.lift(c.result, BOOL).e == veq(c.st0.H, c.e('self'), c.e('other')))])
add('Term.__eq__', params=[('self', PVT), ('other', PVT)], pre=lambda c: TU.pre_nn('self', 'other')(c) + [('self is a Term', isT(c.e('self')))], results=lambda c: [BOOL],
    post=lambda c: [('== on terms compares functor and arguments', c.eng.lift(c.result, BOOL).e == teq(c.st0.H, c.e('self'), c.e('other')))])
def hpost(c): return [('the hash is that of the resolved term', c.eng.lift(c.result, INT).e == hs(rs(c.st0.H, c.e('self'))))]
add('Var.__hash__', params=[('self', PVT)], pre=lambda c: shp('self')(c) + [('self is a variable', isV(c.e('self')))], results=lambda c: [INT], post=hpost)
add('Term.__hash__', params=[('self', PVT)], pre=lambda c: shp('self')(c) + [('self is a Term', isT(c.e('self')))], results=lambda c: [INT], post=hpost)
def lpost(a_, b_): return lambda c: [('the order of the resolved terms', c.eng.lift(c.result, BOOL).e == LT(rs(c.st0.H, c.e(a_)), rs(c.st0.H, c.e(b_))))]
def linv(L):
    fr = L.st.frames[L.eng.top_frame]
    Hh = L.st0.H
    if 'rests' in L.it: (w1, w2), (r1, r2) = L.it['wholes'], L.it['rests']
    else:
        nms = [n for n in L.eng.src_params] if hasattr(L.eng, 'src_params') else ['x', 'y']
        x_, y_ = fr.get('x'), fr.get('y')
        if x_ is None or y_ is None: raise Unsupported('locals')
        w1, w2 = (L.eng.theory.pl(L.st, v) for v in (x_, y_))
        if w1 is None or w2 is None: raise Unsupported('undetermined terms')
        r1, r2 = drop(w1, L.it['i']), drop(w2, L.it['i'])
    return [('the first difference is still ahead', lex(rsl(Hh, w1), rsl(Hh, w2)) == lex(rsl(Hh, r1), rsl(Hh, r2)))]
add('lt', params=[('x', PVT), ('y', PVT)], pre=shp('x', 'y'), results=lambda c: [BOOL], post=lpost('x', 'y'), loops=[LoopSpec(linv)])
add('Var.__lt__', params=[('self', PVT), ('other', PVT)], pre=lambda c: shp('self', 'other')(c) + [('self is a variable', isV(c.e('self')))], results=lambda c: [BOOL], post=lpost('self', 'other'))
add('Term.__lt__', params=[('self', PVT), ('other', PVT)], pre=lambda c: shp('self', 'other')(c) + [('self is a Term', isT(c.e('self')))], results=lambda c: [BOOL], post=lpost('self', 'other'))

def LEMMAS(C=C):
    out = []
    H0, i0, j0, k0, l0, m0, n0, a0, b0, d0, x0, y0 = (z3.Const('H0', HS), z3.Int('i0'), z3.Int('j0'), z3.Int('k0'), z3.Const('l0', PL), z3.Const('m0', PL), z3.Const('n0', PL), z3.Const('a0', PV), z3.Const('b0', PV),
        z3.Const('d0', PV), z3.Const('x0', PV), z3.Const('y0', PV))
    c0, c1, c2 = z3.Const('c0', PyConst), z3.Const('c1', PyConst), z3.Const('c2', PyConst)
    # lists
    DR = [FA([l], drop(l, 0) == l, drop(l, 0)), FA([h, l, i], Imp(i > 0, drop(cons(h, l), i) == drop(l, i - 1)), drop(cons(h, l), i)),
          FA([h, l], nth(cons(h, l), 0) == h, nth(cons(h, l), 0)), FA([h, l, i], Imp(i > 0, nth(cons(h, l), i) == nth(l, i - 1)), nth(cons(h, l), i))] + defs_len() + LEN_POS
    def dp(l_, i_): return And(Imp(And(0 <= i_, i_ < plen(l_)), And(drop(l_, i_) == cons(nth(l_, i_), drop(l_, i_ + 1)))), Imp(And(0 <= i_, i_ <= plen(l_)), plen(drop(l_, i_)) == plen(l_) - i_))
    def wn(l_, i_): return Imp(And(0 <= i_, i_ < plen(l_)), And(Imp(wal(l_), wa(nth(l_, i_))), Imp(nnl(l_), nn(nth(l_, i_)))))
    out.append(('indexing: nil', [], And(dp(nil, i0), wn(nil, i0)), DR)); out.append(('indexing: cons', [dp(l0, i0 - 1), wn(l0, i0 - 1), drop(cons(a0, l0), i0 + 1) == drop(cons(a0, l0), i0 + 1)], And(dp(cons(a0, l0), i0), wn(cons(a0, l0), i0)), DR + WA + defs_nn()))
    out.append(('resolving keeps lengths', [plen(rsl(H0, l0)) == plen(l0)], And(plen(rsl(H0, nil)) == 0, plen(rsl(H0, cons(a0, l0))) == plen(cons(a0, l0))), RS + defs_len()))
    # snap and resolved terms
    def sp(t): return And(rs(H0, sn(H0, t)) == rs(H0, t), Imp(And(wH(H0), wa(t)), wa(sn(H0, t))), Imp(isV(sn(H0, t)), S(H0, PV.vid(sn(H0, t))) == Null))
    A = RS + defs_sn() + WA + WH
    out.append(('snap: unbound variable', [S(H0, j0) == Null], sp(V(j0)), A)); out.append(('snap: bound variable', [S(H0, j0) != Null, sp(S(H0, j0))], sp(V(j0)), A))
    for nm, t in (('constant', C(c0)), ('term', T(l0)), ('tuple', Tu(l0)), ('list', Li(l0)), ('unbound marker', Null)): out.append((f'snap: {nm}', [], sp(t), A))
    def wr(t): return Imp(And(wH(H0), wa(t)), wa(rs(H0, t)))
    def wrl(t): return Imp(And(wH(H0), wal(t)), And(wal(rsl(H0, t)), PL.is_cons(rsl(H0, t)) == PL.is_cons(t), Imp(And(PL.is_cons(t), isC(PL.hd(t))), PL.hd(rsl(H0, t)) == PL.hd(t))))
    out.append(('resolved: variable', [Imp(S(H0, j0) != Null, wr(S(H0, j0)))], wr(V(j0)), A)); out.append(('resolved: constant', [], wr(C(c0)), A)); out.append(('resolved: term', [wrl(l0)], wr(T(l0)), A))
    out.append(('resolved: nil', [], wrl(nil), A)); out.append(('resolved: cons', [wr(a0), wrl(l0)], wrl(cons(a0, l0)), A + [FA([a], Imp(isC(a), rs(H0, a) == a), rs(H0, a))]))
    out.append(('resolved: constants are themselves', [isC(a0)], rs(H0, C(PV.const(a0))) == a0, RS))
    # == is equality of the resolved terms
    A = RS + defs_sn() + defs_peq() + WA + WH
    W = lambda t: And(wH(H0), wa(t))
    def pq(p, q): return Imp(And(W(p), W(q)), peq(H0, p, q) == (rs(H0, p) == rs(H0, q)))
    def pql(p, q): return Imp(And(wH(H0), wal(p), wal(q)), peql(H0, p, q) == (rsl(H0, p) == rsl(H0, q)))
    SNP = [FA([H, x], And(rs(H, sn(H, x)) == rs(H, x)), sn(H, x)), FA([H, x], Imp(And(wH(H), wa(x)), wa(sn(H, x))), MP(wH(H), sn(H, x))), FA([H, x], Imp(isV(sn(H, x)), S(H, PV.vid(sn(H, x))) == Null), sn(H, x)),
           FA([H, x], Not(And(isV(sn(H, x)), S(H, PV.vid(sn(H, x))) != Null)), sn(H, x))]
    out.append(('kinds of terms', [wa(x0)] + [z3.Implies(k(x0), x0 == m_(f(x0))) for k, m_, f in ((isTu, Tu, PV.telems), (isLi, Li, PV.lelems))], Or(isV(x0), isT(x0), isC(x0)), WA))
    shapes = [('variable', V(i0), V(j0)), ('term', T(l0), T(m0)), ('constant', C(c0), C(c1))]
    for nm, p, _ in shapes:
        for nm2, _, q in shapes:
            ih = [pq(sn(H0, q), C(c0))] if (nm, nm2) == ('constant', 'variable') else [pql(l0, PV.fargs(sn(H0, q)))] if (nm, nm2) == ('term', 'variable') else [pq(sn(H0, p), sn(H0, q))] if 'variable' in (nm, nm2) else [pql(l0, m0)] if nm == nm2 == 'term' else []
            if 'variable' in (nm, nm2):
                # the two ends of the chains: an unbound variable is equal to itself only
                u, w = sn(H0, p), sn(H0, q)
                vars_ = [Or(isV(u), isT(u), isC(u)), Or(isV(w), isT(w), isC(w)), Imp(isC(w), rs(H0, w) == w), Imp(isC(u), rs(H0, u) == u), Imp(isV(u), And(rs(H0, u) == u)), Imp(isV(w), rs(H0, w) == w), Imp(Not(isV(u)), Not(isV(rs(H0, u)))), Imp(Not(isV(w)), Not(isV(rs(H0, w))))]
                out.append((f'equality: {nm}, {nm2}', ih + vars_ + ([Imp(isT(w), rs(H0, T(PV.fargs(w))) == T(rsl(H0, PV.fargs(w)))), wal(l0), Imp(isT(w), wal(PV.fargs(w)))] if (nm, nm2) == ('term', 'variable') else []) + [W(p), W(q), wa(u), wa(w), Imp(isT(w), And(w == T(PV.fargs(w)), wa(T(PV.fargs(w))))), Imp(isT(u), And(u == T(PV.fargs(u)), wa(T(PV.fargs(u))))), rs(H0, u) == rs(H0, p), rs(H0, w) == rs(H0, q)], peq(H0, p, q) == (rs(H0, p) == rs(H0, q)), defs_peq() + RS + defs_sn()))
            else: out.append((f'equality: {nm}, {nm2}', ih, pq(p, q), A))
    out.append(('equality: ends of chains', [S(H0, i0) == Null], And(rs(H0, V(i0)) == V(i0), Not(isV(rs(H0, T(l0)))), Not(isV(rs(H0, C(c0))))), RS))
    out.append(('equality: nil, nil', [], pql(nil, nil), A)); out.append(('equality: nil, cons', [], And(pql(nil, cons(a0, l0)), pql(cons(a0, l0), nil)), A)); out.append(('equality: cons, cons', [pq(a0, b0), pql(l0, m0)], pql(cons(a0, l0), cons(b0, m0)), A))
    eqd = lambda p, q: peq(H0, p, q)
    hyp = [wH(H0), wa(x0), wa(y0), wa(d0)]
    out.append(('equality is reflexive, symmetric and transitive', hyp, And(eqd(x0, x0), eqd(x0, y0) == eqd(y0, x0), Imp(And(eqd(x0, y0), eqd(y0, d0)), eqd(x0, d0))), PEQ))
    out.append(('equal terms have equal hashes', hyp + [eqd(x0, y0)], hs(rs(H0, x0)) == hs(rs(H0, y0)), PEQ))
    # the order
    A = LTD + CLT + NLT + WA
    def irr(t): return Imp(wa(t), Not(LT(t, t)))
    def irrl(t): return Imp(wal(t), Not(lex(t, t)))
    for nm, t, ih in (('variable', V(i0), []), ('constant', C(c0), []), ('term', T(l0), [irrl(l0)])): out.append((f'irreflexive: {nm}', ih, irr(t), A))
    out.append(('irreflexive: nil', [], irrl(nil), A)); out.append(('irreflexive: cons', [irrl(l0)], irrl(cons(a0, l0)), A))
    def tot(p, q): return Imp(And(wa(p), wa(q)), And(Or(p == q, LT(p, q), LT(q, p)), Not(And(LT(p, q), LT(q, p)))))
    def totl(p, q): return Imp(And(wal(p), wal(q)), And(Or(p == q, lex(p, q), lex(q, p)), Not(And(lex(p, q), lex(q, p)))))
    for nm, p, _ in shapes:
        for nm2, _, q in shapes: out.append((f'total and asymmetric: {nm}, {nm2}', [totl(l0, m0)] if nm == nm2 == 'term' else [], tot(p, q), A))
    out.append(('total and asymmetric: nil, nil', [], totl(nil, nil), A)); out.append(('total and asymmetric: nil, cons', [], And(totl(nil, cons(a0, l0)), totl(cons(a0, l0), nil)), A))
    out.append(('total and asymmetric: cons, cons', [tot(a0, b0), totl(l0, m0)], totl(cons(a0, l0), cons(b0, m0)), A))
    def tr(p, q, r): return Imp(And(wa(p), wa(q), wa(r), LT(p, q), LT(q, r)), LT(p, r))
    def trl(p, q, r): return Imp(And(wal(p), wal(q), wal(r), lex(p, q), lex(q, r)), lex(p, r))
    A = A + CTR + NTR
    sh3 = [('variable', V(i0), V(j0), V(k0)), ('term', T(l0), T(m0), T(n0)), ('constant', C(c0), C(c1), C(c2))]
    hd_ = lambda t: PV.const(PL.hd(t))
    for nm, p, _, _ in sh3:
        for nm2, _, q, _ in sh3:
            for nm3, _, _, r in sh3:
                ih = [trl(l0, m0, n0)] if nm == nm2 == nm3 == 'term' else []
                if 'term' in (nm, nm2, nm3) and not ih and 'variable' not in (nm, nm2, nm3):
                    # the functors are constants; of two terms the smaller one has the smaller or the same functor
                    K = [clt(s_, t_) == clt(s_, t_) for s_ in (hd_(l0), hd_(m0), hd_(n0), c0, c1, c2) for t_ in (hd_(l0), hd_(m0), hd_(n0), c0, c1, c2)]
                    for s_, t_ in ((l0, m0), (m0, n0), (l0, n0)): K.append(Imp(And(wa(T(s_)), wa(T(t_)), lex(s_, t_)), Or(PL.hd(s_) == PL.hd(t_), clt(hd_(s_), hd_(t_)))))
                    ih = K
                out.append((f'transitive: {nm}, {nm2}, {nm3}', ih, tr(p, q, r), A))
    out.append(('the functors are compared first', [wa(T(cons(C(c0), l0))), wa(T(cons(C(c1), m0))), lex(cons(C(c0), l0), cons(C(c1), m0))], Or(c0 == c1, clt(c0, c1)), A))
    for k1, p in (('nil', nil), ('cons', cons(a0, l0))):
        for k2, q in (('nil', nil), ('cons', cons(b0, m0))):
            for k3, r in (('nil', nil), ('cons', cons(d0, n0))):
                ih = [tr(a0, b0, d0), trl(l0, m0, n0), tot(a0, b0), tot(b0, d0), tot(a0, d0)] if k1 == k2 == k3 == 'cons' else []
                out.append((f'transitive: {k1}, {k2}, {k3}', ih, trl(p, q, r), A))
    out.append(('variables are above everything else', [wa(x0), Not(isV(x0))], And(Imp(isT(x0), LT(T(PV.fargs(x0)), V(i0))), Imp(isC(x0), LT(C(PV.const(x0)), V(i0))), Or(isT(x0), isC(x0))), A))
    return out

C = C_
