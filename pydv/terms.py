"""Theory of dyna terms for the symbolic executor.

PV (Python values that can be terms):
   V(id)   runtime variable (identity)            T(args)  Term, args = its fargs (functor first)
   Tu(l)   tuple / Product      Li(l)  list        C(c)    constant, modulo Python ==    Null  Ellipsis (unbound marker)
H : id -> PV is the heap of Var.value cells (Null = unbound).

Semantics: for an ARBITRARY valuation sig : id -> G of variables by ground values,
val(t) is the denotation, Mod(H) says that sig satisfies every binding of H.
Every contract is proved for an uninterpreted sig, i.e. for all valuations.
"""
import ast
import z3
from .values import *
from . import frontend

I = z3.IntSort()
PyConst = z3.DeclareSort('PyConst')
_pv, _pl = z3.Datatype('PV'), z3.Datatype('PL')
_pv.declare('V', ('vid', I))
_pv.declare('T', ('fargs', _pl))
_pv.declare('Tu', ('telems', _pl))
_pv.declare('Li', ('lelems', _pl))
_pv.declare('C', ('const', PyConst))
_pv.declare('Null')
_pl.declare('nil')
_pl.declare('cons', ('hd', _pv), ('tl', _pl))
PV, PL = z3.CreateDatatypes(_pv, _pl)
PVT = Ty('pv', PV)
PLT = Ty('pl', PL)
HS = z3.ArraySort(I, PV)

_g, _gl = z3.Datatype('G'), z3.Datatype('GL')
_g.declare('gT', ('gtl', _gl))
_g.declare('gTu', ('gtul', _gl))
_g.declare('gC', ('gc', PyConst))
_gl.declare('gnil')
_gl.declare('gcons', ('ghd', _g), ('gtl_', _gl))
G, GL = z3.CreateDatatypes(_g, _gl)

V, T, Tu, Li, C, Null = PV.V, PV.T, PV.Tu, PV.Li, PV.C, PV.Null
nil, cons = PL.nil, PL.cons
isV, isT, isTu, isLi, isC, isNull = PV.is_V, PV.is_T, PV.is_Tu, PV.is_Li, PV.is_C, PV.is_Null
F = z3.Function
B = z3.BoolSort()
sig = F('sig', I, G)
val = F('val', PV, G); vall = F('vall', PL, GL)
sz = F('sz', G, I); szl = F('szl', GL, I)
plen = F('plen', PL, I); glen = F('glen', GL, I)
Mod = F('Mod', HS, B)
WF = F('WF', HS, B)
nn = F('nn', PV, B); nnl = F('nnl', PL, B)
occ = F('occ', HS, I, PV, B); occl = F('occl', HS, I, PL, B)
sn = F('sn', HS, PV, PV)
peq = F('peq', HS, PV, PV, B); peql = F('peql', HS, PL, PL, B)
sameobj = F('sameobj', PV, PV, B)
old = F('old', I, B); av = F('allold', PV, B); avl = F('alloldl', PL, B)      # variables existing at entry
gr = F('gr', HS, PV, B); grl = F('grl', HS, PL, B)          # ground under H

h, x, y, i, j, l, m, a, b, c, d, H, H2, g, k = (
    z3.Const('qh', PV), z3.Const('qx', PV), z3.Const('qy', PV), z3.Int('qi'), z3.Int('qj'), z3.Const('ql', PL), z3.Const('qm', PL),
    z3.Const('qa', PV), z3.Const('qb', PV), z3.Const('qc', PyConst), z3.Const('qd', PyConst), z3.Const('qH', HS), z3.Const('qH2', HS), z3.Const('qg', GL), z3.Const('qk', G))
S, St = z3.Select, z3.Store
And, Or, Not, Imp, ForAll, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.If


def FA(vs, body, *pats):
    return ForAll(vs, body, patterns=[p if isinstance(p, z3.PatternRef) else p for p in pats]) if pats else ForAll(vs, body)

def MP(*ts): return z3.MultiPattern(*ts)


def defs_val(tagged):
    tu = G.gTu if tagged else G.gT
    ax = [FA([i], val(V(i)) == sig(i), val(V(i))),
          FA([l], val(T(l)) == G.gT(vall(l)), val(T(l))),
          FA([l], val(Tu(l)) == tu(vall(l)), val(Tu(l))),
          FA([c], val(C(c)) == G.gC(c), val(C(c))),
          vall(nil) == GL.gnil,
          FA([h, l], vall(cons(h, l)) == GL.gcons(val(h), vall(l)), vall(cons(h, l)))]
    if not tagged: ax.append(FA([l], val(Li(l)) == G.gT(vall(l)), val(Li(l))))
    return ax

def defs_size():
    return [FA([g], sz(G.gT(g)) == 1 + szl(g), G.gT(g)), FA([g], sz(G.gTu(g)) == 1 + szl(g), G.gTu(g)),
            FA([c], sz(G.gC(c)) == 1, G.gC(c)), szl(GL.gnil) == 0,
            FA([k, g], szl(GL.gcons(k, g)) == sz(k) + szl(g), GL.gcons(k, g))]
SIZE_POS = [FA([k], sz(k) >= 1, sz(k)), FA([g], szl(g) >= 0, szl(g))]

def defs_len():
    return [plen(nil) == 0, FA([h, l], plen(cons(h, l)) == 1 + plen(l), cons(h, l)),
            glen(GL.gnil) == 0, FA([k, g], glen(GL.gcons(k, g)) == 1 + glen(g), GL.gcons(k, g))]
LEN_POS = [FA([l], And(plen(l) >= 0, (plen(l) == 0) == (l == nil)), plen(l))]
LEN_VAL = [FA([l], glen(vall(l)) == plen(l), vall(l))]

def defs_nn():
    return [FA([i], nn(V(i)), V(i)), FA([c], nn(C(c)), C(c)), Not(nn(Null)), nnl(nil),
            FA([l], nn(T(l)) == nnl(l), T(l)), FA([l], nn(Tu(l)) == nnl(l), Tu(l)), FA([l], nn(Li(l)) == nnl(l), Li(l)),
            FA([h, l], nnl(cons(h, l)) == And(nn(h), nnl(l)), cons(h, l))]

MOD_DEF = FA([H], Mod(H) == ForAll([i], Imp(S(H, i) != Null, sig(i) == val(S(H, i))), patterns=[S(H, i)]), Mod(H))
WF_DEF = FA([H], WF(H) == ForAll([i], Or(S(H, i) == Null, nn(S(H, i))), patterns=[S(H, i)]), WF(H))
MOD_BIND = FA([H, i, y], Imp(And(S(H, i) == Null, y != Null), Mod(St(H, i, y)) == And(Mod(H), sig(i) == val(y))), Mod(St(H, i, y)))
MOD_USE = FA([H, i], Imp(And(Mod(H), S(H, i) != Null), sig(i) == val(S(H, i))), MP(Mod(H), S(H, i)))
WF_BIND = FA([H, i, y], Imp(And(WF(H), Or(y == Null, nn(y))), WF(St(H, i, y))), WF(St(H, i, y)))
WF_USE = FA([H, i], Imp(And(WF(H), S(H, i) != Null), nn(S(H, i))), MP(WF(H), S(H, i)))

def defs_occ():
    return [FA([H, i, j], occ(H, i, V(j)) == Or(i == j, And(S(H, j) != Null, occ(H, i, S(H, j)))), occ(H, i, V(j))),
            FA([H, i, c], Not(occ(H, i, C(c))), occ(H, i, C(c))),
            FA([H, i, l], occ(H, i, T(l)) == occl(H, i, l), occ(H, i, T(l))),
            FA([H, i, l], occ(H, i, Tu(l)) == occl(H, i, l), occ(H, i, Tu(l))),
            FA([H, i, l], occ(H, i, Li(l)) == occl(H, i, l), occ(H, i, Li(l))),
            FA([H, i], Not(occl(H, i, nil)), occl(H, i, nil)),
            FA([H, i, h, l], occl(H, i, cons(h, l)) == Or(occ(H, i, h), occl(H, i, l)), occl(H, i, cons(h, l)))]

def defs_sn():
    return [FA([H, j], sn(H, V(j)) == If(S(H, j) == Null, V(j), sn(H, S(H, j))), sn(H, V(j))),
            FA([H, l], sn(H, T(l)) == T(l), sn(H, T(l))), FA([H, l], sn(H, Tu(l)) == Tu(l), sn(H, Tu(l))),
            FA([H, l], sn(H, Li(l)) == Li(l), sn(H, Li(l))), FA([H, c], sn(H, C(c)) == C(c), sn(H, C(c)))]

def veq(H, x, y):
    "what Var.__eq__ must compute"
    u, w = sn(H, x), sn(H, y)
    return If(Or(isV(u), isV(w)), u == w, peq(H, u, w))

def teq(H, x, y):
    "what Term.__eq__ must compute (x a Term)"
    w = sn(H, y)
    return And(isT(w), peql(H, PV.fargs(x), PV.fargs(w)))

def defs_peq():
    ax = [FA([H, i, y], peq(H, V(i), y) == veq(H, V(i), y), peq(H, V(i), y)),
          FA([H, l, y], peq(H, T(l), y) == teq(H, T(l), y), peq(H, T(l), y))]
    for K, v in ((C, c), (Tu, l), (Li, l)):
        ax.append(FA([H, v, j], peq(H, K(v), V(j)) == veq(H, V(j), K(v)), peq(H, K(v), V(j))))
        ax.append(FA([H, v, m], peq(H, K(v), T(m)) == teq(H, T(m), K(v)), peq(H, K(v), T(m))))
    ax += [FA([H, c, d], peq(H, C(c), C(d)) == (c == d), peq(H, C(c), C(d))),
           FA([H, l, m], peq(H, Tu(l), Tu(m)) == peql(H, l, m), peq(H, Tu(l), Tu(m))),
           FA([H, l, m], peq(H, Li(l), Li(m)) == peql(H, l, m), peq(H, Li(l), Li(m))),
           FA([H, l, m], Not(peq(H, Tu(l), Li(m))), peq(H, Tu(l), Li(m))), FA([H, l, m], Not(peq(H, Li(l), Tu(m))), peq(H, Li(l), Tu(m))),
           FA([H, c, m], Not(peq(H, C(c), Tu(m))), peq(H, C(c), Tu(m))), FA([H, c, m], Not(peq(H, Tu(m), C(c))), peq(H, Tu(m), C(c))),
           FA([H, c, m], Not(peq(H, C(c), Li(m))), peq(H, C(c), Li(m))), FA([H, c, m], Not(peq(H, Li(m), C(c))), peq(H, Li(m), C(c))),
           FA([H], peql(H, nil, nil), peql(H, nil, nil)),
           FA([H, h, l], Not(peql(H, nil, cons(h, l))), peql(H, nil, cons(h, l))), FA([H, h, l], Not(peql(H, cons(h, l), nil)), peql(H, cons(h, l), nil)),
           FA([H, a, b, l, m], peql(H, cons(a, l), cons(b, m)) == And(peq(H, a, b), peql(H, l, m)), peql(H, cons(a, l), cons(b, m)))]
    return ax

# consequences (each proved as a lemma by evaluation induction, see lemmas())
SN_VAL = [FA([H, x], Imp(And(Mod(H)), val(sn(H, x)) == val(x)), sn(H, x)),
          FA([H, j], Imp(isV(sn(H, V(j))), S(H, PV.vid(sn(H, V(j)))) == Null), sn(H, V(j))),
          FA([H, x], Imp(And(WF(H), nn(x)), nn(sn(H, x))), MP(WF(H), sn(H, x)))]
PEQ_VAL = [FA([H, x, y], Imp(And(Mod(H), peq(H, x, y)), val(x) == val(y)), peq(H, x, y)),
           FA([H, l, m], Imp(And(Mod(H), peql(H, l, m)), vall(l) == vall(m)), peql(H, l, m))]


def defs_gr():
    return [FA([H, j], gr(H, V(j)) == And(S(H, j) != Null, gr(H, S(H, j))), gr(H, V(j))), FA([H, c], gr(H, C(c)), gr(H, C(c))),
            FA([H, l], gr(H, T(l)) == grl(H, l), gr(H, T(l))), FA([H, l], gr(H, Tu(l)) == grl(H, l), gr(H, Tu(l))), FA([H, l], gr(H, Li(l)) == grl(H, l), gr(H, Li(l))),
            FA([H], grl(H, nil), grl(H, nil)), FA([H, h, l], grl(H, cons(h, l)) == And(gr(H, h), grl(H, l)), grl(H, cons(h, l)))]


def all_vars(name, P):
    "axioms of 'every variable occurring (syntactically) in t satisfies P' : returns (pred, predl, axioms)"
    p, pl_ = F(name, PV, B), F(name + 'l', PL, B)
    return p, pl_, [FA([i], p(V(i)) == P(i), p(V(i))), FA([a], Imp(isV(a), p(a) == P(PV.vid(a))), p(a)), FA([c], p(C(c)), p(C(c))), p(Null),
                    FA([l], p(T(l)) == pl_(l), p(T(l))), FA([l], p(Tu(l)) == pl_(l), p(Tu(l))), FA([l], p(Li(l)) == pl_(l), p(Li(l))),
                    pl_(nil), FA([h, l], pl_(cons(h, l)) == And(p(h), pl_(l)), pl_(cons(h, l)))]
av, avl, AV = all_vars('allold', old)

TERM = 'dyna/term.py'
CTORS = {'Var': V, 'Term': T, 'tuple': Tu, 'Product': Tu, 'list': Li}
CLS = {'V': (TERM, 'Var'), 'T': (TERM, 'Term'), 'Tu': (TERM, 'Product')}


class TermTheory:
    needs_heap = True

    def __init__(self, extra=(), tagged=False, pure=False, extra_fn=None):
        self.tagged, self.pure = tagged, pure
        self.extra = list(extra)

    def axioms(self, eng):
        return (defs_val(self.tagged) + defs_size() + SIZE_POS + defs_len() + LEN_POS + LEN_VAL + defs_nn() +
                [MOD_BIND, MOD_USE, WF_BIND, WF_USE] + defs_occ() + defs_sn() + SN_VAL + defs_peq() + PEQ_VAL + defs_gr() + AV + self.extra + self.const_axioms())

    _consts = {}
    def constant(self, v):
        k = (type(v).__name__, v) if not isinstance(v, (int, float, bool)) else ('num', v)
        if k not in self._consts:
            self._consts[k] = z3.Const(f'const!{len(self._consts)}!{v}', PyConst)
        return self._consts[k]
    def const_axioms(self):
        cs = list(self._consts.values())
        return [z3.Distinct(*cs)] if len(cs) > 1 else []

    def fresh_heap(self): return z3.Const(fresh_name('H'), HS)
    def assume_params(self, eng, st, args, contract):
        if self.pure: st.assume(st.H == z3.K(I, Null))

    # ---------------------------------------------------------------- shapes
    def shape(self, st, e):
        "constructor application known to equal e on this path, or None"
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return e
        return st.ghost.get('shape', {}).get(e.get_id(), (None, None))[1]

    def learn(self, st, e, ctor):
        sh = dict(st.ghost.get('shape', {}))
        sh[e.get_id()] = (e, ctor)
        st.ghost['shape'] = sh
        st.assume(e == ctor)

    def kind(self, st, e):
        s = self.shape(st, e)
        return None if s is None else s.decl().name()

    def pl(self, st, v):
        "PL of a sequence value"
        s = self.shape(st, v.e)
        if s is None or s.decl().name() not in ('T', 'Tu', 'Li'): return None
        return s.arg(0)

    def expand(self, eng, st, e):
        "fork on the constructor of e -> [(st, shape)]"
        s = self.shape(st, e)
        if s is not None: return [(st, s)]
        out = []
        for nm, mk, rec in (('V', V, isV), ('T', T, isT), ('Tu', Tu, isTu), ('Li', Li, isLi), ('C', C, isC), ('Null', None, isNull)):
            if not eng.feasible(st, rec(e)): continue
            s2 = st.copy()
            if mk is None: ct = Null
            else:
                p = mk.domain(0)
                ct = mk(z3.Const(fresh_name({'V': 'vid', 'C': 'cst'}.get(nm, 'args')), p))
            self.learn(s2, e, ct)
            out.append((s2, ct))
        return out

    def expand_pl(self, eng, st, l):
        s = self.shape(st, l)
        if s is not None: return [(st, s)]
        out = []
        for ct in (nil, cons(z3.Const(fresh_name('hd'), PV), z3.Const(fresh_name('tl'), PL))):
            if not eng.feasible(st, l == ct): continue
            s2 = st.copy()
            self.learn(s2, l, ct)
            out.append((s2, ct))
        return out

    # ---------------------------------------------------------------- hooks
    def coerce(self, eng, v, ty):
        if ty == PVT:
            if isinstance(v, Z) and v.ty == PVT: return v
            if isinstance(v, Py):
                if v.v is Ellipsis: return Z(Null, PVT)
                if v.v is None or isinstance(v.v, (str, int, float, bool)): return Z(C(self.constant(v.v)), PVT)
            if isinstance(v, Tup):
                l_ = nil
                for it in reversed(v.items): l_ = cons(eng.lift(it, PVT).e, l_)
                return Z((Li if v.kind == 'list' else Tu)(l_), PVT)
        return None

    def truth(self, eng, st, v): return None

    def is_pv(self, v): return isinstance(v, Z) and v.ty == PVT
    def ispv2(self, a, b): return self.is_pv(a) or self.is_pv(b)

    def eq(self, eng, st, a, b):
        if not self.ispv2(a, b): return None
        if isinstance(a, (Ref, Place)) or isinstance(b, (Ref, Place)): return None
        a, b = eng.lift(a, PVT), eng.lift(b, PVT)
        if self.pure: return a.e == b.e
        a, b = self.shape(st, a.e) if self.shape(st, a.e) is not None else a.e, self.shape(st, b.e) if self.shape(st, b.e) is not None else b.e
        return peq(st.H, a, b)

    def is_(self, eng, st, a, b):
        if not self.ispv2(a, b): return None
        if isinstance(a, Ref) or isinstance(b, Ref): return False
        for p, q in ((a, b), (b, a)):
            if isinstance(q, Py) and q.v is Ellipsis: return p.e == Null
            if isinstance(q, Py) and q.v is None: return p.e == C(self.constant(None))
        a, b = eng.lift(a, PVT).e, eng.lift(b, PVT).e
        so = sameobj(a, b)
        st.assume(Imp(so, a == b))
        return If(Or(isV(a), isV(b)), a == b, so)

    def isinst(self, eng, st, v, name):
        if not self.is_pv(v): return None
        if name in CTORS:
            r = {'Var': isV, 'Term': isT, 'tuple': isTu, 'Product': isTu, 'list': isLi}[name](v.e)
            s = self.shape(st, v.e)
            if s is not None:
                nm = s.decl().name()
                return nm == {'Var': 'V', 'Term': 'T', 'tuple': 'Tu', 'Product': 'Tu', 'list': 'Li'}[name]
            return r
        return False        # sets, OrderedSets, Streams, ints...: outside the modelled universe (stated assumption)

    def after_isinstance(self, eng, st, v, ts, cs):
        if not self.is_pv(v): return [(st, Z(Or(*cs) if len(cs) > 1 else cs[0], BOOL))]
        names = [t.name for t in ts]
        out = []
        for s, ct in self.expand(eng, st, v.e):
            nm = ct.decl().name()
            out.append((s, Py(any({'Var': 'V', 'Term': 'T', 'tuple': 'Tu', 'Product': 'Tu', 'list': 'Li'}.get(n) == nm for n in names))))
        return out

    def getattr(self, eng, st, v, name, line):
        if not self.is_pv(v): return None
        out = []
        for s, ct in self.expand(eng, st, v.e):
            nm = ct.decl().name()
            if nm == 'V' and name == 'value': out.append((s, Z(S(s.H, ct.arg(0)), PVT))); continue
            if nm == 'V' and name == 'name': out.append((s, Opaque('variable name'))); continue
            if nm == 'T' and name == 'fargs': out.append((s, Z(Tu(ct.arg(0)), PVT))); continue
            if nm == 'T' and name == '__class__': out.append((s, Cls(TERM, 'Term'))); continue
            if nm == 'T' and name == 'i': out.append((s, Opaque('i'))); continue
            if nm in CLS:
                ms = eng.class_methods(CLS[nm])
                if name in ms:
                    node = ms[name]
                    fn = Func(node, TERM, selfv=v, qual=f'{CLS[nm][1]}.{name}', cls=CLS[nm])
                    decs = [dd.id for dd in node.decorator_list if isinstance(dd, ast.Name)]
                    if 'property' in decs: out.extend(eng.call_func(s, fn, [], {}, line))
                    else: out.append((s, fn))
                    continue
            out.append((s, Raised('AttributeError', line=line)))
        return out

    def hasattr(self, eng, st, v, name):
        if self.is_pv(v):
            if name == 'i': return [(st, Z(z3.Const(fresh_name('has_i'), B), BOOL))]
        return None

    def setattr(self, eng, st, o, name, v, line):
        if not self.is_pv(o): return None
        s = self.shape(st, o.e)
        if s is None: raise Unsupported('setattr on undetermined value')
        if s.decl().name() == 'T' and name == 'i': return True          # bookkeeping attribute, not modelled
        if s.decl().name() == 'V' and name == 'name': return True
        if s.decl().name() != 'V' or name != 'value': raise Unsupported(f'setattr .{name}')
        vi, y = s.arg(0), eng.lift(v, PVT).e
        eng.oblige(st, 'binding does not close a cycle', Imp(y != Null, Not(occ(st.H, vi, y))), line)
        base = st.H
        if z3.is_app(base) and base.decl().kind() == z3.Z3_OP_STORE and base.arg(1).eq(vi): base = base.arg(0)
        st.H = base if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT and y.arg(0).eq(base) and y.arg(1).eq(vi) else St(base, vi, y)
        st.writes.add(('H',))
        return True

    def destructure(self, eng, st, t, v, star):
        if not self.is_pv(v): return None
        out = []
        for s, ct in self.expand(eng, st, v.e):
            if ct.decl().name() not in ('T', 'Tu', 'Li'):
                out.append(('raise', s, Raised('TypeError', line=t.lineno))); continue
            n = len(t.elts)
            if star and star[0] != n - 1: raise Unsupported('starred pattern not last')
            cur = [(s, ct.arg(0), [])]
            for kx in range(n - (1 if star else 0)):
                nxt = []
                for s1, l_, items in cur:
                    for s2, pc in self.expand_pl(eng, s1, l_):
                        if pc.decl().name() == 'nil': out.append(('raise', s2, Raised('ValueError', line=t.lineno)))
                        else: nxt.append((s2, pc.arg(1), items + [Z(pc.arg(0), PVT)]))
                cur = nxt
            for s1, l_, items in cur:
                if star: items = items + [Z(Li(l_), PVT)]
                else:
                    ok = []
                    for s2, pc in self.expand_pl(eng, s1, l_):
                        if pc.decl().name() == 'nil': ok.append(s2)
                        else: out.append(('raise', s2, Raised('ValueError', line=t.lineno)))
                    if not ok: continue
                    s1 = ok[0]
                outs = [('normal', s1, None)]
                for e, it in zip(t.elts, items):
                    outs = [z for k_, s2, r in outs for z in (eng.assign(e.value if isinstance(e, ast.Starred) else e, it, s2) if k_ == 'normal' else [(k_, s2, r)])]
                out.extend(outs)
        return out

    def norm_iter(self, eng, st, v):
        "Term instances are iterated through their own __iter__"
        if self.is_pv(v) and self.kind(st, v.e) == 'T':
            ms = eng.class_methods((TERM, 'Term'))
            fn = Func(ms['__iter__'], TERM, selfv=v, qual='Term.__iter__', cls=(TERM, 'Term'))
            r = eng.call_func(st, fn, [], {}, 0)
            if len(r) != 1: raise Unsupported('branching Term.__iter__')
            return eng.norm_iter(r[0][0], r[0][1])
        return None

    def seqs(self, st, it):
        if self.is_pv(it):
            l_ = self.pl(st, it)
            if l_ is None: raise Unsupported('iterating an undetermined value')
            return [l_]
        if isinstance(it, IterV) and it.kind == 'zip' and all(self.is_pv(a) for a in it.args):
            r = [self.pl(st, a) for a in it.args]
            if any(z is None for z in r): raise Unsupported('zip of undetermined values')
            return r
        return None

    def iter_start(self, eng, st, it):
        if isinstance(it, IterV) and it.kind == 'prophecy':
            g0 = self.iter_start(eng, st, it.args[0])
            if g0 is None: raise Unsupported('comprehension iterable')
            return dict(g0, rrest=it.args[1], res=it.args[1])
        ls = self.seqs(st, it)
        if ls is None: return None
        return {'kind': 'pl', 'wholes': ls, 'rests': ls, 'zip': not self.is_pv(it), 'whole': ls[0], 'rest': ls[0]}

    def iter_arbitrary(self, eng, st, it, g0):
        if g0.get('kind') != 'pl': return None
        g2 = dict(g0)
        g2['rests'] = [z3.Const(fresh_name('rest'), PL) for _ in g0['rests']]
        g2['rest'] = g2['rests'][0]
        if 'rrest' in g2: g2['rrest'] = z3.Const(fresh_name('rrest'), PL)
        return g2

    def iter_done(self, eng, st, it, g):
        if g.get('kind') != 'pl': return None
        cs = [Or(*[r == nil for r in g['rests']])]
        if 'rrest' in g: cs.append(g['rrest'] == nil)
        return And(*cs)

    def iter_next(self, eng, st, it, g):
        if g.get('kind') != 'pl': return None
        facts, xs, rs = [], [], []
        for r in g['rests']:
            hd, tl = z3.Const(fresh_name('e'), PV), z3.Const(fresh_name('rest'), PL)
            facts.append(r == cons(hd, tl)); xs.append(Z(hd, PVT)); rs.append(tl)
        g2 = dict(g, rests=rs, rest=rs[0], cur=[z.e for z in xs])
        if 'rrest' in g:
            o, tl = z3.Const(fresh_name('out'), PV), z3.Const(fresh_name('rrest'), PL)
            facts.append(g['rrest'] == cons(o, tl))
            g2['rrest'] = tl; g2['out'] = o
            st.ghost['prophecy_out'] = o
        return (Tup(xs) if g['zip'] else xs[0]), g2, facts

    def global_name(self, eng, name, module):
        if name == 'Ellipsis': return Py(Ellipsis)
        if name in ('OrderedSet',): return None
        return None

    def build_seq(self, eng, st, vs, kind):
        "(*xs, a, ...) with a single symbolic star in final position"
        l_ = None
        for v in reversed(vs):
            if isinstance(v, tuple):
                if l_ is not None: return None
                l_ = self.pl(st, v[1]) if self.is_pv(v[1]) else None
                if l_ is None: return None
            else: l_ = cons(eng.lift(v, PVT).e, l_ if l_ is not None else nil)
        return Z((Tu if kind == 'tuple' else Li)(l_), PVT)

    def unop(self, eng, st, op, v): return None
    def compare(self, eng, st, op, a, b, line): return None
    def key(self, eng, st, k_, kty):
        if kty == INT and self.is_pv(k_):
            s = self.shape(st, k_.e)
            if s is not None and s.decl().name() == 'V': return Z(s.arg(0), INT)
            eng.oblige(st, 'dictionary key is a variable', isV(k_.e))
            return Z(PV.vid(k_.e), INT)
        return None

    def contains(self, eng, st, x_, c_, line):
        o = eng.read(st, c_)
        if isinstance(o, MapO) and o.kty == INT and not isinstance(x_, Py):
            x_ = eng.lift(x_, PVT)
            s = self.shape(st, x_.e)
            if s is not None: return [(st, S(o.dom, s.arg(0)) if s.decl().name() == 'V' else False)]
            return [(st, And(isV(x_.e), S(o.dom, PV.vid(x_.e))))]
        return None
    def binop(self, eng, st, op, a, b, line): return None

    def slice(self, eng, st, v, lo, hi, step, line):
        if not self.is_pv(v) or hi is not None or step is not None or lo not in (0, 1): return None
        out = []
        for s, ct in self.expand(eng, st, v.e):
            if ct.decl().name() not in ('Tu', 'Li'): raise Unsupported('slice of non-sequence')
            if lo == 0: out.append((s, v)); continue
            mk = Tu if ct.decl().name() == 'Tu' else Li
            for s2, pc in self.expand_pl(eng, s, ct.arg(0)):
                out.append((s2, Z(mk(nil if pc.decl().name() == 'nil' else pc.arg(1)), PVT)))
        return out

    def getitem(self, eng, st, o, k_, line):
        if not self.is_pv(o): return None
        if not (isinstance(k_, Py) and isinstance(k_.v, int) and k_.v >= 0): return None
        out = []
        for s, ct in self.expand(eng, st, o.e):
            if ct.decl().name() not in ('Tu', 'Li'): raise Unsupported('subscript of non-sequence')
            cur = [(s, ct.arg(0))]
            for _ in range(k_.v + 1):
                nxt = []
                for s1, l_ in cur:
                    for s2, pc in self.expand_pl(eng, s1, l_):
                        if pc.decl().name() == 'nil': out.append((s2, Raised('IndexError', line=line)))
                        else: nxt.append((s2, pc))
                cur = [(s2, pc.arg(1)) for s2, pc in nxt]
            out.extend((s2, Z(pc.arg(0), PVT)) for s2, pc in nxt)
        return out

    def new_var(self, eng, st):
        """A freshly created Var: an identity that occurs nowhere yet; unbound."""
        n = z3.Int(fresh_name('newvar'))
        st.assume(S(st.H, n) == Null)
        for nm, v in self.fresh_facts(eng, st, n): st.assume(v)
        return Z(V(n), PVT)

    def fresh_facts(self, eng, st, n):
        out = [('not a variable of the inputs', Not(old(n)))]
        for o in st.store.values():
            if isinstance(o, MapO) and o.vty == PVT:
                out.append(('not in a map', ForAll([i], Imp(S(o.dom, i), Not(occ(st.H, n, S(o.val, i)))), patterns=[S(o.dom, i)])))
                if o.kty == INT: out.append(('not a key', Not(S(o.dom, n))))
        return out

    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Cls) and f.name == 'Var' and f.module == TERM: return [(st, self.new_var(eng, st))]
        if isinstance(f, Cls) and f.name == 'Term' and f.module == TERM:
            vs = []
            for a_ in args:
                if isinstance(a_, tuple) and isinstance(a_[1], CompV):
                    r = self.comp(eng, st, a_[1].node, a_[1].frame, 'tuple')
                    if len(r) != 1: raise Unsupported('branching comprehension argument')
                    st, v = r[0]
                    if isinstance(v, Raised): return [(st, v)]
                    vs.append(('*', v))
                else: vs.append(a_)
            for a_ in vs:
                if isinstance(a_, tuple) and self.is_pv(a_[1]) and self.shape(st, a_[1].e) is None:
                    out = []
                    for s2, ct in self.expand(eng, st, a_[1].e): out.extend(self.call(eng, s2, f, vs, kwargs, line))
                    return out
            q = self.build_seq(eng, st, vs, 'tuple')
            if q is None: raise Unsupported('Term(...) arguments')
            return [(st, Z(T(q.e.arg(0)), PVT))]
        if isinstance(f, Cls) and f.name in getattr(self, 'dict_classes', ()):
            if not args: o = MapO(INT, PVT, z3.EmptySet(I), z3.K(I, Null))
            elif len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.store[args[0].loc], MapO): o = st.store[args[0].loc].copy()
            else: raise Unsupported(f'{f.name}(...)')
            o.cls = self.dict_classes[f.name]
            return [(st, st.alloc(o))]
        if isinstance(f, Builtin) and f.name == 'hasattr' and len(args) == 2 and isinstance(args[1], Py):
            return self.hasattr(eng, st, args[0], args[1].v)
        if isinstance(f, Builtin) and f.name in ('tuple', 'list') and len(args) == 1:
            v = args[0]
            if isinstance(v, CompV): return self.comp(eng, st, v.node, v.frame, f.name)
            if self.is_pv(v):
                l_ = self.pl(st, v)
                if l_ is not None and self.kind(st, v.e) != 'T': return [(st, Z((Tu if f.name == 'tuple' else Li)(l_), PVT))]
        if isinstance(f, Builtin) and f.name.endswith('OrderedSet') and not args:
            return [(st, st.alloc(SetO(PVT, z3.EmptySet(PV))))]
        if isinstance(f, Builtin) and f.name == 'id' and len(args) == 1 and self.is_pv(args[0]):
            ct = self.shape(st, args[0].e)
            if ct is not None and ct.decl().name() == 'V': return [(st, Z(ct.arg(0), INT))]
        return None

    def length(self, eng, st, v):
        if not self.is_pv(v): return None
        out = []
        for s, ct in self.expand(eng, st, v.e):
            nm = ct.decl().name()
            if nm == 'T':
                ms = eng.class_methods((TERM, 'Term'))
                out.extend(eng.call_func(s, Func(ms['__len__'], TERM, selfv=v, qual='Term.__len__', cls=(TERM, 'Term')), [], {}, 0))
            elif nm in ('Tu', 'Li'): out.append((s, Z(plen(ct.arg(0)), INT)))
            else: out.append((s, Raised('TypeError')))
        return out

    def to_set(self, eng, st, v): return None
    def to_list(self, eng, st, v): return None
    def to_tuple(self, eng, st, v): return None

    def listcomp(self, eng, st, e): return self.comp(eng, st, e, st.cur, 'list')

    def comp(self, eng, st, e, frame, kind):
        """A comprehension over a symbolic sequence: a loop whose output list is a prophecy constant."""
        if len(e.generators) != 1 or e.generators[0].ifs: return None
        gen = e.generators[0]
        caller = st.cur
        st.cur = frame
        out = []
        for s, it in eng.ev(gen.iter, st):
            if isinstance(it, Raised): s.cur = caller; out.append((s, it)); continue
            it = eng.norm_iter(s, it)
            if isinstance(it, Tup):
                s.cur = caller
                return eng.comp_static(e, s, kind)
            res = z3.Const(fresh_name('res'), PL)
            fid = fresh_name('fr')
            s.frames[fid] = {'$closure': frame, '$module': s.frames[frame]['$module'], '$cls': s.frames[frame].get('$cls')}
            s.cur = fid
            def body(s1):
                o = s1.ghost['prophecy_out']
                r = []
                for s2, v in eng.ev(e.elt, s1):
                    if isinstance(v, Raised): r.append(('raise', s2, v)); continue
                    s2.assume(o == eng.lift(v, PVT).e)
                    r.append(('normal', s2, None))
                return r
            for k_, s1, v in eng.for_loop(e, s, IterV('prophecy', [it, res]), gen.target, body, []):
                s1.cur = caller
                if k_ == 'normal': out.append((s1, Z((Tu if kind == 'tuple' else Li)(res), PVT)))
                elif k_ == 'raise': out.append((s1, v))
                else: raise Unsupported(k_)
        return out


# ---------------------------------------------------------------- lemmas about the definitions
def lemmas(tagged=False):
    """(name, hypotheses, goal, axioms): base/step obligations; induction principles (structural on PV/PL/G,
    and evaluation induction for snap and ==, whose recursion follows the code's) are the meta-step."""
    D = defs_val(tagged) + defs_size() + defs_len() + defs_nn() + defs_sn() + defs_peq()
    out = []
    H0, i0, j0, y0, x0 = z3.Const('H0', HS), z3.Int('i0'), z3.Int('j0'), z3.Const('y0', PV), z3.Const('x0', PV)
    l0, m0, a0, b0, g0, k0, c0 = z3.Const('l0', PL), z3.Const('m0', PL), z3.Const('a0', PV), z3.Const('b0', PV), z3.Const('g0', GL), z3.Const('k0', G), z3.Const('c0', PyConst)
    def defn(P, Hx): return P(Hx) == ForAll([i], (Imp(S(Hx, i) != Null, sig(i) == val(S(Hx, i))) if P is Mod else Or(S(Hx, i) == Null, nn(S(Hx, i)))), patterns=[S(H0, i)])
    modd, wfd = [defn(Mod, H0), defn(Mod, St(H0, i0, y0))], [defn(WF, H0), defn(WF, St(H0, i0, y0))]
    out.append(('Mod after binding an unbound variable', [S(H0, i0) == Null, y0 != Null], Mod(St(H0, i0, y0)) == And(Mod(H0), sig(i0) == val(y0)), modd))
    out.append(('Mod gives each binding', [Mod(H0), S(H0, i0) != Null], sig(i0) == val(S(H0, i0)), modd))
    out.append(('WF after a write', [WF(H0), Or(y0 == Null, nn(y0))], WF(St(H0, i0, y0)), wfd))
    out.append(('WF gives each cell', [WF(H0), S(H0, i0) != Null], nn(S(H0, i0)), wfd))
    # sizes positive (structural)
    out.append(('size: constants', [], sz(G.gC(c0)) >= 1, D))
    out.append(('size: nodes', [szl(g0) >= 0], And(sz(G.gT(g0)) >= 1, sz(G.gTu(g0)) >= 1), D))
    out.append(('size: lists', [szl(g0) >= 0, sz(k0) >= 1], And(szl(GL.gnil) >= 0, szl(GL.gcons(k0, g0)) >= 0), D))
    out.append(('length: base', [], And(plen(nil) == 0, glen(vall(nil)) == plen(nil)), D))
    out.append(('length: step', [plen(l0) >= 0, glen(vall(l0)) == plen(l0)], And(plen(cons(a0, l0)) > 0, glen(vall(cons(a0, l0))) == plen(cons(a0, l0))), D))
    # snap
    MU = [MOD_USE, WF_USE]
    def snp(t): return And(Imp(Mod(H0), val(sn(H0, t)) == val(t)), Imp(isV(sn(H0, t)), S(H0, PV.vid(sn(H0, t))) == Null), Imp(And(WF(H0), nn(t)), nn(sn(H0, t))))
    out.append(('snap: bound variable (evaluation induction)', [snp(S(H0, j0)), S(H0, j0) != Null], snp(V(j0)), D + MU))
    out.append(('snap: unbound variable', [S(H0, j0) == Null], snp(V(j0)), D + MU))
    for nm, t in (('term', T(l0)), ('tuple', Tu(l0)), ('list', Li(l0)), ('constant', C(c0))): out.append((f'snap: {nm}', [], snp(t), D + MU))
    # ==
    def pq(p, q): return Imp(And(Mod(H0), peq(H0, p, q)), val(p) == val(q))
    def pql(p, q): return Imp(And(Mod(H0), peql(H0, p, q)), vall(p) == vall(q))
    sub = lambda p, q: pq(sn(H0, p), sn(H0, q))
    DS = D + SN_VAL
    shapes = [('V', V(i0)), ('T', T(l0)), ('Tu', Tu(l0)), ('C', C(c0))] + ([] if tagged else [('Li', Li(l0))])
    d0 = z3.Const('d0', PyConst)
    shapes2 = [('V', V(j0)), ('T', T(m0)), ('Tu', Tu(m0)), ('C', C(d0))] + ([] if tagged else [('Li', Li(m0))])
    for n1, p in shapes:
        for n2, q in shapes2:
            ih = [pql(l0, m0), sub(p, q), sub(q, p)] if 'V' in (n1, n2) else [pql(l0, m0)]
            if n1 == 'T' and n2 == 'V' or n2 == 'T' and n1 == 'V':
                z_ = z3.Const('z0', PL)
                w = sn(H0, q if n2 == 'V' else p)
                ih.append(ForAll([z_], And(pql(l0, z_), pql(z_, l0), pql(m0, z_), pql(z_, m0))))
                ih.append(Imp(isT(w), w == T(PV.fargs(w))))
            out.append((f'==: {n1},{n2} (evaluation induction)', ih, pq(p, q), DS))
    out.append(('==: nil,nil', [], pql(nil, nil), DS))
    out.append(('==: cons,cons', [pq(a0, b0), pql(l0, m0)], pql(cons(a0, l0), cons(b0, m0)), DS))
    out.append(('==: nil,cons', [], And(pql(nil, cons(b0, m0)), pql(cons(b0, m0), nil)), DS))
    return out
