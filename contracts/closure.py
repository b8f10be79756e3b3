"""Contract for Graph.transitive_closure (C11, C28): kleene over the Booleans, with the translation to a matrix and back.

P: an ARBITRARY relation that contains the edges and is closed under prefixing an edge (edge(x,y) and P(y,z) give P(x,z)).
The result T contains the edges (and the identity when reflexive), is closed in the same way, and is contained in every such
P (up to the identity): it is the (reflexive) transitive closure.  kleene enters by its contract, whose Boolean instance is
derived in LEMMAS from what contracts.linear proves over every semiring.
"""
import ast
import z3
from pydv.engine import Contract, Engine, LoopSpec
from pydv.base import Theory
from pydv.values import *

F, KF = 'dyna/util/graphs.py', 'dyna/execute/linear.py'
NODE = OBJ('Node')
I, B, S = z3.IntSort(), z3.BoolSort(), z3.Select
NS = NODE.sort
DS = z3.ArraySort(NS, B)
SETS = SetT(NODE)
MS = z3.ArraySort(I, z3.ArraySort(I, B))
And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats)) if pats else z3.ForAll(vs, b)
def MP(*ts): return z3.MultiPattern(*ts)
def card(D): return Engine.card(Engine, D)
def at(m, i, k): return S(S(m, i), k)
x, y, z = z3.Consts('x y z', NS); i, j, k = z3.Ints('i j k'); D = z3.Const('D', DS); M = z3.Const('M', MS); n = z3.Int('n')
edge, P = z3.Function('edge', NS, NS, B), z3.Function('P', NS, NS, B)
N0 = z3.Const('nodes0', DS)
PP = [FA([x, y], Imp(edge(x, y), P(x, y)), edge(x, y)), FA([x, y, z], Imp(And(edge(x, y), P(y, z)), P(x, z)), MP(edge(x, y), P(y, z)))]
CARD = [card(z3.K(NS, False)) == 0, FA([D], card(D) >= 0, card(D)), FA([D, x], card(z3.Store(D, x, True)) == If(S(D, x), card(D), card(D) + 1), z3.Store(D, x, True))]
IXV, IXA = z3.ArraySort(NS, I), z3.ArraySort(I, NS)
wit = z3.Function('via', MS, MS, I, I, I)                     # an intermediate index
# Q: the relation of indices that kleene is bounded by; instantiated with P between the nodes so numbered
def ixobj(st, v):
    o = st.store[v.loc]
    return o.fields['map'], o.fields['list']

class TC(Theory):
    def axioms(self, eng): return PP + CARD
    def global_name(self, eng, name, module):
        if name == 'np': return Opaque('np')
        if name == 'Integerizer': return Builtin('Integerizer')
        if name == 'Boolean': return Opaque('Boolean')
        return None
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Opaque) and v.why == 'np' and name == 'zeros': return [(st, Builtin('np.zeros'))]
        if isinstance(v, Opaque) and v.why == 'Boolean' and name in ('zero', 'one'): return [(st, Z(z3.BoolVal(name == 'one'), BOOL))]
        if isinstance(v, Z) and v.ty == BOOL and name == 'score': return [(st, v)]
        if isinstance(v, Ref) and isinstance(st.store.get(v.loc), Rec) and st.store[v.loc].cls == (F, 'Integerizer') and name == 'add': return [(st, Bound(v, 'add'))]
        return None
    def number(self, eng, st, ref, a, line):
        "arsenal.Integerizer: the index of a, which is appended when it is new"
        mo, lo = ixobj(st, ref)
        m_, l_ = st.store[mo.loc], st.store[lo.loc]
        a = eng.lift(a, NODE).e
        inn = S(m_.dom, a)
        if self.known(eng, st, inn): return [(st, Z(S(m_.val, a), INT))]
        out = []
        if not self.known(eng, st, Not(inn)):
            s2 = st.copy(); s2.assume(inn)
            out.append((s2, Z(S(m_.val, a), INT)))
        st.assume(Not(inn))
        eng.write(st, mo, m_.like(z3.Store(m_.dom, a, True), z3.Store(m_.val, a, l_.n)))
        eng.write(st, lo, ListO(NODE, l_.n + 1, z3.Store(l_.arr, l_.n, a)))
        return out + [(st, Z(l_.n, INT))]
    def known(self, eng, st, c):
        s = z3.Solver(); s.set('timeout', 2000); s.add(*self.axioms(eng), *st.pc, Not(c))
        return s.check() == z3.unsat
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Builtin) and f.name == 'Integerizer' and not args:
            return [(st, st.alloc(Rec((F, 'Integerizer'), {'map': st.alloc(MapO(NODE, INT, z3.K(NS, False), z3.Const('ix_val', IXV))), 'list': st.alloc(ListO(NODE, z3.IntVal(0), z3.Const('ix_arr', IXA)))})))]
        if isinstance(f, Builtin) and f.name == 'np.zeros' and len(args) == 1 and isinstance(args[0], Tup) and len(args[0].items) == 2:
            p, q = [eng.lift(v, INT).e for v in args[0].items]
            eng.oblige(st, 'a square matrix', p == q, line)
            return [(st, st.alloc(MatO(BOOL, p, z3.Const(fresh_name('zeros'), MS))))]
        if isinstance(f, Bound) and isinstance(f.obj, Ref) and isinstance(st.store.get(f.obj.loc), Rec) and f.name == 'add' and len(args) == 1: return self.number(eng, st, f.obj, args[0], line)
        if isinstance(f, Ref) and isinstance(st.store.get(f.loc), Rec) and st.store[f.loc].cls == (F, 'Integerizer') and len(args) == 1: return self.number(eng, st, f, args[0], line)
        return None
    def getitem(self, eng, st, o, k_, line):
        if isinstance(o, Ref) and isinstance(st.store[o.loc], MatO):
            m = st.store[o.loc]
            p, q = [eng.lift(v, INT).e for v in k_.items]
            eng.oblige(st, 'matrix index in range', And(0 <= p, p < m.n, 0 <= q, q < m.n), line)
            return [(st, Z(at(m.arr, p, q), BOOL))]
        if isinstance(o, Ref) and isinstance(st.store[o.loc], Rec) and st.store[o.loc].cls == (F, 'Integerizer'):
            l_ = st.store[ixobj(st, o)[1].loc]
            p = eng.lift(k_, INT).e
            eng.oblige(st, 'index in range', And(0 <= p, p < l_.n), line)
            return [(st, Z(S(l_.arr, p), NODE))]
        return None
    def setitem(self, eng, st, o, k_, v, line):
        if isinstance(o, Ref) and isinstance(st.store[o.loc], MatO):
            m = st.store[o.loc]
            p, q = [eng.lift(u, INT).e for u in k_.items]
            eng.oblige(st, 'matrix index in range', And(0 <= p, p < m.n, 0 <= q, q < m.n), line)
            eng.write(st, o, MatO(m.ety, m.n, z3.Store(m.arr, p, z3.Store(S(m.arr, p), q, eng.lift(v, BOOL).e))))
            return [('normal', st, None)]
        return None

THEORY = TC()
C = {}
def mkself(eng, st, nm):
    m = MapO(NODE, SETS, z3.Const('out_dom', DS), z3.Const('out_val', z3.ArraySort(NS, SETS.sort)))
    m.default = z3.EmptySet(NS)
    return st.alloc(Rec((F, 'Graph'), {'nodes': st.alloc(SetO(NODE, N0)), 'outgoing': st.alloc(m)}))
def parts(st, ref):
    o = st.store[ref.loc]
    return st.store[o.fields['nodes'].loc].arr, st.store[o.fields['outgoing'].loc]
def rel(m): return lambda p, q: And(S(m.dom, p), S(S(m.val, p), q))
def edges_are(m): return FA([x, y], rel(m)(x, y) == edge(x, y), S(S(m.val, x), y), edge(x, y))
def pre(c):
    N, m = parts(c.st, c['self'])
    return [('the edges', edges_are(m)), ('targets are nodes', FA([x, y], Imp(edge(x, y), And(S(N0, x), S(N0, y))), edge(x, y)))]
def refl(c): return c.eng.lift(c['reflexive'], BOOL).e
def post(c):
    N, m = parts(c.st, c.result)
    T = rel(m)
    return [('the same nodes', FA([x], S(N, x) == S(N0, x), S(N, x))), ('between nodes', FA([x, y], Imp(T(x, y), And(S(N0, x), S(N0, y))), S(S(m.val, x), y))),
            ('contains the edges', FA([x, y], Imp(edge(x, y), T(x, y)), edge(x, y))), ('contains the identity when asked to', FA([x], Imp(And(refl(c), S(N0, x)), T(x, x)), S(N0, x))),
            ('closed under prefixing an edge', FA([x, y, z], Imp(And(edge(x, y), T(y, z)), T(x, z)), MP(edge(x, y), S(S(m.val, y), z)))),
            ('nothing else', FA([x, y], Imp(T(x, y), Or(P(x, y), And(refl(c), x == y))), S(S(m.val, x), y)))]
def local(L, name, cls=None):
    v = L.st.frames[L.eng.top_frame].get(name)
    if not isinstance(v, Ref): raise Unsupported(f'local {name} not found')
    return v
def ix(L): return [L.st.store[r.loc] for r in ixobj(L.st, local(L, 'ix'))]
def bij(m_, l_): return [('numbers point to their node', FA([x], Imp(S(m_.dom, x), And(0 <= S(m_.val, x), S(m_.val, x) < l_.n, S(l_.arr, S(m_.val, x)) == x)), S(m_.dom, x), S(m_.val, x))),
                         ('nodes point to their number', FA([i], Imp(And(0 <= i, i < l_.n), And(S(m_.dom, S(l_.arr, i)), S(m_.val, S(l_.arr, i)) == i)), S(l_.arr, i))), ('as many numbers as nodes', And(l_.n == card(m_.dom), l_.n >= 0))]
def numbered(L):
    m_, l_ = ix(L)
    return bij(m_, l_) + [('all nodes are numbered', m_.dom == N0)]
def whole_graph(L): return [('the edges', edges_are(parts(L.st, L['self'])[1]))]
def num(L, name): return L.eng.lift(L.st.frames[L.eng.top_frame].get(name), INT).e
def mat(L, name): return L.st.store[local(L, name).loc]
def rng(m_, *vs): return And(*[And(0 <= v, v < m_.n) for v in vs])
def loop_num(L):
    m_, l_ = ix(L)
    return bij(m_, l_) + [('nodes numbered so far', m_.dom == L.it['seen']), ('of all nodes', L.it['all'] == N0)]
def zeros(L, done):
    E = mat(L, 'E')
    return [('size', And(E.n == card(N0), 0 <= L.it['i'], L.it['i'] <= E.n)), ('cleared so far', FA([i, j], Imp(And(rng(E, i, j), done), Not(at(E.arr, i, j))), at(E.arr, i, j)))]
def loop_z1(L): return numbered(L) + zeros(L, i < L.it['i'])
def loop_z2(L): return numbered(L) + zeros(L, Or(i < num(L, 'i'), And(i == num(L, 'i'), j < L.it['i'])))
def filled(L, src):
    E, (m_, l_) = mat(L, 'E'), ix(L)
    a, b = S(l_.arr, i), S(l_.arr, j)
    return [('size', E.n == card(N0)), ('cells filled so far', FA([i, j], Imp(rng(E, i, j), at(E.arr, i, j) == And(src(a, b), edge(a, b))), at(E.arr, i, j))),
            ('the cell of each edge', FA([x, y], Imp(And(edge(x, y), src(x, y)), at(E.arr, S(m_.val, x), S(m_.val, y))), edge(x, y)))]
def loop_e1(L): return numbered(L) + whole_graph(L) + filled(L, lambda a, b: S(L.it['seen'], a)) + [('of all nodes', L.it['all'] == N0)]
def xval(L):
    v = L.st.frames[L.eng.top_frame].get('x')
    return L.eng.lift(v, NODE).e
def loop_e2(L):
    # nodes handled by the enclosing loop: those whose row was filled on entry
    E0 = L.entry.store[local(L, 'E').loc].arr
    E, (m_, l_) = mat(L, 'E'), ix(L)
    a, b = S(l_.arr, i), S(l_.arr, j)
    return numbered(L) + whole_graph(L) + [('size', E.n == card(N0)), ('successors of x', FA([y], S(L.it['all'], y) == edge(xval(L), y), S(L.it['all'], y), edge(xval(L), y))),
        ('cells filled so far', FA([i, j], Imp(rng(E, i, j), at(E.arr, i, j) == Or(at(E0, i, j), And(a == xval(L), S(L.it['seen'], b)))), at(E.arr, i, j)))]
def g_parts(L): return parts(L.st, local(L, 'g'))
def keepT(L): return numbered(L) + [('size of the closure', mat(L, 'T').n == card(N0))]
def loop_g(L):
    N, m = g_parts(L)
    return keepT(L) + [('nodes so far', N == L.it['seen']), ('of all nodes', L.it['all'] == N0), ('no edge yet', FA([x, y], Not(rel(m)(x, y)), S(S(m.val, x), y)))]
def built(L, done):
    N, m = g_parts(L)
    m_, l_ = ix(L)
    T = mat(L, 'T')
    a, b = S(m_.val, x), S(m_.val, y)
    return keepT(L) + [('nodes', N == N0), ('edges so far', FA([x, y], rel(m)(x, y) == And(S(N0, x), S(N0, y), done(a, b), at(T.arr, a, b)), S(S(m.val, x), y), MP(S(m_.val, x), S(m_.val, y)))), ('index', And(0 <= L.it['i'], L.it['i'] <= T.n))]
def loop_t1(L): return built(L, lambda a, b: a < L.it['i'])
def loop_t2(L): return built(L, lambda a, b: Or(a < num(L, 'i'), And(a == num(L, 'i'), b < L.it['i'])))
q = Contract(F, 'Graph.transitive_closure', params=[('self', mkself), ('reflexive', BOOL)], pre=pre, post=post, modifies=lambda c: [c.st.store[c['self'].loc].fields['outgoing']], results=lambda c: [lambda e, s, v: True],
    loops=[LoopSpec(loop_num), LoopSpec(loop_z1), LoopSpec(loop_z2), LoopSpec(loop_e1), LoopSpec(loop_e2), LoopSpec(loop_g), LoopSpec(loop_t1), LoopSpec(loop_t2)])
q.set_elem = NODE
def new_out():
    m = MapO(NODE, SETS, z3.K(NS, False), z3.Const('new_out_val', z3.ArraySort(NS, SETS.sort)))
    m.default = z3.EmptySet(NS)
    return m
q.field_types = {'outgoing': new_out}
C[(F, 'Graph.transitive_closure')] = q

# kleene over the Booleans
def kmat(c, n_): return c.st.store[c[n_].loc]
def k_post(c):
    A, T = c.st0.store[c['A'].loc], c.st.store[c.result.loc]
    r = c.eng.lift(c['reflexive'], BOOL).e
    fr = c.st.frames[c.eng.top_frame]
    l_ = c.st.store[ixobj(c.st, fr['ix'])[1].loc]
    Pq = lambda u, v: P(S(l_.arr, u), S(l_.arr, v))
    pre_fix = And(FA([i, j], Imp(And(rng(A, i, j), at(A.arr, i, j)), Pq(i, j)), at(A.arr, i, j)), FA([i, j, k], Imp(And(rng(A, i, j, k), at(A.arr, i, j), Pq(j, k)), Pq(i, k)), MP(at(A.arr, i, j), S(l_.arr, k))))
    return [('size', T.n == A.n), ('contains the matrix', FA([i, j], Imp(And(rng(A, i, j), at(A.arr, i, j)), at(T.arr, i, j)), at(A.arr, i, j))), ('contains the identity', FA([i], Imp(And(r, rng(A, i)), at(T.arr, i, i)), S(T.arr, i))),
            ('closed', FA([i, j, k], Imp(And(rng(A, i, j, k), at(A.arr, i, j), at(T.arr, j, k)), at(T.arr, i, k)), MP(at(A.arr, i, j), at(T.arr, j, k)))),
            ('least', Imp(pre_fix, FA([i, j], Imp(And(rng(A, i, j), at(T.arr, i, j)), Or(Pq(i, j), And(r, i == j))), at(T.arr, i, j))))]
C[(KF, 'kleene')] = Contract(KF, 'kleene', params=[('A', lambda e, s, nm: s.alloc(MatO(BOOL, z3.Int('kn'), z3.Const('kA', MS)))), ('semiring', None), ('reflexive', BOOL)], post=k_post,
    results=lambda c: [lambda e, s, v: True], trusted='proved in linear for every semiring; the Boolean instance is derived in the lemmas here')
C[(KF, 'kleene')].results = lambda c: [c.st.alloc(MatO(BOOL, kmat(c, 'A').n, z3.Const(fresh_name('T'), MS)))]
ASSUMPTIONS = ['arsenal.Integerizer numbers its keys 0, 1, ... in order of first appearance; semirings.Boolean is the two-element Boolean semiring (+ is or, * is and, star is true)',
               'every edge joins two nodes of the graph (add_edge adds both)', 'the transitive closure is the least relation that contains the edges and is closed under prefixing an edge']
def LEMMAS():
    "kleene's contract (B = A + A B, or I + A B; and B b <= z for every z with b + A z <= z), over the Booleans, gives the contract used here"
    A, T = z3.Const('A0', MS), z3.Const('T0', MS)
    n_, a, b, c_, k0, m0 = z3.Int('n0'), z3.Int('a0'), z3.Int('b0'), z3.Int('c0'), z3.Int('k0'), z3.Int('m0')
    Q = z3.Function('Q', I, I, B)
    r = z3.Bool('refl')
    rg = lambda *vs: And(*[And(0 <= v, v < n_) for v in vs])
    dotw = z3.Function('dw', I, I, I)                       # sum_l A[i,l] T[l,k] over the Booleans: some l
    dotB = lambda p, q_: And(rg(dotw(p, q_)), at(A, p, dotw(p, q_)), at(T, dotw(p, q_), q_))
    some = FA([i, j, k], Imp(And(rg(i, j, k), at(A, i, j), at(T, j, k)), dotB(i, k)), MP(at(A, i, j), at(T, j, k)))
    sol = FA([i, k], Imp(rg(i, k), at(T, i, k) == Or(If(r, i == k, at(A, i, k)), dotB(i, k))), at(T, i, k))
    ones = FA([i], Imp(And(r, rg(i)), at(T, i, i)), S(T, i))
    pf = [FA([i, j], Imp(And(rg(i, j), at(A, i, j)), Q(i, j)), at(A, i, j)), FA([i, j, k], Imp(And(rg(i, j, k), at(A, i, j), Q(j, k)), Q(i, k)), MP(at(A, i, j), Q(j, k)))]
    out = [('a finite disjunction: base', [], Not(z3.Exists([m0], And(0 <= m0, m0 < 0, at(A, a, m0)))), []),
           ('Boolean kleene: contains the matrix', [sol, some, ones, rg(a, b), at(A, a, b), at(T, b, b) == at(T, b, b), Imp(r, at(T, b, b))], at(T, a, b), []),
           ('Boolean kleene: contains the identity', [sol, rg(a), r], at(T, a, a), []),
           ('Boolean kleene: closed', [sol, some, rg(a, b, c_), at(A, a, b), at(T, b, c_)], at(T, a, c_), [])]
    # column k of the bound: b = indicator of k, z = b or Q(., k), a pre-fixpoint of b + A z
    zz = lambda p, kk: Or(p == kk, Q(p, kk))
    out.append(('Boolean kleene: the bound is a pre-fixpoint', pf + [rg(a, b, k0), at(A, a, b), zz(b, k0)], zz(a, k0), []))
    # B b <= z, written out: reflexive  some l: B[i,l] and l = k;  otherwise  b_i or that
    lt = Imp(And(rg(a, k0), at(T, a, k0)), zz(a, k0))
    out.append(('Boolean kleene: least, reflexive', [lt, r, rg(a, k0), at(T, a, k0)], Or(Q(a, k0), And(r, a == k0)), []))
    lts = FA([i, k], Imp(And(rg(i, k), at(T, i, k)), zz(i, k)), at(T, i, k))
    out.append(('Boolean kleene: least, not reflexive', [sol, lts, Not(r)] + pf + [rg(a, k0), at(T, a, k0), Q(dotw(a, k0), k0) == Q(dotw(a, k0), k0)], Q(a, k0), []))
    return out
