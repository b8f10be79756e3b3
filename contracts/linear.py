"""Contracts for dyna/execute/linear.py (property C12): the star closure of a matrix over a semiring.

The semiring is abstract: only the semiring axioms and s* = 1 + s s* are assumed (plus commutativity of + only).
post of kleene:  B = I + A B   (reflexive),   B = A + A B  (otherwise), entry by entry, A unchanged.
Also (exactness, not just *a* solution): the closed form is checked against every other solution in checks/b12 only;
uniqueness of least solutions needs an order, which semirings here do not carry.
"""
import z3
from pydv import algebra
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/execute/linear.py'
K = OBJ('Weight')
I, KS = z3.IntSort(), K.sort
MS = z3.ArraySort(I, z3.ArraySort(I, KS))
VS = z3.ArraySort(I, KS)
add = z3.Function('k_add', KS, KS, KS)
mul = z3.Function('k_mul', KS, KS, KS)
star = z3.Function('k_star', KS, KS)
zero, one = z3.Const('k_zero', KS), z3.Const('k_one', KS)
# dot(A, X, i, k, n) = sum_{l<n} A[i,l] X[l,k]
dot = z3.Function('dot', MS, MS, I, I, I, KS)
def at(m, i, k): return z3.Select(z3.Select(m, i), k)
def S(*a):
    r = a[0]
    for x in a[1:]: r = add(r, x)
    return r
def P(*a):
    r = a[0]
    for x in a[1:]: r = mul(r, x)
    return r
a, b, c = z3.Consts('ka kb kc', KS)
A, X, Y = z3.Consts('mA mX mY', MS)
i, j, k, l, n, r = z3.Ints('i j k l n r')
# hd(X, b, i, n) = sum_{l<n} X[i,l] b[l];  tl(X, z, i, n, N) = sum_{n<=l<N} X[i,l] z[l]
hd = z3.Function('hd', MS, VS, I, I, KS)
tl = z3.Function('tl', MS, VS, I, I, I, KS)
le = z3.Function('k_le', KS, KS, z3.BoolSort())
elim = z3.Function('elim', MS, MS, I, I, z3.BoolSort())          # elim(X1, X, j, N): X1 is X after eliminating j
closed = z3.Function('closed', MS, MS, I, I, z3.BoolSort())      # X = A + A|<j X
low = z3.Function('low', MS, VS, VS, I, I, z3.BoolSort())        # eliminated rows bounded by the pre-fixpoint z
b0, z0 = z3.Const('b_vec', VS), z3.Const('z_vec', VS)            # an ARBITRARY right-hand side and an ARBITRARY pre-fixpoint
bv, zv = z3.Const('bv', VS), z3.Const('zv', VS)
A, X, Y = z3.Consts('mA mX mY', MS)
N = z3.Int('N')
def rng(*vs): return z3.And(*[z3.And(0 <= v, v < N) for v in vs])
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
def piv(X, j): return star(at(X, j, j))
def elim_rhs(X, i, k, j): return S(at(X, i, k), P2(at(X, i, j), P2(piv(X, j), at(X, j, k))))
def P2(x, y): return mul(x, y)
def low_lhs(X, bv, zv, i, j, N): return S(S(z3.Select(bv, i), hd(X, bv, i, j)), tl(X, zv, i, j, N))

# semiring and order axioms, one instance at a time
def ax_star(a): return [star(a) == add(one, mul(a, star(a))), star(a) == add(one, mul(star(a), a))]
def ax_induct(a, b, x): return [z3.Implies(le(add(b, mul(a, x)), x), le(mul(star(a), b), x))]
def ax_mono(p, x, y): return [z3.Implies(le(x, y), z3.And(le(add(p, x), add(p, y)), le(mul(p, x), mul(p, y))))]
def ax_trans(x, y, z): return [z3.Implies(z3.And(le(x, y), le(y, z)), le(x, z))]
def alg(*terms): return algebra.instances(add, mul, zero, one, *terms)

# definitions (recursion equations)
def d_dot(A, X, i, k, n): return dot(A, X, i, k, n + 1) == add(dot(A, X, i, k, n), mul(at(A, i, n), at(X, n, k)))
def d_dot0(A, X, i, k): return dot(A, X, i, k, 0) == zero
def d_hd(X, v, i, n): return hd(X, v, i, n + 1) == add(hd(X, v, i, n), mul(at(X, i, n), z3.Select(v, n)))
def d_hd0(X, v, i): return hd(X, v, i, 0) == zero
def d_tl(X, v, i, n): return tl(X, v, i, n, N) == add(mul(at(X, i, n), z3.Select(v, n)), tl(X, v, i, n + 1, N))
def d_tlN(X, v, i): return tl(X, v, i, N, N) == zero
i, j, k, l, n = z3.Ints('i j k l n')
def b_elim(X1, X, j, N): return FA([i, k], z3.Implies(rng(i, k), at(X1, i, k) == elim_rhs(X, i, k, j)), at(X1, i, k))
def b_closed(A, X, j, N): return FA([i, k], z3.Implies(rng(i, k), at(X, i, k) == add(at(A, i, k), dot(A, X, i, k, j))), at(X, i, k))
def b_low(X, bv, zv, j, N): return FA([i], z3.Implies(rng(i), le(low_lhs(X, bv, zv, i, j, N), z3.Select(zv, i))), tl(X, zv, i, j, N))
X1 = z3.Const('mX1', MS)
DEFS = [FA([X1, X, j, N], elim(X1, X, j, N) == b_elim(X1, X, j, N), elim(X1, X, j, N)),
        FA([A, X, j, N], closed(A, X, j, N) == b_closed(A, X, j, N), closed(A, X, j, N)),
        FA([X, bv, zv, j, N], low(X, bv, zv, j, N) == b_low(X, bv, zv, j, N), low(X, bv, zv, j, N)),
        FA([A, X, i, k], d_dot0(A, X, i, k), dot(A, X, i, k, 0)), FA([X, bv, i], d_hd0(X, bv, i), hd(X, bv, i, 0)), FA([X, zv, i, N], d_tlN(X, zv, i), tl(X, zv, i, N, N)),
        FA([a], z3.And(add(a, zero) == a, add(zero, a) == a), add(a, zero))]

# ---- the induction lemmas: (hypothesis over fixed parameters, conclusion as a function of n)
def L1(n): return dot(A, X1, i, k, n) == add(dot(A, X, i, k, n), mul(dot(A, X, i, j, n), mul(piv(X, j), at(X, j, k))))
def L3(n): return hd(X1, bv, i, n) == add(hd(X, bv, i, n), mul(mul(at(X, i, j), piv(X, j)), hd(X, bv, j, n)))
def L4(n): return tl(X1, zv, i, n, N) == add(tl(X, zv, i, n, N), mul(mul(at(X, i, j), piv(X, j)), tl(X, zv, j, n, N)))
def b_diag(Bm, X): return FA([i, k], z3.Implies(rng(i, k), at(Bm, i, k) == z3.If(i == k, add(at(X, i, k), one), at(X, i, k))), at(Bm, i, k))
diag = z3.Function('diag', MS, MS, I, z3.BoolSort())
DEFS.append(FA([X1, X, N], diag(X1, X, N) == b_diag(X1, X), diag(X1, X, N)))
def L6(n): return dot(A, X1, i, k, n) == add(dot(A, X, i, k, n), z3.If(k < n, at(A, i, k), zero))
def L7(n): return hd(X1, bv, i, n) == add(hd(X, bv, i, n), z3.If(i < n, z3.Select(bv, i), zero))

def concl_closed(): return FA([A, X1, X, j, N], z3.Implies(z3.And(rng(j), closed(A, X, j, N), elim(X1, X, j, N)), closed(A, X1, j + 1, N)), z3.MultiPattern(closed(A, X, j, N), elim(X1, X, j, N)))
def concl_low(): return FA([X1, X, bv, zv, j, N], z3.Implies(z3.And(rng(j), low(X, bv, zv, j, N), elim(X1, X, j, N)), low(X1, bv, zv, j + 1, N)), z3.MultiPattern(low(X, bv, zv, j, N), elim(X1, X, j, N)))
def sol6(B, i, k): return at(B, i, k) == add(z3.If(i == k, one, zero), dot(A, B, i, k, N))
def concl6(): return FA([A, X1, X, i, k, N], z3.Implies(z3.And(rng(i, k), diag(X1, X, N), closed(A, X, N, N)), sol6(X1, i, k)), z3.MultiPattern(diag(X1, X, N), closed(A, X, N, N), dot(A, X1, i, k, N)))
def concl7(): return FA([X1, X, bv, zv, i, N], z3.Implies(z3.And(rng(i), diag(X1, X, N), low(X, bv, zv, N, N)), le(hd(X1, bv, i, N), z3.Select(zv, i))), z3.MultiPattern(diag(X1, X, N), low(X, bv, zv, N, N), hd(X1, bv, i, N)))

def LEMMAS():
    out = []
    Aik, Aij, Ain = at(A, i, k), at(A, i, j), at(A, i, n)
    s, t = piv(X, j), at(X, j, k)
    el = lambda i, k: z3.Implies(rng(i, k), at(X1, i, k) == elim_rhs(X, i, k, j))
    dg = lambda i, k: z3.Implies(rng(i, k), at(X1, i, k) == z3.If(i == k, add(at(X, i, k), one), at(X, i, k)))
    H = [rng(i, j, k)]
    # L1
    out.append(('L1 base', H + [d_dot0(A, X1, i, k), d_dot0(A, X, i, k), d_dot0(A, X, i, j)] + alg(add(zero, mul(zero, mul(s, t)))), L1(z3.IntVal(0)), []))
    D1, D2 = dot(A, X, i, k, n), dot(A, X, i, j, n)
    out.append(('L1 step', H + [rng(n), el(n, k), L1(n), d_dot(A, X1, i, k, n), d_dot(A, X, i, k, n), d_dot(A, X, i, j, n)]
                + alg(add(add(D1, mul(D2, mul(s, t))), mul(Ain, elim_rhs(X, n, k, j))), add(add(D1, mul(Ain, at(X, n, k))), mul(add(D2, mul(Ain, at(X, n, j))), mul(s, t)))), L1(n + 1), []))
    # pivot row:  X1[j,k] = s t
    a_ = at(X, j, j)
    out.append(('pivot row', [rng(j, k), el(j, k)] + ax_star(a_) + alg(add(t, mul(a_, mul(s, t))), mul(add(one, mul(a_, s)), t)), at(X1, j, k) == mul(s, t), []))
    # closed step
    ck = lambda i, k: z3.Implies(rng(i, k), at(X, i, k) == add(at(A, i, k), dot(A, X, i, k, j)))
    E1, E2 = dot(A, X, i, k, j), dot(A, X, i, j, j)
    out.append(('closed is preserved', H + [ck(i, k), ck(i, j), el(i, k), L1(j), d_dot(A, X1, i, k, j), at(X1, j, k) == mul(s, t)]
                + alg(add(add(Aik, E1), mul(add(Aij, E2), mul(s, t))), add(Aik, add(add(E1, mul(E2, mul(s, t))), mul(Aij, mul(s, t))))),
                at(X1, i, k) == add(Aik, dot(A, X1, i, k, j + 1)), []))
    # L3, L4
    x = at(X, i, j)
    xs = mul(x, s)
    bn, zn = z3.Select(bv, n), z3.Select(zv, n)
    out.append(('L3 base', [d_hd0(X1, bv, i), d_hd0(X, bv, i), d_hd0(X, bv, j)] + alg(add(zero, mul(xs, zero))), L3(z3.IntVal(0)), []))
    out.append(('L3 step', H + [rng(n), el(i, n), L3(n), d_hd(X1, bv, i, n), d_hd(X, bv, i, n), d_hd(X, bv, j, n)]
                + alg(add(add(hd(X, bv, i, n), mul(xs, hd(X, bv, j, n))), mul(elim_rhs(X, i, n, j), bn)),
                      add(add(hd(X, bv, i, n), mul(at(X, i, n), bn)), mul(xs, add(hd(X, bv, j, n), mul(at(X, j, n), bn))))), L3(n + 1), []))
    out.append(('L4 base', [d_tlN(X1, zv, i), d_tlN(X, zv, i), d_tlN(X, zv, j)] + alg(add(zero, mul(xs, zero))), L4(N), []))
    T = lambda r: tl(X, zv, r, n + 1, N)
    out.append(('L4 step', H + [rng(n), el(i, n), L4(n + 1), d_tl(X1, zv, i, n), d_tl(X, zv, i, n), d_tl(X, zv, j, n)]
                + alg(add(mul(elim_rhs(X, i, n, j), zn), add(T(i), mul(xs, T(j)))),
                      add(add(mul(at(X, i, n), zn), T(i)), mul(xs, add(mul(at(X, j, n), zn), T(j))))), L4(n), []))
    # low step
    bi, bj, zi, zj = z3.Select(bv, i), z3.Select(bv, j), z3.Select(zv, i), z3.Select(zv, j)
    hi, hj, ti, tj = hd(X, bv, i, j), hd(X, bv, j, j), tl(X, zv, i, j + 1, N), tl(X, zv, j, j + 1, N)
    w = add(add(bj, hj), tj)
    row = lambda r: le(low_lhs(X, bv, zv, r, j, N), z3.Select(zv, r))
    out.append(('pivot row is bounded (star induction)', H + [row(j), d_tl(X, zv, j, j)] + ax_induct(a_, w, zj)
                + alg(add(add(bj, hj), add(mul(a_, zj), tj)), add(w, mul(a_, zj))), le(mul(s, w), zj), []))
    rest = add(add(bi, hi), ti)
    mid = add(rest, mul(x, mul(s, w)))
    new = low_lhs(X1, bv, zv, i, j + 1, N)
    out.append(('left star unfolding', ax_star(a_) + alg(mul(x, mul(add(one, mul(s, a_)), bj)), add(mul(x, bj), mul(mul(mul(x, s), a_), bj))),
                mul(x, mul(s, bj)) == add(mul(x, bj), mul(mul(mul(x, s), a_), bj)), []))
    v = z3.Const('v_merged', KS)       # = x (s b_j)
    new1 = add(add(bi, add(add(hi, mul(xs, hj)), mul(elim_rhs(X, i, j, j), bj))), add(ti, mul(xs, tj)))
    mrg = add(mul(x, bj), mul(mul(mul(x, s), a_), bj))
    out.append(('regroup 1', alg(new1, add(add(add(rest, mul(xs, hj)), mul(xs, tj)), mrg)), new1 == add(add(add(rest, mul(xs, hj)), mul(xs, tj)), mrg), []))
    out.append(('regroup 2', alg(add(add(add(rest, mul(xs, hj)), mul(xs, tj)), mul(x, mul(s, bj))), mid), add(add(add(rest, mul(xs, hj)), mul(xs, tj)), mul(x, mul(s, bj))) == mid, []))
    R1 = new1 == add(add(add(rest, mul(xs, hj)), mul(xs, tj)), mrg)
    R2 = add(add(add(rest, mul(xs, hj)), mul(xs, tj)), mul(x, mul(s, bj))) == mid
    out.append(('the new row regroups', H + [el(i, j), L3(j), L4(j + 1), d_hd(X1, bv, i, j), R1, R2, mul(x, mul(s, bj)) == mrg], new == mid, []))
    out.append(('low is preserved', H + [new == mid, le(mul(s, w), zj), row(i), d_tl(X, zv, i, j)] + ax_mono(x, mul(s, w), zj) + ax_mono(rest, mul(x, mul(s, w)), mul(x, zj))
                + ax_trans(mid, add(rest, mul(x, zj)), zi) + alg(add(rest, mul(x, zj)), add(add(bi, hi), add(mul(x, zj), ti))), le(new, zi), []))
    # adding the identity
    out.append(('L6 base', [rng(i, k), d_dot0(A, X1, i, k), d_dot0(A, X, i, k)] + alg(add(zero, zero)), L6(z3.IntVal(0)), []))
    out.append(('L6 step', [rng(i, k), rng(n), dg(n, k), L6(n), d_dot(A, X1, i, k, n), d_dot(A, X, i, k, n)]
                + alg(add(add(D1, zero), mul(Ain, add(at(X, n, k), one))), add(add(D1, mul(Ain, at(X, n, k))), Ain),
                      add(add(D1, Aik), mul(Ain, at(X, n, k))), add(add(D1, mul(Ain, at(X, n, k))), Aik),
                      add(add(D1, zero), mul(Ain, at(X, n, k))), add(add(D1, mul(Ain, at(X, n, k))), zero)), L6(n + 1), []))
    h0 = hd(X, bv, i, n)
    out.append(('L7 base', [rng(i), d_hd0(X1, bv, i), d_hd0(X, bv, i)] + alg(add(zero, zero)), L7(z3.IntVal(0)), []))
    q = mul(at(X, i, n), bn)
    out.append(('L7 step', [rng(i), rng(n), dg(i, n), L7(n), d_hd(X1, bv, i, n), d_hd(X, bv, i, n)]
                + alg(add(add(h0, zero), mul(add(at(X, i, n), one), bn)), add(add(h0, q), bn), add(add(h0, bi), q), add(add(h0, q), bi), add(add(h0, zero), q), add(add(h0, q), zero)), L7(n + 1), []))
    DN = dot(A, X, i, k, N)
    out.append(('B = I + A B', [rng(i, k), dg(i, k), dot(A, X1, i, k, N) == add(DN, Aik), at(X, i, k) == add(Aik, DN)]
                + alg(add(add(Aik, DN), one), add(one, add(DN, Aik)), add(Aik, DN), add(zero, add(DN, Aik))), sol6(X1, i, k), []))
    hN = hd(X, bv, i, N)
    out.append(('B b bounded', [rng(i), hd(X1, bv, i, N) == add(hN, bi), le(add(add(bi, hN), tl(X, zv, i, N, N)), zi), d_tlN(X, zv, i)] + alg(add(add(bi, hN), zero), add(hN, bi)), le(hd(X1, bv, i, N), zi), []))
    return out

class Semirings(Theory):
    def axioms(self, eng): return DEFS + [concl_closed(), concl_low(), concl6(), concl7()]
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Opaque) and v.why == 'semiring':
            if name in ('zero', 'one'): return [(st, Z(zero if name == 'zero' else one, K))]
            if name == 'star': return [(st, Bound(v, name))]
        if isinstance(v, Ref) and isinstance(st.store[v.loc], MatO):
            m = st.store[v.loc]
            if name == 'shape': return [(st, Tup([Z(m.n, INT), Z(m.n, INT)]))]
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Bound) and isinstance(f.obj, Opaque) and f.name == 'star': return [(st, Z(star(eng.lift(args[0], K).e), K))]
        if isinstance(f, Bound) and isinstance(f.obj, Ref) and isinstance(st.store[f.obj.loc], MatO) and f.name == 'copy':
            m = st.store[f.obj.loc]
            return [(st, st.alloc(m.copy()))]
        return None
    def _ix(self, eng, st, m, k):
        if not (isinstance(k, Tup) and len(k.items) == 2): raise Unsupported('matrix index')
        return [eng.lift(x, INT).e for x in k.items]
    def getitem(self, eng, st, o, k, line):
        if isinstance(o, Ref) and isinstance(st.store[o.loc], MatO):
            m = st.store[o.loc]
            x, y = self._ix(eng, st, m, k)
            eng.oblige(st, 'matrix index in range', z3.And(0 <= x, x < m.n, 0 <= y, y < m.n), line)
            return [(st, Z(at(m.arr, x, y), K))]
    def setitem(self, eng, st, o, k, v, line):
        if isinstance(o, Ref) and isinstance(st.store[o.loc], MatO):
            m, e = st.store[o.loc], eng.lift(v, K).e
            if isinstance(k, Tup) and all(isinstance(x, Py) and x.v == slice(None) for x in k.items):
                arr = z3.K(I, z3.K(I, e))
            else:
                x, y = self._ix(eng, st, m, k)
                eng.oblige(st, 'matrix index in range', z3.And(0 <= x, x < m.n, 0 <= y, y < m.n), line)
                arr = z3.Store(m.arr, x, z3.Store(z3.Select(m.arr, x), y, e))
            eng.write(st, o, MatO(m.ety, m.n, arr))
            return [('normal', st, None)]
    def binop(self, eng, st, op, a, b, line):
        import ast
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == K and b.ty == K:
            f = {ast.Add: add, ast.Mult: mul}.get(type(op))
            if f is not None:
                t = f(a.e, b.e)
                st.assume(*alg(t), add(a.e, b.e) == add(b.e, a.e))       # semiring axioms at this term
                return [(st, Z(t, K))]
            raise Unsupported('semiring operation')
        return None

THEORY = Semirings()
C = {}



Nc = z3.Int('N0')
A0 = z3.Const('A_cells', MS)
def mat(L, name):
    v = L.st.frames[L.eng.top_frame].get(name)
    if not isinstance(v, Ref) or not isinstance(L.st.store[v.loc], MatO): raise Unsupported(f'local matrix {name} not found')
    return L.st.store[v.loc].arr
def num(L, name):
    v = L.st.frames[L.eng.top_frame].get(name)
    return L.eng.lift(v, INT).e
ii, kk = z3.Ints('ri rk')
def rg(*vs): return z3.And(*[z3.And(0 <= v, v < Nc) for v in vs])
def outer(L):
    old, j = mat(L, 'old'), L.it['i']
    return [('size', z3.And(0 <= j, j <= Nc)), ('paths through the nodes eliminated so far', closed(A0, old, j, Nc)), ('nothing superfluous', low(old, b0, z0, j, Nc))]
def rows(L, i, row=None, cols=None):
    new, old, j = mat(L, 'new'), mat(L, 'old'), num(L, 'j')
    done = ii < i if row is None else z3.Or(ii < i, z3.And(ii == i, kk < cols))
    return FA([ii, kk], z3.Implies(z3.And(rg(ii, kk), done), at(new, ii, kk) == elim_rhs(old, ii, kk, j)), at(new, ii, kk))
def row_loop(L): return [('index', z3.And(0 <= L.it['i'], L.it['i'] <= Nc)), ('rows done', rows(L, L.it['i'])),
                        ('then j is eliminated', z3.Implies(L.it['i'] == Nc, elim(mat(L, 'new'), mat(L, 'old'), num(L, 'j'), Nc)))]
def col_loop(L):
    i = num(L, 'i')
    return [('index', z3.And(0 <= L.it['i'], L.it['i'] <= Nc)), ('rows and columns done', rows(L, i, i, L.it['i']))]
def elim_lemma(L):
    return []
def fix_loop(L):
    cur, i = mat(L, 'old'), L.it['i']
    X = L.entry.store[L.st.frames[L.eng.top_frame]['old'].loc].arr
    return [('index', z3.And(0 <= i, i <= Nc)), ('identity added so far', FA([ii, kk], z3.Implies(rg(ii, kk), at(cur, ii, kk) == z3.If(z3.And(ii == kk, ii < i), add(at(X, ii, kk), one), at(X, ii, kk))), at(cur, ii, kk))),
            ('then the identity is added', z3.Implies(i == Nc, diag(cur, X, Nc)))]

def k_post(c):
    B = c.obj(c.result).arr
    refl = c.e('reflexive')
    return [('size', c.obj(c.result).n == Nc),
            ('solves B = I + A B', z3.Implies(refl, FA([ii, kk], z3.Implies(rg(ii, kk), at(B, ii, kk) == add(z3.If(ii == kk, one, zero), dot(A0, B, ii, kk, Nc))), at(B, ii, kk)))),
            ('solves B = A + A B', z3.Implies(z3.Not(refl), FA([ii, kk], z3.Implies(rg(ii, kk), at(B, ii, kk) == add(at(A0, ii, kk), dot(A0, B, ii, kk, Nc))), at(B, ii, kk)))),
            ('B b is below every z with b + A z <= z', FA([ii], z3.Implies(rg(ii), le(z3.If(refl, hd(B, b0, ii, Nc), add(z3.Select(b0, ii), hd(B, b0, ii, Nc))), z3.Select(z0, ii))), hd(B, b0, ii, Nc)))]
def k_pre(c):
    return [('size', Nc >= 0), ('z0 is a pre-fixpoint of b0', FA([ii], z3.Implies(rg(ii), le(add(z3.Select(b0, ii), tl(A0, z0, ii, 0, Nc)), z3.Select(z0, ii))), tl(A0, z0, ii, 0, Nc)))]

C[(F, 'kleene')] = Contract(F, 'kleene', params=[('A', lambda eng, st, nm: st.alloc(MatO(K, Nc, A0))), ('semiring', lambda eng, st, nm: Opaque('semiring')), ('reflexive', BOOL)],
    pre=k_pre, post=k_post, loops=[LoopSpec(outer), LoopSpec(row_loop), LoopSpec(col_loop), LoopSpec(fix_loop)])
