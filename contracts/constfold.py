"""Contracts for constant folding (C15): a rule's value is the product of its subgoals, in an arbitrary commutative monoid.

vl(x) is the value of a subgoal: the constant itself when it is one, otherwise ARBITRARY.  constant_folding_rhs is proved to
return a rule with the same head whose body has the same product, or None, and the latter only when the product of the
constants is within 1e-7 of zero; get_const_rhs returns that product for a body that is empty or a single constant.
"""
import ast
import z3
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/program.py'
SG, K, RULE, HD = OBJ('Subgoal_'), OBJ('Weight'), OBJ('FRule'), OBJ('Head_')
I, B, S = z3.IntSort(), z3.BoolSort(), z3.Select
R = z3.RealSort()
LS = z3.ArraySort(I, SG.sort)
mul = z3.Function('k_mul', K.sort, K.sort, K.sort); zero, one = z3.Const('k_zero', K.sort), z3.Const('k_one', K.sort)
dist = z3.Function('k_metric', K.sort, K.sort, R)
vl, isc = z3.Function('value', SG.sort, K.sort), z3.Function('is_const_', SG.sort, B)
head, blen, body = z3.Function('r_head', RULE.sort, HD.sort), z3.Function('r_len', RULE.sort, I), z3.Function('r_body', RULE.sort, LS)
prod = z3.Function('prod', LS, I, K.sort)                      # prod of the first n subgoals
cp = z3.Function('cprod', LS, I, K.sort)                       # ... of the constants among them
npd = z3.Function('nprod', LS, I, K.sort)                      # ... of the others
nnc = z3.Function('ncount', LS, I, I)                          # how many others
x, y, w = z3.Consts('f_x f_y f_w', K.sort); g = z3.Const('f_g', SG.sort); a = z3.Const('f_a', LS); i, j = z3.Ints('f_i f_j'); r = z3.Const('f_r', RULE.sort)
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats))
If, And, Or, Not, Imp = z3.If, z3.And, z3.Or, z3.Not, z3.Implies
MON = [FA([x], And(mul(x, one) == x, mul(one, x) == x), mul(x, one), mul(one, x)), FA([x, y], mul(x, y) == mul(y, x), mul(x, y)), FA([x, y, w], mul(mul(x, y), w) == mul(x, mul(y, w)), mul(mul(x, y), w))]
REC = [FA([a], And(prod(a, 0) == one), prod(a, 0)), FA([a, i], Imp(i >= 0, prod(a, i + 1) == mul(prod(a, i), vl(S(a, i)))), prod(a, i + 1)),
       FA([a], And(cp(a, 0) == one, npd(a, 0) == one, nnc(a, 0) == 0)),
       FA([a, i], Imp(i >= 0, And(cp(a, i + 1) == If(isc(S(a, i)), mul(cp(a, i), vl(S(a, i))), cp(a, i)), npd(a, i + 1) == If(isc(S(a, i)), npd(a, i), mul(npd(a, i), vl(S(a, i)))),
           nnc(a, i + 1) == nnc(a, i) + If(isc(S(a, i)), 0, 1))), cp(a, i + 1), npd(a, i + 1), nnc(a, i + 1))]
SPLIT = [FA([a, i], Imp(i >= 0, And(prod(a, i) == mul(cp(a, i), npd(a, i)), nnc(a, i) >= 0)), prod(a, i))]
APPEND = [FA([a, i, g], Imp(i >= 0, prod(z3.Store(a, i, g), i + 1) == mul(prod(a, i), vl(g))), prod(z3.Store(a, i, g), i + 1))]
BASE = [FA([r], blen(r) >= 0, blen(r))]

class Fold(Theory):
    def axioms(self, eng): return MON[:2] + REC + SPLIT + APPEND + BASE
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == RULE:
            if name == 'head': return [(st, Z(head(v.e), HD))]
            if name == 'body': return [(st, st.alloc(ListO(SG, blen(v.e), body(v.e))))]
        if isinstance(v, Opaque):
            if (v.why, name) == ('program', 'Semiring'): return [(st, Opaque('Semiring'))]
            if (v.why, name) == ('Semiring', 'one'): return [(st, Z(one, K))]
            if (v.why, name) == ('Semiring', 'zero'): return [(st, Z(zero, K))]
            if v.why in ('program', 'Semiring'): return [(st, Bound(v, name))]
        return None
    def isinst(self, eng, st, v, name): return name == 'Rule' if isinstance(v, Z) and v.ty == RULE else None
    def eq(self, eng, st, p, q): return p.e == q.e if isinstance(p, Z) and isinstance(q, Z) and p.ty == q.ty == K else None
    def binop(self, eng, st, op, p, q, line):
        if isinstance(op, ast.Mult) and all(isinstance(v, Z) and v.ty == K for v in (p, q)): return [(st, Z(mul(p.e, q.e), K))]
        return None
    def compare(self, eng, st, op, p, q, line):
        if isinstance(p, Z) and p.ty.sort == R and isinstance(q, Py) and isinstance(q.v, (int, float)):
            f = {'LtE': lambda u, v: u <= v, 'Lt': lambda u, v: u < v, 'Gt': lambda u, v: u > v, 'GtE': lambda u, v: u >= v}.get(type(op).__name__)
            if f: return [(st, Z(f(p.e, z3.RealVal(repr(q.v) if isinstance(q.v, int) else format(q.v, '.20f'))), BOOL))]
        return None
    def global_name(self, eng, name, module):
        if name in ('deref', 'snap'): return Builtin(name)
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Builtin) and f.name in ('deref', 'snap') and len(args) == 1:
            g_ = eng.lift(args[0], SG).e
            eng.oblige(st, 'only a constant is used as a weight', isc(g_), line)
            return [(st, Z(vl(g_), K))]
        if isinstance(f, Bound) and isinstance(f.obj, Opaque):
            if (f.obj.why, f.name) == ('program', 'is_const') and len(args) == 1: return [(st, Z(isc(eng.lift(args[0], SG).e), BOOL))]
            if (f.obj.why, f.name) == ('Semiring', 'metric') and len(args) == 2: return [(st, Z(dist(eng.lift(args[0], K).e, eng.lift(args[1], K).e), Ty('real', R)))]
        if isinstance(f, Cls) and f.name == 'Rule' and args and not isinstance(args[0], tuple):
            p_ = one
            for v in args[1:]:
                if isinstance(v, tuple):
                    o = eng.read(st, v[1])
                    if not isinstance(o, ListO) or v is not args[-1]: raise Unsupported('Rule(...) arguments')
                    return [(st, st.alloc(Rec((F, 'NewRule'), {'head': args[0], 'prefix': Z(p_, K), 'rest': v[1]})))]
                t = v.e if isinstance(v, Z) and v.ty == K else vl(eng.lift(v, SG).e)
                p_ = t if p_ is one else mul(p_, t)
            return [(st, st.alloc(Rec((F, 'NewRule'), {'head': args[0], 'prefix': Z(p_, K), 'rest': None})))]
        return None

THEORY = Fold()
C = {}
def local(L, name):
    v = L.st.frames[L.eng.top_frame].get(name)
    if v is None: raise Unsupported(f'local {name} not found')
    return L.st.store[v.loc] if isinstance(v, Ref) else v
def inv(L):
    b, k, xs = L.it['arr'], L.it['i'], local(L, 'xs')
    return [('product of the constants so far', L.eng.lift(local(L, 'C'), K).e == cp(b, k)), ('product of the other subgoals so far', prod(xs.arr, xs.n) == npd(b, k)), ('their number', And(xs.n == nnc(b, k), xs.n >= 0))]
def post(c):
    rr = c.e('r'); n, b = blen(rr), body(rr)
    if isinstance(c.result, Py) and c.result.v is None:
        return [('dropped only when the constants are zero', dist(cp(b, n), zero) <= z3.RealVal('1e-7'))]
    o = c.st.store[c.result.loc]
    if not isinstance(o, Rec) or o.cls != (F, 'NewRule'): raise Unsupported('result')
    rest = one if o.fields['rest'] is None else prod(c.st.store[o.fields['rest'].loc].arr, c.st.store[o.fields['rest'].loc].n)
    return [('the same head', c.eng.lift(o.fields['head'], HD).e == head(rr)), ('the same product', mul(o.fields['prefix'].e, rest) == prod(b, n))]
q = Contract(F, 'Program.constant_folding_rhs', params=[('self', lambda e, s, n: Opaque('program')), ('r', RULE)], post=post, results=lambda c: [lambda e, s, v: True], loops=[LoopSpec(inv)])
q.list_elem = SG
C[(F, 'Program.constant_folding_rhs')] = q
def gpost(c):
    rr = c.e('r'); n, b = blen(rr), body(rr)
    if isinstance(c.result, Py) and c.result.v is None: return [('None only for other bodies', And(n > 0, Not(And(n == 1, isc(S(b, 0))))))]
    v = c.result
    if not isinstance(v, Z): raise Unsupported('result')
    e = vl(v.e) if v.ty == SG else v.e
    return [('the value of the body', e == prod(b, n)), ('a constant body', nnc(b, n) == 0)]
C[(F, 'Program.get_const_rhs')] = Contract(F, 'Program.get_const_rhs', params=[('self', lambda e, s, n: Opaque('program')), ('r', RULE)], post=gpost, results=lambda c: [lambda e, s, v: True])
ASSUMPTIONS = ['the semiring multiplication is commutative and associative (the source says so for commutativity)', 'a constant is its own value (is_const is a function of the subgoal)',
               'a product of constants within 1e-7 of zero counts as zero']
def LEMMAS():
    a0, i0, n0, g0 = z3.Const('a0', LS), z3.Int('i0'), z3.Int('n0'), z3.Const('g0', SG.sort)
    p, q_, v = cp(a0, i0), npd(a0, i0), vl(S(a0, i0))
    out = [('product splits: base', [], And(prod(a0, 0) == mul(cp(a0, 0), npd(a0, 0)), nnc(a0, 0) >= 0), MON + REC),
           ('product splits: step', [i0 >= 0, nnc(a0, i0) >= 0, prod(a0, i0) == mul(p, q_)] , And(prod(a0, i0 + 1) == mul(cp(a0, i0 + 1), npd(a0, i0 + 1)), nnc(a0, i0 + 1) >= 0),
            REC + [mul(mul(p, q_), v) == mul(p, mul(q_, v)), mul(mul(p, v), q_) == mul(p, mul(v, q_)), mul(v, q_) == mul(q_, v)])]
    fr = lambda n: prod(z3.Store(a0, i0, g0), n) == prod(a0, n)
    out.append(('writing behind a prefix: base', [], fr(z3.IntVal(0)), REC)); out.append(('writing behind a prefix: step', [0 <= n0, n0 < i0, fr(n0)], fr(n0 + 1), REC))
    out.append(('append', [i0 >= 0, fr(i0)], prod(z3.Store(a0, i0, g0), i0 + 1) == mul(prod(a0, i0), vl(g0)), REC))
    return out
