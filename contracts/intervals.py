"""Contracts for dyna/transform/measure.py (property C23): intervals over the extended reals, symbolic extremes.

Numbers are modelled by their value under an ARBITRARY assignment of the symbolic measure variables (so z3.If(c,a,b)
denotes a or b, v < m denotes the comparison of values); sym(v) says whether v is a symbolic expression.
"""
import ast
import z3
from pydv import frontend
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/transform/measure.py'
_E = z3.Datatype('ExtReal')
_E.declare('NegInf'); _E.declare('Fin', ('fin', z3.RealSort())); _E.declare('PosInf')
_E = _E.create()
EXT = Ty('ext', _E)
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
def fin(x): return _E.is_Fin(x)
def le_r(x, r): return z3.Or(_E.is_NegInf(x), z3.And(fin(x), _E.fin(x) <= r))     # extended x <= real r
def ge_r(x, r): return z3.Or(_E.is_PosInf(x), z3.And(fin(x), _E.fin(x) >= r))
def eadd(x, y): return z3.If(z3.And(fin(x), fin(y)), _E.Fin(_E.fin(x) + _E.fin(y)), z3.If(z3.Or(_E.is_NegInf(x), _E.is_NegInf(y)), _E.NegInf, _E.PosInf))
def add_ok(x, y): return z3.Not(z3.Or(z3.And(_E.is_NegInf(x), _E.is_PosInf(y)), z3.And(_E.is_PosInf(x), _E.is_NegInf(y))))
def neg(x): return z3.If(fin(x), _E.Fin(-_E.fin(x)), z3.If(_E.is_NegInf(x), _E.PosInf, _E.NegInf))

# an interval is a pair of ends; Interval.__init__ is proved to store exactly its arguments, nothing else assigns to them
_I = z3.Datatype('IntervalV')
_I.declare('mkI', ('lo', _E), ('hi', _E))
_I = _I.create()
IV = Ty('Interval', _I)
def member(v, r): return z3.And(le_r(_I.lo(v), r), ge_r(_I.hi(v), r))
def sane(v): return z3.And(z3.Not(_E.is_PosInf(_I.lo(v))), z3.Not(_E.is_NegInf(_I.hi(v))))     # no interval at infinity

NUM = OBJ('Number')
val = z3.Function('num_value', NUM.sort, R)
sym = z3.Function('num_symbolic', NUM.sort, B)

class Intervals(Theory):
    def coerce(self, eng, v, ty):
        if ty == EXT and isinstance(v, Py) and isinstance(v.v, (int, float)): return Z(_E.Fin(z3.RealVal(v.v)), EXT)
        return None
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == IV and name in ('lo', 'hi'): return [(st, Z(getattr(_I, name)(v.e), EXT))]
        if isinstance(v, Cls) and v.name == 'Interval' and name == 'zero':
            for n in frontend.Module.get(F).tree.body:          # the module-level assignment  Interval.zero = ...
                if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == 'Interval.zero': return self.const(eng, st, n.value)
            raise Unsupported('Interval.zero')
        return None
    def const(self, eng, st, e):
        if not (isinstance(e, ast.Call) and ast.unparse(e.func) == 'Interval' and not e.keywords and all(isinstance(x, ast.Constant) for x in e.args)): raise Unsupported('Interval.zero')
        return self.call(eng, st, Cls(F, 'Interval'), [Py(x.value) for x in e.args], {}, e.lineno)
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Cls) and f.name == 'Interval':
            d = dict(zip(['lo', 'hi'], args)); d.update(kwargs)
            return [(st, Z(_I.mkI(eng.lift(d['lo'], EXT).e, eng.lift(d['hi'], EXT).e), IV))]
        if isinstance(f, Builtin) and f.name == 'z3.If':
            c, x, y = args
            r = fresh(NUM, 'ite')
            st.assume(val(r) == z3.If(c.e, val(x.e), val(y.e)), sym(r))
            return [(st, Z(r, NUM))]
        if isinstance(f, Builtin) and f.name in ('min', 'max') and len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.store[args[0].loc], ListO):
            # the built-in min/max of a list: an element that no element beats; ValueError when empty
            o, out = st.store[args[0].loc], []
            for s, c in eng.fork(st, o.n > 0):
                if not c: out.append((s, Raised('ValueError', line=line))); continue
                w, k = fresh(INT, 'at'), z3.Int('mk')
                x = z3.Select(o.arr, w)
                y = z3.Select(o.arr, k)
                eng.oblige(s, 'built-in extremes are taken of concrete numbers only', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.n), z3.Not(sym(y))), patterns=[y]), line)
                s.assume(0 <= w, w < o.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.n), val(x) <= val(y) if f.name == 'min' else val(x) >= val(y)), patterns=[y]))
                out.append((s, Z(x, NUM)))
            return out
        return None
    def isinst(self, eng, st, v, name):
        if isinstance(v, Z) and v.ty == NUM and name == 'z3.ArithRef': return sym(v.e)
    def compare(self, eng, st, op, a, b, line):
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == NUM and b.ty == NUM:
            x, y = val(a.e), val(b.e)
            f = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}.get(type(op))
            if f is not None: return [(st, Z(f, BOOL))]
        return None
    def binop(self, eng, st, op, a, b, line):
        if isinstance(a, Z) and isinstance(b, Z) and a.ty == IV and b.ty == IV and isinstance(op, (ast.Add, ast.Sub)):
            return eng.use_contract(st, C[(F, 'Interval.' + ('__add__' if isinstance(op, ast.Add) else '__sub__'))], [a, b], {}, line)
        def ext(v): return v.e if isinstance(v, Z) and v.ty == EXT else None
        x, y = ext(a), ext(b)
        if x is None or y is None: return None
        if isinstance(op, ast.Sub): y = neg(y)
        elif not isinstance(op, ast.Add): raise Unsupported('interval end arithmetic')
        eng.oblige(st, 'end point is not inf - inf', add_ok(x, y), line)
        return [(st, Z(eadd(x, y), EXT))]
    def slice(self, eng, st, v, lo, hi, step, line):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], ListO) and lo == 1 and hi is None and step is None:
            o = st.store[v.loc]
            arr, k = z3.Const(fresh_name('tail'), o.arr.sort()), z3.Int('tk')
            n = z3.If(o.n > 1, o.n - 1, z3.IntVal(0))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(arr, k) == z3.Select(o.arr, k + 1)), patterns=[z3.Select(arr, k)]))
            return [(st, st.alloc(ListO(o.ety, n, arr)))]
    def axioms(self, eng): return [*SUMS]

THEORY = Intervals()
C = {}
r, q = z3.Reals('r q')

def ends(v): return _I.lo(v), _I.hi(v)
def self_iv(name): return lambda eng, st, nm: Z(z3.Const(name, _I), IV)
PRE = lambda c: [('ends', z3.And(sane(c.e('self')), sane(c.e('other'))))]
def add_post(c, sign):
    x, y, z = c.e('self'), c.e('other'), c.result.e
    return [('encloses every result', z3.ForAll([r, q], z3.Implies(z3.And(member(x, r), member(y, q)), member(z, r + sign * q)))),
            ('least such interval', z3.And(_I.lo(z) == eadd(_I.lo(x), _I.lo(y) if sign > 0 else neg(_I.hi(y))), _I.hi(z) == eadd(_I.hi(x), _I.hi(y) if sign > 0 else neg(_I.lo(y))))),
            ('ends', sane(z))]
C[(F, 'Interval.__add__')] = Contract(F, 'Interval.__add__', params=[('self', IV), ('other', IV)], pre=PRE, post=lambda c: add_post(c, 1), results=lambda c: [IV])
C[(F, 'Interval.__sub__')] = Contract(F, 'Interval.__sub__', params=[('self', IV), ('other', IV)], pre=PRE, post=lambda c: add_post(c, -1), results=lambda c: [IV])
C[(F, 'Interval.__eq__')] = Contract(F, 'Interval.__eq__', params=[('self', IV), ('other', IV)], results=lambda c: [BOOL],
    post=lambda c: [('equal exactly when both ends are', c.result.e == z3.And(_I.lo(c.e('self')) == _I.lo(c.e('other')), _I.hi(c.e('self')) == _I.hi(c.e('other'))))])

def init_post(c):
    f = c.st.store[c['self'].loc].fields
    ok = set(f) == {'lo', 'hi'} and f['lo'] is c['lo'] and f['hi'] is c['hi']
    return [('stores exactly its arguments', z3.BoolVal(ok))]
C[(F, 'Interval.__init__')] = Contract(F, 'Interval.__init__', params=[('self', lambda eng, st, nm: st.alloc(Rec((F, 'Interval'), {}))), ('lo', EXT), ('hi', EXT)], post=init_post)

# ---- sum: for every choice of members ch, the total of the choices is a member
ch = z3.Const('choice', z3.ArraySort(I, R))
AI = z3.ArraySort(I, _I)
tot = z3.Function('total', z3.ArraySort(I, R), I, R)
slo, shi = z3.Function('sum_lo', AI, I, _E), z3.Function('sum_hi', AI, I, _E)
av, n = z3.Const('av', AI), z3.Int('n')
cv = z3.Const('cv', z3.ArraySort(I, R))
SUMS = [z3.ForAll([cv, n], tot(cv, n) == z3.If(n <= 0, z3.RealVal(0), tot(cv, n - 1) + z3.Select(cv, n - 1)), patterns=[tot(cv, n)])] if False else []
def tot_def(n): return tot(ch, n + 1) == tot(ch, n) + z3.Select(ch, n)
def lo_def(a, n): return z3.And(slo(a, n + 1) == eadd(slo(a, n), _I.lo(z3.Select(a, n))), shi(a, n + 1) == eadd(shi(a, n), _I.hi(z3.Select(a, n))))
xs_n, xs_a = z3.Int('xs_n'), z3.Const('xs_a', AI)
k = z3.Int('k')
def sum_pre(c):
    z0 = _E.Fin(z3.RealVal(0))
    return [('length', xs_n >= 0), ('ends', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < xs_n), sane(z3.Select(xs_a, k))), patterns=[z3.Select(xs_a, k)])),
            ('each choice is a member', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < xs_n), member(z3.Select(xs_a, k), z3.Select(ch, k))), patterns=[z3.Select(xs_a, k)])),
            ('definition of the sums', z3.And(tot(ch, 0) == 0, slo(xs_a, 0) == z0, shi(xs_a, 0) == z0, z3.ForAll([n], z3.Implies(n >= 0, z3.And(tot_def(n), lo_def(xs_a, n))), patterns=[z3.Select(xs_a, n)])))]
def y_of(L):
    v = L.st.frames[L.eng.top_frame].get('y')
    if not (isinstance(v, Z) and v.ty == IV): raise Unsupported('local y not found')
    return v.e
def sum_inv(L):
    y, i = y_of(L), L.it['i']
    return [('index', z3.And(0 <= i, i <= xs_n)), ('contains the total so far', member(y, tot(ch, i))), ('ends so far', z3.And(sane(y), _I.lo(y) == slo(xs_a, i), _I.hi(y) == shi(xs_a, i)))]
C[(F, 'Interval.sum')] = Contract(F, 'Interval.sum', params=[('cls', lambda eng, st, nm: Cls(F, 'Interval')), ('xs', lambda eng, st, nm: st.alloc(ListO(IV, xs_n, xs_a)))],
    pre=sum_pre, results=lambda c: [IV], loops=[LoopSpec(sum_inv)],
    post=lambda c: [('contains every total of choices', member(c.result.e, tot(ch, xs_n))), ('ends are the sums of the ends', z3.And(_I.lo(c.result.e) == slo(xs_a, xs_n), _I.hi(c.result.e) == shi(xs_a, xs_n)))])

# ---- Min / Max
vn, va = z3.Int('vs_n'), z3.Const('vs_a', z3.ArraySort(I, NUM.sort))
def ext_contract(name, less):
    cmp = (lambda x, y: x <= y) if less else (lambda x, y: x >= y)
    def post(c):
        m = val(c.result.e)
        return [('no element beats it', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vn), cmp(m, val(z3.Select(va, k)))), patterns=[z3.Select(va, k)])),
                ('attained', z3.Exists([k], z3.And(0 <= k, k < vn, m == val(z3.Select(va, k)))))]
    def inv_any(L): return [('none symbolic so far', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), z3.Not(sym(z3.Select(va, k)))), patterns=[z3.Select(va, k)]))]
    def inv(L):
        v = L.st.frames[L.eng.top_frame].get('m')
        if not (isinstance(v, Z) and v.ty == NUM): raise Unsupported('local m not found')
        m, i = val(v.e), L.it['i']
        return [('index', z3.And(0 <= i, i <= vn - 1)),
                ('extreme so far', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= i), cmp(m, val(z3.Select(va, k)))), patterns=[z3.Select(va, k)])),
                ('attained so far', z3.Exists([k], z3.And(0 <= k, k <= i, m == val(z3.Select(va, k)))))]
    C[(F, name)] = Contract(F, name, params=[('vs', lambda eng, st, nm: st.alloc(ListO(NUM, vn, va)))], pre=lambda c: [('length', vn >= 0)], post=post, results=lambda c: [NUM],
        exc={'ValueError': lambda c: [('only when empty', vn == 0)], 'IndexError': lambda c: [('only when empty', vn == 0)]}, loops=[LoopSpec(inv_any), LoopSpec(inv)])
ext_contract('Min', True)
ext_contract('Max', False)
