"""Symbolic values, types and states."""
import z3


class Unsupported(Exception):
    """The function uses something outside the verifier's Python subset."""


# ---------------------------------------------------------------- types
class Ty:
    def __init__(self, name, sort):
        self.name, self.sort = name, sort
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, Ty) and self.name == o.name
    def __hash__(self): return hash(self.name)

INT = Ty('int', z3.IntSort())
REAL = Ty('real', z3.RealSort())
BOOL = Ty('bool', z3.BoolSort())
STR = Ty('str', z3.DeclareSort('PyStr'))

_obj = {}
def OBJ(name):
    "An uninterpreted sort of Python objects compared only by ==."
    if name not in _obj:
        _obj[name] = Ty(name, z3.DeclareSort(name))
    return _obj[name]

class SetT(Ty):
    def __init__(self, e):
        self.e = e
        super().__init__(f'set[{e.name}]', z3.ArraySort(e.sort, z3.BoolSort()))

class SeqT(Ty):
    def __init__(self, e):
        self.e = e
        super().__init__(f'seq[{e.name}]', z3.SeqSort(e.sort))

_lt = {}
class ListT(Ty):
    "a Python list stored inside another container: (length, array)"
    def __init__(self, e):
        self.e = e
        if e.name not in _lt:
            d = z3.Datatype(f'List_{e.name}')
            d.declare(f'mk_{e.name}', (f'len_{e.name}', z3.IntSort()), (f'arr_{e.name}', z3.ArraySort(z3.IntSort(), e.sort)))
            _lt[e.name] = d.create()
        self.dt = _lt[e.name]
        super().__init__(f'list[{e.name}]', self.dt)
    def mk(self, n, arr): return self.dt.constructor(0)(n, arr)
    def n(self, v): return self.dt.accessor(0, 0)(v)
    def arr(self, v): return self.dt.accessor(0, 1)(v)
    def empty(self): return self.mk(z3.IntVal(0), z3.Const('dflt_arr_' + self.e.name, z3.ArraySort(z3.IntSort(), self.e.sort)))

_mt = {}
class MapT(Ty):
    "a dict stored inside another container: (domain, values)"
    def __init__(self, k, v):
        self.k, self.v = k, v
        name = f'{k.name}_{v.name}'
        if name not in _mt:
            d = z3.Datatype(f'Map_{name}')
            d.declare(f'mk_{name}', (f'dom_{name}', z3.ArraySort(k.sort, z3.BoolSort())), (f'val_{name}', z3.ArraySort(k.sort, v.sort)))
            _mt[name] = d.create()
        self.dt = _mt[name]
        super().__init__(f'map[{name}]', self.dt)
    def mk(self, dom, val): return self.dt.constructor(0)(dom, val)
    def dom(self, x): return self.dt.accessor(0, 0)(x)
    def val(self, x): return self.dt.accessor(0, 1)(x)
    def empty(self): return self.mk(z3.EmptySet(self.k.sort), z3.Const(f'dflt_val_{self.name}', z3.ArraySort(self.k.sort, self.v.sort)))

CONT = (SetT, ListT, MapT)

_n = [0]
def fresh_name(p):
    _n[0] += 1
    return f'{p}!{_n[0]}'

def fresh(ty, p='v'):
    return z3.Const(fresh_name(p), ty.sort)


# ---------------------------------------------------------------- values
class V: pass

class Z(V):
    def __init__(self, e, ty): self.e, self.ty = e, ty
    def __repr__(self): return f'Z({self.e}:{self.ty})'

class Py(V):
    "a concrete Python constant"
    def __init__(self, v): self.v = v
    def __repr__(self): return f'Py({self.v!r})'

NONE = Py(None)

class Tup(V):
    def __init__(self, items, kind='tuple'): self.items, self.kind = list(items), kind
    def __repr__(self): return f'Tup{tuple(self.items)}'

class Ref(V):
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return f'Ref({self.loc})'

class Place(V):
    "a mutable container stored inside another container: base[key]"
    def __init__(self, base, key, ty): self.base, self.key, self.ty = base, key, ty
    def __repr__(self): return f'Place({self.base}[{self.key}])'

class Func(V):
    def __init__(self, node, module, frame=None, selfv=None, qual=None, cls=None):
        self.node, self.module, self.frame, self.selfv, self.qual, self.cls = node, module, frame, selfv, qual, cls
    def __repr__(self): return f'Func({self.qual})'

class Bound(V):
    "a method of a modelled (non-Rec) value"
    def __init__(self, obj, name): self.obj, self.name = obj, name
    def __repr__(self): return f'Bound({self.obj}.{self.name})'

class Cls(V):
    def __init__(self, module, name): self.module, self.name = module, name
    def __repr__(self): return f'Cls({self.name})'

class Mod(V):
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Mod({self.name})'

class Builtin(V):
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Builtin({self.name})'

class Opaque(V):
    "a value nothing is known about (e.g. an f-string)"
    def __init__(self, why=''): self.why = why

class GenObj(V):
    "an un-started generator: contract-backed (contract, args) or inlinable (func, args)"
    def __init__(self, contract=None, ctxargs=None, func=None, args=None, kwargs=None):
        self.contract, self.ctxargs, self.func, self.args, self.kwargs = contract, ctxargs, func, args, kwargs

class IterV(V):
    "an iterator over something (iter(x), enumerate(x), zip(..), range(..), reversed(..), x.items())"
    def __init__(self, kind, args): self.kind, self.args = kind, args

class CompV(V):
    "an unevaluated generator expression"
    def __init__(self, node, frame): self.node, self.frame = node, frame

class Raised(V):
    def __init__(self, etype, payload=None, line=None): self.etype, self.payload, self.line = etype, payload, line
    def __repr__(self): return f'Raised({self.etype})'


# ---------------------------------------------------------------- store objects
class Rec:
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields
    def copy(self): return Rec(self.cls, dict(self.fields))

class SetO:
    def __init__(self, ety, arr): self.ety, self.arr = ety, arr
    def copy(self): return SetO(self.ety, self.arr)

class MapO:
    def __init__(self, kty, vty, dom, val, order=None): self.kty, self.vty, self.dom, self.val = kty, vty, dom, val
    cls = None            # set for dict subclasses (e.g. Subst)
    default = None        # defaultdict: the value (a z3 expression) inserted for a missing key
    def copy(self): return self.like(self.dom, self.val)
    def like(self, dom, val):
        m = MapO(self.kty, self.vty, dom, val)
        m.cls, m.default = self.cls, self.default
        return m

class ListO:
    "a Python list as (length, array)"
    def __init__(self, ety, n, arr): self.ety, self.n, self.arr = ety, n, arr
    def copy(self): return ListO(self.ety, self.n, self.arr)


class MatO:
    "a square matrix (numpy array of rank 2): size and cells"
    def __init__(self, ety, n, arr): self.ety, self.n, self.arr = ety, n, arr
    def copy(self): return MatO(self.ety, self.n, self.arr)


class State:
    def __init__(self):
        self.frames = {}      # frame id -> env
        self.cur = None
        self.store = {}       # loc -> object
        self.pc = []
        self.H = None         # heap of Var cells (theory-specific)
        self.writes = set()   # locations written
        self.ghost = {}
        self.trace = []

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur = self.cur
        s.store = {k: v.copy() for k, v in self.store.items()}
        s.pc = list(self.pc)
        s.H = self.H
        s.writes = set(self.writes)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        return s

    @property
    def env(self): return self.frames[self.cur]

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            if not z3.is_true(c):
                self.pc.append(c)

    _loc = [0]
    def alloc(self, obj):
        State._loc[0] += 1
        l = State._loc[0]
        self.store[l] = obj
        return Ref(l)


def subset(a, b):
    "a ⊆ b for sets represented as arrays"
    x = z3.Const('sub!x', a.sort().domain())
    return z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.Select(b, x)), patterns=[z3.Select(a, x)])
