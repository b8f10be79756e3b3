"""A theory with no special knowledge: contracts derive from it and override what they need."""
from .values import *


class Theory:
    needs_heap = False
    def axioms(self, eng): return []
    def fresh_heap(self): return None
    def coerce(self, eng, v, ty): return None
    def truth(self, eng, st, v): return None
    def eq(self, eng, st, a, b): return None
    def is_(self, eng, st, a, b): return None
    def assume_params(self, eng, st, args, contract): pass
    def setattr(self, eng, st, o, name, v, line): return False
    def destructure(self, eng, st, t, v, star): return None
    def norm_iter(self, eng, st, v): return None
    def iter_start(self, eng, st, it): return None
    def iter_arbitrary(self, eng, st, it, g0): return None
    def iter_done(self, eng, st, it, g): return None
    def iter_next(self, eng, st, it, g): return None
    def global_name(self, eng, name, module): return None
    def build_seq(self, eng, st, vs, kind): return None
    def unop(self, eng, st, op, v): return None
    def binop(self, eng, st, op, a, b, line): return None
    def compare(self, eng, st, op, a, b, line): return None
    def contains(self, eng, st, x, c, line): return None
    def getattr(self, eng, st, v, name, line): return None
    def getitem(self, eng, st, o, k, line): return None
    def slice(self, eng, st, v, lo, hi, step, line): return None
    def call(self, eng, st, f, args, kwargs, line): return None
    def to_set(self, eng, st, v): return None
    def to_list(self, eng, st, v): return None
    def to_tuple(self, eng, st, v): return None
    def length(self, eng, st, v): return None
    def after_isinstance(self, eng, st, v, ts, cs):
        c = z3.Or(*cs) if len(cs) > 1 else cs[0]
        return [(st, Z(c, BOOL))]
    def isinst(self, eng, st, v, name): return None
    def removed(self, eng, st, old, new, j): pass
    def listcomp(self, eng, st, e): return None
    def havoc_field(self, eng, st, ref, f, old): return None
