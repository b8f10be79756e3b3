"""Contract for _canonicalize_var (C05): the interned table of canonical variables.

_cvars is an ARBITRARY list of pairwise distinct variables.  _canonicalize_var(i) returns entry i of the list it leaves, which
extends the one it found and is still pairwise distinct.  Entries never change, so the i-th canonical variable is one and the
same at every call, and differs from the others: the function cv of contracts.canonical.
"""
import ast, os
import z3
from pydv import frontend
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F = 'dyna/term.py'
VAR = OBJ('VarId')
I, S = z3.IntSort(), z3.Select
A0, N0 = z3.Const('cvars_arr', z3.ArraySort(I, VAR.sort)), z3.Int('cvars_n')
i, j = z3.Ints('c_i c_j')
And, Imp = z3.And, z3.Implies
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats))
def distinct(n, a): return FA([i, j], Imp(And(0 <= i, i < j, j < n), S(a, i) != S(a, j)), z3.MultiPattern(S(a, i), S(a, j)))

def uses():
    "every mention of _cvars in the package: (file, enclosing function, assigned?)"
    out = []
    for d, _, fs in os.walk(os.path.join(frontend.REPO, 'dyna')):
        for f in fs:
            if not f.endswith('.py'): continue
            p = os.path.join(d, f)
            src = open(p).read()
            if '_cvars' not in src: continue
            def go(n, fn):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)): fn = getattr(n, 'name', 'lambda')
                if (isinstance(n, ast.Name) and n.id == '_cvars') or (isinstance(n, ast.Attribute) and n.attr == '_cvars') or (isinstance(n, ast.alias) and n.name == '_cvars'): out.append((os.path.relpath(p, frontend.REPO), fn))
                for c in ast.iter_child_nodes(n): go(c, fn)
            go(ast.parse(src), None)
    return out

class CTheory(Theory):
    ref = None
    def assume_params(self, eng, st, args, contract):
        if set(uses()) - {(F, None), (F, '_canonicalize_var')}: raise Unsupported('_cvars is used elsewhere')
        self.ref = args['$cvars'] = st.alloc(ListO(VAR, N0, A0))
        st.assume(N0 >= 0, distinct(N0, A0))
    def global_name(self, eng, name, module): return self.ref if name == '_cvars' else None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Cls) and f.name == 'Var':
            n = z3.Const(fresh_name('newvar'), VAR.sort)
            for o in st.store.values():
                if isinstance(o, ListO): st.assume(FA([j], Imp(And(0 <= j, j < o.n), S(o.arr, j) != n), S(o.arr, j)))
            return [(st, Z(n, VAR))]
        return None

THEORY = CTheory()
C = {}
def table(c, st=None): return (st or c.st).store[c['$cvars'].loc]
def keeps(o): return [('entries are kept', And(o.n >= N0, FA([j], Imp(And(0 <= j, j < N0), S(o.arr, j) == S(A0, j)), S(o.arr, j)))), ('entries are distinct', distinct(o.n, o.arr))]
def post(c):
    o = table(c)
    return [('the i-th entry', And(c.e('i') < o.n, c.eng.lift(c.result, VAR).e == S(o.arr, c.e('i'))))] + keeps(o)
def inv(L):
    o = L.st.store[THEORY.ref.loc]
    return ([('one entry per step', o.n == N0 + L.it['i'] - L.it['lo'])] if isinstance(L.it, dict) and L.it.get('kind') == 'range' else []) + keeps(o)
C[(F, '_canonicalize_var')] = Contract(F, '_canonicalize_var', params=[('i', INT)], pre=lambda c: [('index', c.e('i') >= 0)], post=post, results=lambda c: [VAR], modifies=lambda c: [THEORY.ref], loops=[LoopSpec(inv)])
ASSUMPTIONS = ['a new variable differs from every existing one']
