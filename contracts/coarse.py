"""Contracts for dyna/analyze/coarse_graph.py (property C28): what the analyses answer about the coarse dependency graph.

dep(x, y): an edge of the coarse graph.  reach is its reflexive transitive closure, reachp its transitive closure (what
Graph.transitive_closure returns).  is_const / is_builtin / root / is_output are arbitrary functions of the items.
"""
import ast
import z3
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F, G = 'dyna/analyze/coarse_graph.py', 'dyna/util/graphs.py'
ITEM, RULE = OBJ('Subgoal'), OBJ('CRule')
I, B, S = z3.IntSort(), z3.BoolSort(), z3.Select
IS, RS = ITEM.sort, RULE.sort
head = z3.Function('c_head', RS, IS); blen = z3.Function('c_blen', RS, I); body = z3.Function('c_body', RS, z3.ArraySort(I, IS))
root = z3.Function('c_root', IS, IS); isconst = z3.Function('c_const', IS, B); isbuiltin = z3.Function('c_builtin', IS, B)
reach, reachp = z3.Function('c_reach', IS, IS, B), z3.Function('c_reachp', IS, IS, B)
rules, nrules = z3.Const('c_rules', z3.ArraySort(I, RS)), z3.Int('c_nrules')
INP = z3.Const('c_inputs', z3.ArraySort(IS, B))
x, y = z3.Consts('c_x c_y', IS); r = z3.Const('c_r', RS); i, j, k = z3.Ints('c_i c_j c_k')
nI, nD = z3.Function('c_nI', I, I), z3.Function('c_nD', I, I)
cnt = z3.Function('c_cnt', RS, I, I)
def b(r, k): return S(body(r), k)
wit = z3.Function('c_input_below', RS, IS)              # an input below the head, if there is one
def dependent(r): return z3.And(S(INP, wit(r)), reach(root(head(r)), root(wit(r))))
def hit(r, k): return z3.And(z3.Not(isconst(b(r, k))), z3.Not(isbuiltin(b(r, k))), reach(root(b(r, k)), root(head(r))))
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats)) if pats else z3.ForAll(vs, b)
DEFS = [FA([r], blen(r) >= 0, blen(r)), nI(0) == 0, nD(0) == 0,
        FA([r, x], z3.Implies(z3.And(S(INP, x), reach(root(head(r)), root(x))), dependent(r)), z3.MultiPattern(head(r), S(INP, x))),
        FA([i], z3.Implies(i >= 0, z3.And(nI(i + 1) == nI(i) + z3.If(dependent(S(rules, i)), 0, 1), nD(i + 1) == nD(i) + z3.If(dependent(S(rules, i)), 1, 0))), nI(i + 1), nD(i + 1)),
        FA([i], z3.And(nI(i) >= 0, nD(i) >= 0), nI(i), nD(i)),
        FA([r], cnt(r, 0) == 0, cnt(r, 0)), FA([r, k], z3.Implies(k >= 0, cnt(r, k + 1) == cnt(r, k) + z3.If(hit(r, k), 1, 0)), cnt(r, k + 1))]
LT = ListT(ITEM)
SETS = SetT(ITEM)

class Coarse(Theory):
    def axioms(self, eng): return DEFS
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == RULE:
            if name == 'head': return [(st, Z(head(v.e), ITEM))]
            if name == 'body': return [(st, st.alloc(ListO(ITEM, blen(v.e), body(v.e))))]
        if isinstance(v, Opaque) and v.why in ('program', 'nodes', 'inputs'): return [(st, Opaque('inputs') if (v.why, name) == ('program', 'inputs') else Bound(v, name))]
        return None
    def is_(self, eng, st, a_, b_):
        for u, w in ((a_, b_), (b_, a_)):
            if isinstance(u, Opaque) and isinstance(w, Py) and w.v is None: return False
        return None
    def norm_iter(self, eng, st, v):
        if isinstance(v, Opaque) and v.why == 'program': return st.alloc(ListO(RULE, nrules, rules))
        return None
    def binop(self, eng, st, op, a_, b_, line):
        if isinstance(op, ast.Add) and isinstance(a_, (Z, Py)) and isinstance(b_, Z) and b_.ty == BOOL and (not isinstance(a_, Z) or a_.ty == INT):
            return [(st, Z(eng.lift(a_, INT).e + z3.If(b_.e, 1, 0), INT))]
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Bound) and isinstance(f.obj, Opaque) and len(args) <= 1:
            why, a = f.obj.why, args[0] if args else None
            if why == 'nodes' and f.name == 'root': return [(st, Z(root(eng.lift(a, ITEM).e), ITEM))]
            if why == 'program' and f.name == 'is_const': return [(st, Z(isconst(eng.lift(a, ITEM).e), BOOL))]
            if why == 'program' and f.name == 'is_builtin': return [(st, Z(isbuiltin(eng.lift(a, ITEM).e), BOOL))]
            if why == 'program' and f.name == 'spawn' and isinstance(a, Ref): return [(st, st.alloc(Rec((F, 'Spawned'), {'rules': a})))]
            if why == 'inputs' and f.name == 'just_heads': return [(st, st.alloc(SetO(ITEM, INP)))]
        return None

THEORY = Coarse()
C = {}
def LEMMAS():
    r0, j0, k0, m0, n0 = z3.Const('r0', RS), z3.Int('j0'), z3.Int('k0'), z3.Int('m0'), z3.Int('n0')
    st = lambda k: cnt(r0, k + 1) == cnt(r0, k) + z3.If(hit(r0, k), 1, 0)
    # at most one counted position: no two distinct positions lead back to the head
    out = [('count grows: step', [n0 >= m0, cnt(r0, m0) <= cnt(r0, n0), st(n0)], cnt(r0, m0) <= cnt(r0, n0 + 1), []),
           ('two positions leading back are counted twice', [0 <= j0, j0 < k0, k0 < n0, hit(r0, j0), hit(r0, k0), cnt(r0, n0) <= 1, cnt(r0, 0) == 0, cnt(r0, 0) <= cnt(r0, j0), st(j0), cnt(r0, j0 + 1) <= cnt(r0, k0), st(k0), cnt(r0, k0 + 1) <= cnt(r0, n0)], z3.BoolVal(False), [])]
    return out

GD, GV = z3.Const('g_dom', z3.ArraySort(IS, B)), z3.Const('g_val', z3.ArraySort(IS, SETS.sort))
def graph(st, nm):
    m = MapO(ITEM, SETS, z3.Const(nm + '_dom', GD.sort()), z3.Const(nm + '_val', GV.sort()))
    m.default = z3.EmptySet(IS)
    return st.alloc(Rec((G, 'Graph'), {'nodes': st.alloc(SetO(ITEM, z3.Const(nm + '_nodes', z3.ArraySort(IS, B)))), 'outgoing': st.alloc(m)}))
def SELF(eng, st, nm): return st.alloc(Rec((F, 'CoarseGraph'), {'program': Opaque('program'), 'nodes': Opaque('nodes'), 'g': graph(st, 'g')}))
NODES = z3.Const('c_nodes', z3.ArraySort(IS, B))

def tc_post(c):
    g = c.st.store[c.result.loc]
    o, N = c.st.store[g.fields['outgoing'].loc], c.st.store[g.fields['nodes'].loc].arr
    refl = c['reflexive']
    rel = (lambda a, b_: z3.If(refl.e, reach(a, b_), reachp(a, b_))) if isinstance(refl, Z) else reach if refl.v else reachp
    return [('the closure', FA([x, y], z3.And(S(o.dom, x), S(S(o.val, x), y)) == rel(x, y), S(S(o.val, x), y), rel(x, y) if not isinstance(refl, Z) else reach(x, y))), ('nodes', N == NODES)]
C[(G, 'Graph.transitive_closure')] = Contract(G, 'Graph.transitive_closure', params=[('self', None), ('reflexive', BOOL)], trusted='proved in closure',
    post=tc_post, results=lambda c: [graph(c.st, fresh_name('tc'))])

def lst(L, name):
    v = L.st.frames[L.eng.top_frame].get(name)
    if v is None: raise Unsupported(f'local {name} not found')
    if isinstance(v, Ref): return L.st.store[v.loc]
    return v
def filtered(l, n, num, want):
    return [('number', l.n == num(n)), ('in order', FA([j], z3.Implies(z3.And(0 <= j, j < n, want(S(rules, j))), z3.And(num(j) < num(n), S(l.arr, num(j)) == S(rules, j))), num(j)))]
def split_posts(lI, lD, n):
    return [('independent rules: ' + a, f) for a, f in filtered(lI, n, nI, lambda r: z3.Not(dependent(r)))] + [('dependent rules: ' + a, f) for a, f in filtered(lD, n, nD, dependent)]
def closed(L, nm, rel):
    T = L.st.store[lst(L, nm).fields['outgoing'].loc] if isinstance(lst(L, nm), Rec) else None
    if T is None: raise Unsupported('closure')
    return [('the closure', FA([x, y], z3.And(S(T.dom, x), S(S(T.val, x), y)) == rel(x, y), S(S(T.val, x), y), rel(x, y)))]
def split_inv(L): return split_posts(lst(L, 'I'), lst(L, 'D'), L.it['i']) + closed(L, 'T', reach)
def split_post(c):
    if not isinstance(c.result, Tup) or len(c.result.items) != 2: raise Unsupported('result of split_input_dependent')
    ls = [c.st.store[c.st.store[q.loc].fields['rules'].loc] for q in c.result.items]
    return split_posts(*ls, nrules)
def inp_inv(L):
    res = L.st.store[L.st.ghost['comp'].loc].arr
    return [('roots of the inputs so far', FA([y], S(res, y) == z3.Exists([x], z3.And(S(L.it['seen'], x), root(x) == y)), S(res, y)))]
sp = Contract(F, 'CoarseGraph.split_input_dependent', params=[('self', SELF)], pre=lambda c: [('rules', nrules >= 0)], post=split_post, results=lambda c: [lambda e, s, v: True], loops=[LoopSpec(inp_inv), LoopSpec(split_inv)])
sp.list_elem = RULE; sp.set_elem = ITEM
C[(F, 'CoarseGraph.split_input_dependent')] = sp

def bres(c): return c.eng.lift(c.result, BOOL).e
C[(F, 'CoarseGraph.possibly_cyclic')] = Contract(F, 'CoarseGraph.possibly_cyclic', params=[('self', SELF)],
    post=lambda c: [('False only when no node depends on itself', z3.Implies(z3.Not(bres(c)), FA([x], z3.Implies(S(NODES, x), z3.Not(reachp(x, x))), S(NODES, x)))),
                    ('True only when some node depends on itself', z3.Implies(bres(c), z3.Exists([x], z3.And(S(NODES, x), reachp(x, x)))))],
    results=lambda c: [BOOL], loops=[LoopSpec(lambda L: closed(L, 'T', reachp) + [('none so far', FA([x], z3.Implies(S(L.it['seen'], x), z3.Not(reachp(x, x))), S(L.it['seen'], x)))])])

def rule_of(L):
    v = lst(L, 'r')
    if not (isinstance(v, Z) and v.ty == RULE): raise Unsupported('rule')
    return v.e
def exp_outer(L): return closed(L, 'T', reach) + [('no such rule so far', FA([j], z3.Implies(z3.And(0 <= j, j < L.it['i']), cnt(S(rules, j), blen(S(rules, j))) <= 1), S(rules, j)))]
def exp_inner(L): return closed(L, 'T', reach) + [('counted so far', z3.And(L.eng.lift(lst(L, 'count'), INT).e == cnt(rule_of(L), L.it['i']), cnt(rule_of(L), L.it['i']) <= 1)), ('x is the head', lst(L, 'x').e == root(head(rule_of(L))))]
def exp_post(c):
    return [('False only when every rule has at most one subgoal that leads back to its head', z3.Implies(z3.Not(bres(c)), FA([j], z3.Implies(z3.And(0 <= j, j < nrules), cnt(S(rules, j), blen(S(rules, j))) <= 1), S(rules, j)))),
            ('True only when some rule has two', z3.Implies(bres(c), z3.Exists([j, k], z3.And(0 <= j, j < nrules, 0 <= k, k <= blen(S(rules, j)), cnt(S(rules, j), k) > 1))))]
C[(F, 'CoarseGraph.possibly_expansive')] = Contract(F, 'CoarseGraph.possibly_expansive', params=[('self', SELF)], pre=lambda c: [('rules', nrules >= 0)], post=exp_post, results=lambda c: [BOOL],
    loops=[LoopSpec(exp_outer), LoopSpec(exp_inner)])
ASSUMPTIONS = ['Program.spawn makes a program of exactly the given rules; root, is_const, is_builtin are functions of the item',
               'that the coarse edges cover the dependencies between instances (CoarseGraph.__init__) and scc_decomposition are checked bounded']
