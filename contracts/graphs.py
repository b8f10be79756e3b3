"""Contracts for dyna/util/graphs.py (property C11): the hypergraph and its reachability.

InE(e): e is one of the graph's hyperedges.  D: the set of nodes derivable from the inputs (the least set that
contains the inputs and is closed under the hyperedges; leastness is stated by a derivation of finite rank for
every member).  M: an ARBITRARY set containing the outputs and closed under drawing on derivable body nodes.
reachability must return such a set, contained in every such M -- hence the least one.
"""
import z3
from pydv.engine import Contract, LoopSpec, Ctx
from pydv.base import Theory
from pydv.values import *

F = 'dyna/util/graphs.py'
NODE, EDGE, W = OBJ('Node'), OBJ('Edge'), OBJ('Weight')
LE = ListT(EDGE)
S, B, I = z3.Select, z3.BoolSort(), z3.IntSort()
head = z3.Function('e_head', EDGE.sort, NODE.sort)
weight = z3.Function('e_weight', EDGE.sort, W.sort)
blen = z3.Function('e_blen', EDGE.sort, I)
barr = z3.Function('e_barr', EDGE.sort, z3.ArraySort(I, NODE.sort))
mkE = z3.Function('mkEdge', W.sort, NODE.sort, I, z3.ArraySort(I, NODE.sort), EDGE.sort)
def body(e, k): return S(barr(e), k)

e, x, y = z3.Const('e', EDGE.sort), z3.Const('x', NODE.sort), z3.Const('y', NODE.sort)
h, j, k, n = z3.Const('h', NODE.sort), z3.Int('j'), z3.Int('k'), z3.Int('n')
w, ba = z3.Const('w', W.sort), z3.Const('ba', z3.ArraySort(I, NODE.sort))


# the elements of a list, as a set (definitional: l holds e iff e is at some index)
elems = z3.Function('elems', LE.sort, z3.ArraySort(EDGE.sort, B))
eix = z3.Function('elem_index', LE.sort, EDGE.sort, I)
lv, la = z3.Const('lv', LE.sort), z3.Const('la', z3.ArraySort(I, EDGE.sort))
def elems_axioms():
    t1 = LE.mk(n, z3.Store(la, j, e))
    return [z3.ForAll([lv, e], z3.Implies(S(elems(lv), e), z3.And(0 <= eix(lv, e), eix(lv, e) < LE.n(lv), S(LE.arr(lv), eix(lv, e)) == e)), patterns=[S(elems(lv), e)]),
            z3.ForAll([lv, j], z3.Implies(z3.And(0 <= j, j < LE.n(lv)), S(elems(lv), S(LE.arr(lv), j))), patterns=[z3.MultiPattern(elems(lv), S(LE.arr(lv), j))]),
            # lemma (append): follows from the two above
            z3.ForAll([n, la, j, e], z3.Implies(z3.And(0 <= j, n == j + 1), elems(t1) == z3.Store(elems(LE.mk(j, la)), e, True)), patterns=[t1])]

class Graphs(Theory):
    def axioms(self, eng):
        t = mkE(w, h, n, ba)
        return [*elems_axioms(), z3.ForAll([e], blen(e) >= 0, patterns=[blen(e)]),
                z3.ForAll([w, h, n, ba], z3.Implies(n >= 0, z3.And(head(t) == h, weight(t) == w, blen(t) == n, barr(t) == ba)), patterns=[t])]
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Z) and v.ty == EDGE:
            if name == 'head': return [(st, Z(head(v.e), NODE))]
            if name == 'weight': return [(st, Z(weight(v.e), W))]
            if name == 'body':
                st.assume(blen(v.e) >= 0)
                return [(st, st.alloc(ListO(NODE, blen(v.e), barr(v.e))))]
        return None
    def global_name(self, eng, name, module):
        return Builtin('Edge') if name == 'Edge' and module == F else None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Builtin) and f.name == 'Edge':
            order = ['weight', 'head', 'body']
            d = dict(zip(order, args)); d.update(kwargs)
            b = st.store[d['body'].loc]
            return [(st, Z(mkE(d['weight'].e, d['head'].e, b.n, b.arr), EDGE))]
        return None

THEORY = Graphs()
C = {}
def LEMMAS():
    A = elems_axioms()
    jj, ll, e0, e1 = z3.Int('jj'), z3.Const('ll', la.sort()), z3.Const('e0', EDGE.sort), z3.Const('e1', EDGE.sort)
    t0, t1 = LE.mk(jj, ll), LE.mk(jj + 1, z3.Store(ll, jj, e0))
    def a2(l): return z3.Implies(S(elems(l), e1), z3.And(0 <= eix(l, e1), eix(l, e1) < LE.n(l), S(LE.arr(l), eix(l, e1)) == e1))
    def a3(l, i): return z3.Implies(z3.And(0 <= i, i < LE.n(l)), S(elems(l), S(LE.arr(l), i)))
    inst = [a2(t0), a2(t1), a3(t0, eix(t1, e1)), a3(t1, eix(t0, e1)), a3(t1, jj)]
    return [('appending adds one element', [jj >= 0] + inst, S(elems(t1), e1) == z3.Or(S(elems(t0), e1), e1 == e0), [])]

def edge_map(name, default=True):
    m = MapO(NODE, LE, z3.Const(name + '_dom', z3.ArraySort(NODE.sort, B)), z3.Const(name + '_val', z3.ArraySort(NODE.sort, LE.sort)))
    m.default = LE.empty()
    return m

def empty_edge_map():
    m = edge_map(fresh_name('em'))
    m.dom = z3.EmptySet(NODE.sort)
    return m

def mkself(eng, st, name):
    return st.alloc(Rec((F, 'Hypergraph'), {'incoming': st.alloc(edge_map('inc')),
                                            'nodes': st.alloc(SetO(NODE, z3.Const('nodes', z3.ArraySort(NODE.sort, B))))}))

def inc(c, old=False): return c.obj(c.field('self', 'incoming', old), old)
def nodes(c, old=False): return c.obj(c.field('self', 'nodes', old), old).arr
def el(m, h, j): return S(LE.arr(S(m.val, h)), j)
def valid(m, h, j): return z3.And(S(m.dom, h), 0 <= j, j < LE.n(S(m.val, h)))
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats)) if pats else z3.ForAll(vs, b)

# ---- the class invariant: edges are filed under their heads; all their nodes are known
def wf(m, N):
    return [('edges are filed under their head', FA([h, j], z3.Implies(valid(m, h, j), head(el(m, h, j)) == h), el(m, h, j))),
            ('every node of an edge is a node', FA([h, j, k], z3.Implies(z3.And(valid(m, h, j), 0 <= k, k < blen(el(m, h, j))), z3.And(S(N, h), S(N, body(el(m, h, j), k)))), body(el(m, h, j), k))),
            ('heads are nodes', FA([h, j], z3.Implies(valid(m, h, j), S(N, h)), el(m, h, j))),
            ('list lengths', FA([h], LE.n(S(m.val, h)) >= 0, S(m.val, h)))]

# ---- add_edge: the edge multiset grows by exactly this edge
def ae_post(c):
    m0, m, N0, N = inc(c, True), inc(c), nodes(c, True), nodes(c)
    b = c.obj('body', True)
    hd, wt = c.e('head'), c.e('weight')
    ne = c.result.e
    len0 = z3.If(S(m0.dom, hd), LE.n(S(m0.val, hd)), z3.IntVal(0))
    return [('the edge asked for', z3.And(head(ne) == hd, weight(ne) == wt, blen(ne) == b.n, FA([k], z3.Implies(z3.And(0 <= k, k < b.n), body(ne, k) == S(b.arr, k))))),
            ('appended under its head', z3.And(S(m.dom, hd), LE.n(S(m.val, hd)) == len0 + 1, el(m, hd, len0) == ne)),
            ('earlier edges kept', FA([h, j], z3.Implies(valid(m0, h, j), z3.And(valid(m, h, j), el(m, h, j) == el(m0, h, j))))),
            ('no other edge', FA([h, j], z3.Implies(z3.And(valid(m, h, j), z3.Not(z3.And(h == hd, j == len0))), valid(m0, h, j)))),
            ('nodes: old ones, the head, the body', FA([x], S(N, x) == z3.Or(S(N0, x), x == hd, z3.Exists([k], z3.And(0 <= k, k < b.n, S(b.arr, k) == x))))),
            *wf(m, N)]

def ae_inv(L):
    b, N, m = L.obj('body'), nodes(L), inc(L)
    N1 = L.entry.store[L.field('self', 'nodes').loc].arr
    i = L.it['i']
    return [('nodes so far', FA([x], S(N, x) == z3.Or(S(N1, x), z3.Exists([k], z3.And(0 <= k, k < i, S(b.arr, k) == x))))), ('index', z3.And(0 <= i, i <= b.n))]

C[(F, 'Hypergraph.add_edge')] = Contract(F, 'Hypergraph.add_edge', params=[('self', mkself), ('head', NODE), ('weight', W),
        ('body', lambda eng, st, nm: st.alloc(ListO(NODE, z3.Int('blen'), z3.Const('barr', z3.ArraySort(I, NODE.sort)))))],
    pre=lambda c: wf(inc(c), nodes(c)) + [('arity', c.obj('body').n >= 0)],
    post=ae_post, results=lambda c: [EDGE], modifies=lambda c: [c.field('self', 'incoming'), c.field('self', 'nodes')], loops=[LoopSpec(ae_inv)])

# ---- reachability
InE = z3.Function('InE', EDGE.sort, B)
idx = z3.Function('edge_index', EDGE.sort, I)
bad = z3.Function('bad_pos', EDGE.sort, I)
der = z3.Function('der', NODE.sort, EDGE.sort)
rank = z3.Function('rank', NODE.sort, I)
SN = z3.ArraySort(NODE.sort, B)
D, M = z3.Const('D', SN), z3.Const('M', SN)

def reach_pre(c):
    m, A, O = inc(c), c.obj('inputs').arr, c.obj('outputs').arr
    return [('InE names the edges', z3.And(FA([h, j], z3.Implies(valid(m, h, j), InE(el(m, h, j))), el(m, h, j)),
                                           FA([e], z3.Implies(InE(e), z3.And(valid(m, head(e), idx(e)), el(m, head(e), idx(e)) == e)), InE(e)))),
            *wf(m, nodes(c)),
            ('D contains the inputs', FA([x], z3.Implies(S(A, x), S(D, x)), S(A, x))),
            ('D is closed', FA([e], z3.Implies(z3.And(InE(e), z3.Not(S(D, head(e)))), z3.And(0 <= bad(e), bad(e) < blen(e), z3.Not(S(D, body(e, bad(e)))))), InE(e))),
            ('D is least: members have derivations', FA([x], z3.Implies(S(D, x), z3.And(rank(x) >= 0, z3.Or(S(A, x), z3.And(
                InE(der(x)), head(der(x)) == x,
                FA([k], z3.Implies(z3.And(0 <= k, k < blen(der(x))), z3.And(S(D, body(der(x), k)), rank(body(der(x), k)) < rank(x))), body(der(x), k)))))), rank(x))),
            ('M contains the outputs', FA([x], z3.Implies(S(O, x), S(M, x)), S(O, x))),
            ('M is closed under drawing on derivable nodes', FA([e, k], z3.Implies(z3.And(InE(e), S(M, head(e)), 0 <= k, k < blen(e), S(D, body(e, k))), S(M, body(e, k))), z3.MultiPattern(InE(e), body(e, k))))]

def R(c): return c.obj(c.result).arr if not (isinstance(c.result, Z)) else c.result.e
def reach_post(c):
    T, O = R(c), c.obj('outputs', True).arr
    m0, m = inc(c, True), inc(c)
    return [('contains the outputs', subset(O, T)),
            ('closed under drawing on derivable nodes', FA([e, k], z3.Implies(z3.And(InE(e), S(T, head(e)), 0 <= k, k < blen(e), S(D, body(e, k))), S(T, body(e, k))), z3.MultiPattern(InE(e), body(e, k)))),
            ('contained in every such set', subset(T, M)),
            ('the edges are unchanged', same_edges(m0, m))]

def same_edges(m0, m):
    return FA([h], z3.And(z3.Implies(S(m0.dom, h), z3.And(S(m.dom, h), S(m.val, h) == S(m0.val, h))),
                          z3.Implies(z3.And(S(m.dom, h), z3.Not(S(m0.dom, h))), LE.n(S(m.val, h)) == 0)), S(m.dom, h))

def loc(L, name):
    v = L.st.frames[L.eng.top_frame].get(name)
    if v is None: raise Unsupported(f'local {name} not found')
    return L.st.store[v.loc] if isinstance(v, Ref) else v

# C.update(heads of axioms)
def c_of(L): return L.st.store[L.st.ghost['comp'].loc].arr
def ax_common(L):
    A = L.obj('inputs').arr
    return [('inputs in', subset(A, c_of(L))), ('only derivable nodes', subset(c_of(L), D))]
def ax_done(L, seen, Cx):
    m = inc(L)
    return FA([h, j], z3.Implies(z3.And(S(seen, h), valid(m, h, j), blen(el(m, h, j)) == 0), S(Cx, h)), el(m, h, j))
def ax_outer(L): return ax_common(L) + [('axioms of the keys seen', ax_done(L, L.it['seen'], c_of(L)))]
def ax_inner(L):
    m, i, key = inc(L), L.it['i'], L.it['src'].key.e
    return ax_common(L) + [('axioms of the keys seen', ax_done(L, L.st.ghost['loop0']['seen'], c_of(L))),
                           ('axioms of this key so far', FA([j], z3.Implies(z3.And(0 <= j, j < i, blen(el(m, key, j)) == 0), S(c_of(L), key)), el(m, key, j)))]

# outgoing[b] lists the edges that use b
def out(L): return loc(L, 'outgoing')
def listed(o, nd, ed): return z3.And(S(o.dom, nd), S(elems(S(o.val, nd)), ed))
def out_sound(o): return [('outgoing lists edges', FA([x, n], z3.Implies(valid(o, x, n), InE(el(o, x, n))), el(o, x, n))),
                          ('outgoing lengths', FA([x], z3.Implies(S(o.dom, x), LE.n(S(o.val, x)) >= 0), S(o.val, x)))]
def use_done(L, seen, o):
    m = inc(L)
    return FA([h, j, k], z3.Implies(z3.And(S(seen, h), valid(m, h, j), 0 <= k, k < blen(el(m, h, j))), listed(o, body(el(m, h, j), k), el(m, h, j))), body(el(m, h, j), k))
def use_outer(L): return out_sound(out(L)) + [('uses of the keys seen', use_done(L, L.it['seen'], out(L)))]
def use_key(L, key, i, o):
    m = inc(L)
    return FA([j, k], z3.Implies(z3.And(0 <= j, j < i, 0 <= k, k < blen(el(m, key, j))), listed(o, body(el(m, key, j), k), el(m, key, j))), body(el(m, key, j), k))
def use_inner(L):
    o = out(L)
    return out_sound(o) + [('uses of the keys seen', use_done(L, L.st.ghost['loop2']['seen'], o)), ('uses under this key', use_key(L, L.it['src'].key.e, L.it['i'], o))]
def use_body(L):
    o, g3 = out(L), L.st.ghost['loop3']
    ed = S(g3['arr'], g3['i'])
    return out_sound(o) + [('uses of the keys seen', use_done(L, L.st.ghost['loop2']['seen'], o)), ('uses under this key', use_key(L, g3['src'].key.e, g3['i'], o)),
                           ('uses by this edge', FA([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), listed(o, body(ed, k), ed)), body(ed, k)))]

# forward closure
def fwd_common(L):
    Cx, ag, o = loc(L, 'C').arr, loc(L, 'agenda').arr, out(L)
    return [('inputs in', subset(L.obj('inputs').arr, Cx)), ('only derivable nodes', subset(Cx, D)), ('agenda in C', subset(ag, Cx)),
            ('axioms in', FA([e], z3.Implies(z3.And(InE(e), blen(e) == 0), S(Cx, head(e))), InE(e))), *out_sound(o),
            ('every use is listed', FA([e, k], z3.Implies(z3.And(InE(e), 0 <= k, k < blen(e)), listed(o, body(e, k), e)), z3.MultiPattern(InE(e), body(e, k))))]
def allsettled(e, Cx, ag):
    return FA([k], z3.Implies(z3.And(0 <= k, k < blen(e)), z3.And(S(Cx, body(e, k)), z3.Not(S(ag, body(e, k))))), body(e, k))
def fwd(L):
    Cx, ag = loc(L, 'C').arr, loc(L, 'agenda').arr
    return fwd_common(L) + [('edges with settled bodies have fired', FA([e], z3.Implies(z3.And(InE(e), allsettled(e, Cx, ag)), S(Cx, head(e))), InE(e)))]
def fwd_edges(L):
    Cx, ag, xx, i, o = loc(L, 'C').arr, loc(L, 'agenda').arr, loc(L, 'x').e, L.it['i'], out(L)
    return fwd_common(L) + [('popped node in C', S(Cx, xx)),
        ('edges with settled bodies have fired, or use x and come later', FA([e], z3.Implies(z3.And(InE(e), allsettled(e, Cx, ag)),
            z3.Or(S(Cx, head(e)), z3.Exists([n], z3.And(i <= n, n < LE.n(S(o.val, xx)), el(o, xx, n) == e)))), InE(e)))]
def fwd_all(L):
    Cx, ed = loc(L, 'C').arr, loc(L, 'e').e
    return [('bodies so far in C', FA([k], z3.Implies(z3.And(0 <= k, k < L.it['i']), S(Cx, body(ed, k))), body(ed, k)))]

# backward closure
def T_lemma(L):
    "C is closed, so by induction on the rank every derivable node is in it"
    Cx = loc(L, 'C').arr
    z = z3.Const('z_ind', NODE.sort)
    ih = FA([y], z3.Implies(z3.And(S(D, y), rank(y) < rank(z)), S(Cx, y)), S(D, y))
    return [('every derivable node was found (induction on the rank of its derivation)', z3.Implies(z3.And(S(D, z), ih), S(Cx, z)),
             FA([y], z3.Implies(S(D, y), S(Cx, y)), S(D, y)))]
def bwd_common(L):
    T, ag, Cx = loc(L, 'T').arr, loc(L, 'agenda').arr, loc(L, 'C').arr
    return [('outputs in', subset(L.obj('outputs').arr, T)), ('nothing superfluous', subset(T, M)), ('agenda in T', subset(ag, T)),
            ('C is exactly the derivable nodes', Cx == D), ('edges unchanged', same_edges(inc(L, True), inc(L)))]
def drawn(T, ag, L, extra=lambda e, k: z3.BoolVal(False)):
    return FA([e, k], z3.Implies(z3.And(InE(e), S(T, head(e)), z3.Not(S(ag, head(e))), 0 <= k, k < blen(e), S(D, body(e, k))),
                                 z3.Or(S(T, body(e, k)), extra(e, k))), z3.MultiPattern(InE(e), body(e, k)))
def bwd(L):
    T, ag = loc(L, 'T').arr, loc(L, 'agenda').arr
    return bwd_common(L) + [('settled nodes are drawn upon', drawn(T, ag, L))]
def bwd_edges(L):
    T, ag, xx, i = loc(L, 'T').arr, loc(L, 'agenda').arr, loc(L, 'x').e, L.it['i']
    return bwd_common(L) + [('x in T', S(T, xx)), ('settled nodes are drawn upon, or x by a later edge', drawn(T, ag, L, lambda e, k: z3.And(head(e) == xx, i <= idx(e))))]
def bwd_body(L):
    T, ag, xx = loc(L, 'T').arr, loc(L, 'agenda').arr, loc(L, 'x').e
    i, ed, kk = L.st.ghost['loop9']['i'], loc(L, 'e').e, L.it['i']
    return bwd_common(L) + [('x in T', S(T, xx)), ('settled nodes are drawn upon, or x by a later edge', drawn(T, ag, L,
        lambda e, k: z3.And(head(e) == xx, z3.Or(i + 1 <= idx(e), z3.And(e == ed, kk <= k)))))]

def setp(nm): return lambda eng, st, _: st.alloc(SetO(NODE, z3.Const(nm, SN)))
c = Contract(F, 'Hypergraph.reachability', params=[('self', mkself), ('inputs', setp('inputs')), ('outputs', setp('outputs'))],
             pre=reach_pre, post=reach_post, modifies=lambda c: [c.field('self', 'incoming')],
             loops=[LoopSpec(ax_outer), LoopSpec(ax_inner), LoopSpec(use_outer), LoopSpec(use_inner), LoopSpec(use_body),
                    LoopSpec(fwd), LoopSpec(fwd_edges), LoopSpec(fwd_all), LoopSpec(bwd, lemmas=T_lemma), LoopSpec(bwd_edges), LoopSpec(bwd_body)])
c.field_types = {'outgoing': empty_edge_map}
c.set_elem = NODE
C[(F, 'Hypergraph.reachability')] = c
