"""Contracts for agenda-driven forward chaining (properties C17, C18; dyna/execute/solver.py, solver2.py).

Ghost specification: T(c, i, x) = what the first i rules contribute to item x given chart c (plus the data pushed beforehand);
pend(x) = the pending update of x.  Invariant of the main loop, for EVERY item x and every order in which the agenda pops:

    c(x) + pend(x) = T(c, n, x)

so on termination the chart satisfies every equation of the program exactly: c(x) = T(c, n, x).
The value propagated for one match of the popped item a at position k of a rule instance is specified as
  tv = prod_{j}  ( old  if j < k and body_j = a;  delta  if j = k;  new chart value otherwise )
and LEMMAS proves that these sum up, over the positions of one instance, to  prod(new) - prod(old)  (no double counting).
"""
import z3
from pydv import algebra
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F1, F2 = 'dyna/execute/solver.py', 'dyna/execute/solver2.py'
BASE = 'dyna/execute/base.py'
IT, W, RULE, MATCH, PRODV = (OBJ(x) for x in ('Item', 'Weight', 'SRule', 'Match', 'FactorVec'))
I, B = z3.IntSort(), z3.BoolSort()
WS, IS = W.sort, IT.sort
AD, AV = z3.ArraySort(IS, B), z3.ArraySort(IS, WS)
CD, CV = z3.ArraySort(I, B), z3.ArraySort(I, WS)
MSET = z3.ArraySort(MATCH.sort, B)
add = z3.Function('w_add', WS, WS, WS); mul = z3.Function('w_mul', WS, WS, WS)
zero, one = z3.Const('w_zero', WS), z3.Const('w_one', WS)
idof = z3.Function('id_of', IS, I); term_of = z3.Function('term_of', I, IS)
ground = z3.Function('ground', IS, B)
canon = z3.Function('canon', IS, IS)
prunes = z3.Function('priority_is_None', IS, B)            # the priority function prunes the item
T = z3.Function('T', AD, AV, I, IS, WS)                     # contributions of the first i rules, and of the data
Rc = z3.Function('R', RULE.sort, AD, AV, IS, WS)            # what grounding one rule against the chart contributes
rules = z3.Const('program_rules', z3.ArraySort(I, RULE.sort)); nrules = z3.Int('n_rules')
mhead = z3.Function('m_head', MATCH.sort, IS); mpos = z3.Function('m_pos', MATCH.sort, I); mlen = z3.Function('m_len', MATCH.sort, I)
mbody = z3.Function('m_body', MATCH.sort, z3.ArraySort(I, IS))
mval = z3.Function('m_val', MATCH.sort, PRODV.sort)
pv = z3.Function('factor', PRODV.sort, I, WS)
tv = z3.Function('tv', MATCH.sort, IS, WS, WS, I, WS)       # tv(match, a, old, delta, n): product of the first n factors
mv2 = z3.Function('m_value', MATCH.sort, WS)                # solver2: drive_rules yields the value itself
Dm = z3.Function('matches_of', IS, WS, WS, AD, AV, MSET)
sm = z3.Function('sum_matches', MSET, I, IS, WS, WS, IS, WS) # sum over a set of matches with head x  (second argument: which value)
S = z3.Select
d, d0 = z3.Consts('d_ d0_', AD); v, v0 = z3.Consts('v_ v0_', AV)
x, a = z3.Consts('x_ a_', IS); o, dl, p, q, r = z3.Consts('o_ dl_ p_ q_ r_', WS)
mt = z3.Const('mt_', MATCH.sort); ms = z3.Const('ms_', MSET); n, i, k = z3.Ints('n_ i_ k_')
cd_, cv_ = z3.Const('cd_', CD), z3.Const('cv_', CV)
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
def MP(*z): return z3.MultiPattern(*z)
def chartval(dom, val, x): return z3.If(S(dom, x), S(val, x), zero)
def pend(cdom, cval, x): return z3.If(S(cdom, idof(x)), S(cval, idof(x)), zero)
def fac(mt, a, o, dl, j): return z3.If(z3.And(j < mpos(mt), S(mbody(mt), j) == a), o, z3.If(j == mpos(mt), dl, pv(mval(mt), j)))
def value(kind, mt, a, o, dl): return z3.If(kind == 1, tv(mt, a, o, dl, mlen(mt)), mv2(mt))
ADD = [FA([p], z3.And(add(p, zero) == p, add(zero, p) == p), add(p, zero)), FA([p], add(zero, p) == p, add(zero, p)),
       FA([p, q, r], add(add(p, q), r) == add(p, add(q, r)), add(add(p, q), r), add(p, add(q, r)))]
DEFS = [FA([mt, a, o, dl], tv(mt, a, o, dl, 0) == one, tv(mt, a, o, dl, 0)),
        FA([mt, a, o, dl, n], z3.Implies(n >= 0, tv(mt, a, o, dl, n + 1) == mul(tv(mt, a, o, dl, n), fac(mt, a, o, dl, n))), tv(mt, a, o, dl, n + 1)),
        FA([mt], mlen(mt) >= 0, mlen(mt)),
        FA([k, a, o, dl, x], sm(z3.EmptySet(MATCH.sort), k, a, o, dl, x) == zero, sm(z3.EmptySet(MATCH.sort), k, a, o, dl, x)),
        FA([ms, mt, k, a, o, dl, x], z3.Implies(z3.Not(S(ms, mt)), sm(z3.Store(ms, mt, True), k, a, o, dl, x) == add(sm(ms, k, a, o, dl, x), z3.If(x == z3.If(k == 1, mhead(mt), canon(mhead(mt))), value(k, mt, a, o, dl), zero))),
           sm(z3.Store(ms, mt, True), k, a, o, dl, x)),
        FA([d, v, i, x], z3.Implies(i >= 0, T(d, v, i + 1, x) == add(T(d, v, i, x), Rc(S(rules, i), d, v, x))), T(d, v, i + 1, x)),
        FA([x], z3.And(term_of(idof(x)) == x), idof(x)), FA([x], z3.Implies(ground(x), canon(x) == x), canon(x)), FA([x], canon(canon(x)) == canon(x), canon(x))]

def LEMMAS():
    "one rule instance: prod new = prod old + sum over the positions holding a of tv   (induction over the body)"
    out = []
    nw, ol = z3.Function('prod_new', I, WS), z3.Function('prod_old', I, WS)        # prefix products of the instance
    su = z3.Function('sum_tv', I, I, WS)                                           # su(m, n) = sum_{k < m, body_k = a} (product of the first n factors of match k)
    tk = z3.Function('tv_k', I, I, WS)                                             # tk(k, n)
    f = z3.Function('factor_n', I, WS); isa = z3.Function('is_a', I, B)
    j, kk, m = z3.Ints('j k m')
    new = add(o, dl)
    of = lambda j: z3.If(isa(j), o, f(j))
    dnw = lambda n: nw(n + 1) == mul(nw(n), f(n)); dol = lambda n: ol(n + 1) == mul(ol(n), of(n))
    dtk = lambda kk, n: tk(kk, n + 1) == mul(tk(kk, n), z3.If(z3.And(n < kk, isa(n)), o, z3.If(n == kk, dl, f(n))))
    dsu = lambda m, n: su(m + 1, n) == add(su(m, n), z3.If(isa(m), tk(m, n), zero))
    ALG = lambda *t: algebra.instances(add, mul, zero, one, *t)
    # (1) before its own position the product of match k is the old prefix product
    out.append(('prefix of a match is the old product: base', [tk(kk, 0) == one, ol(0) == one], tk(kk, 0) == ol(0), []))
    out.append(('prefix of a match is the old product: step', [n >= 0, n < kk, tk(kk, n) == ol(n), dtk(kk, n), dol(n)], tk(kk, n + 1) == ol(n + 1), []))
    # (2) extending every earlier match by factor n multiplies the sum
    out.append(('sum distributes: base', [su(0, n) == zero, su(0, n + 1) == zero] + ALG(mul(zero, f(n))), su(0, n + 1) == mul(su(0, n), f(n)), []))
    out.append(('sum distributes: step', [0 <= m, m < n, su(m, n + 1) == mul(su(m, n), f(n)), dsu(m, n), dsu(m, n + 1), dtk(m, n)] + ALG(mul(add(su(m, n), tk(m, n)), f(n)), add(mul(su(m, n), f(n)), mul(tk(m, n), f(n))), mul(add(su(m, n), zero), f(n)), add(mul(su(m, n), f(n)), zero)),
                su(m + 1, n + 1) == mul(su(m + 1, n), f(n)), []))
    # (3) the instance: new(n) = old(n) + su(n, n)
    out.append(('telescoping: base', [nw(0) == one, ol(0) == one, su(0, 0) == zero] + ALG(add(one, zero)), nw(0) == add(ol(0), su(0, 0)), []))
    hyp = [n >= 0, nw(n) == add(ol(n), su(n, n)), dnw(n), dol(n), dsu(n, n + 1), dtk(n, n), tk(n, n) == ol(n), su(n, n + 1) == mul(su(n, n), f(n)), z3.Implies(isa(n), f(n) == new)]
    out.append(('telescoping: step, another item', hyp + [z3.Not(isa(n))] + ALG(mul(add(ol(n), su(n, n)), f(n)), add(mul(ol(n), f(n)), add(mul(su(n, n), f(n)), zero))), nw(n + 1) == add(ol(n + 1), su(n + 1, n + 1)), []))
    out.append(('telescoping: step, the popped item', hyp + [isa(n)] + ALG(mul(add(ol(n), su(n, n)), add(o, dl)), add(mul(ol(n), o), add(mul(su(n, n), add(o, dl)), mul(ol(n), dl)))), nw(n + 1) == add(ol(n + 1), su(n + 1, n + 1)), []))
    return out

class Inherited(Bound): pass

class Agenda(Theory):
    def axioms(self, eng): return ADD + DEFS
    def global_name(self, eng, name, module):
        if name in ('is_ground', 'fresh', 'canonicalize', 'BuiltinConstraint'): return Builtin(name)
        if name in ('colors', 'SolverLimitation'): return Opaque(name) if name == 'colors' else None
        return None
    def is_(self, eng, st, a_, b_):
        for u, w in ((a_, b_), (b_, a_)):
            if isinstance(u, Opaque) and isinstance(w, Py) and w.v is None: return False
        return None
    def getattr(self, eng, st, v, name, line):
        if isinstance(v, Ref) and name in ('approx_equal', 'init_rule') and isinstance(st.store[v.loc], Rec) and name not in eng.class_methods(st.store[v.loc].cls):
            return [(st, Inherited(v, name))]
        if isinstance(v, Z) and v.ty == MATCH:
            if name == 'head': return [(st, Z(mhead(v.e), IT))]
            if name == 'body': return [(st, st.alloc(ListO(IT, mlen(v.e), mbody(v.e))))]
        if isinstance(v, Opaque): return [(st, Bound(v, name) if name != 'yellow' else Opaque(name))]
        if isinstance(v, Ref) and isinstance(st.store[v.loc], MapO) and name == 'popitem': return [(st, Bound(v, name))]
        return None
    def getitem(self, eng, st, ob, k, line):
        if isinstance(ob, Opaque) and ob.why == 'intern': return [(st, Z(term_of(eng.lift(k, INT).e), IT))]
        if isinstance(ob, Z) and ob.ty == PRODV: return [(st, Z(pv(ob.e, eng.lift(k, INT).e), W))]
        return None
    def destructure(self, eng, st, t, v, star):
        if isinstance(v, Z) and v.ty == MATCH:
            parts = [Z(mpos(v.e), INT), v, Z(mval(v.e), PRODV)] if len(t.elts) == 3 else [v, Z(mv2(v.e), W)] if len(t.elts) == 2 else None
            if parts is None: return None
            outs = [('normal', st, None)]
            for tt, pp in zip(t.elts, parts): outs = [z for _, s, _ in outs for z in eng.assign(tt, pp, s)]
            return outs
        return None
    def binop(self, eng, st, op, a_, b_, line):
        import ast
        if isinstance(a_, Z) and isinstance(b_, Z) and a_.ty == W and b_.ty == W:
            f = {ast.Add: add, ast.Mult: mul}.get(type(op))
            if f is None: raise Unsupported('operation on weights')
            return [(st, Z(f(a_.e, b_.e), W))]
        if isinstance(a_, (Opaque, Bound)): return [(st, Opaque('text'))]
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Inherited):        # defined in BaseSolver (dyna/execute/base.py); its contract is registered under the subclass
            return eng.use_contract(st, C[(st.store[f.obj.loc].cls[0], 'Solver.' + f.name)], [f.obj, *args], kwargs, line)
        if isinstance(f, Builtin) and len(args) == 1 and isinstance(args[0], Z):
            if f.name == 'is_ground': return [(st, Z(ground(args[0].e), BOOL))]
            if f.name == 'fresh' and args[0].ty in (INT, IT): return [(st, args[0])]
            if f.name == 'canonicalize' and args[0].ty == IT: return [(st, Z(canon(args[0].e), IT))]
        if isinstance(f, Opaque) and f.why == 'intern': return [(st, Z(idof(args[0].e), INT))]
        if isinstance(f, Opaque) and f.why == 'priority':
            s2 = st.copy()
            c = prunes(eng.lift(args[0], IT).e)
            st.assume(c); s2.assume(z3.Not(c))
            return [(st, NONE), (s2, Z(fresh(REAL, 'prio'), REAL))]
        if isinstance(f, Bound) and isinstance(f.obj, Ref) and f.name == 'popitem' and isinstance(st.store[f.obj.loc], MapO):
            m = st.store[f.obj.loc]
            out = []
            for s, c in eng.fork(st, m.dom != z3.EmptySet(m.kty.sort)):
                if not c: out.append((s, Raised('KeyError', line=line))); continue
                kx = fresh(m.kty, 'popped')
                s.assume(S(m.dom, kx))
                eng.write(s, f.obj, MapO(m.kty, m.vty, z3.SetDel(m.dom, kx), m.val))
                out.append((s, Tup([Z(kx, m.kty), Z(S(m.val, kx), m.vty)])))
            return out
        return None

THEORY = Agenda()
C = {}
PD, PV = z3.Const('agenda_dom', CD), z3.Const('agenda_val', z3.ArraySort(I, z3.RealSort()))
chd, chv = z3.Const('change_dom', CD), z3.Const('change_val', CV)
cid, civ = z3.Const('chart_dom', AD), z3.Const('chart_val', AV)
def SELF(F, cls, prio):
    def mk(eng, st, nm):
        ch = st.alloc(MapO(IT, W, cid, civ))
        f = {'chart': st.alloc(Rec((F1, 'Chart'), {'chart': ch})) if F == F1 else ch, 'change': st.alloc(MapO(INT, W, chd, chv)), 'agenda': st.alloc(MapO(INT, REAL, PD, PV)),
             'debug': Py(False), 'priority': Opaque('priority') if prio else NONE, 'intern': Opaque('intern'), 'zero': Z(zero, W), 'one': Z(one, W),
             'program': st.alloc(ListO(RULE, nrules, rules))}
        for c in ('pops', 'pops1', 'pushes'): f[c] = Z(z3.Int(c + '_0'), INT)
        return st.alloc(Rec((F, cls), f))
    return mk
def fld(cx, name, old=False):
    st = cx.st0 if old else cx.st
    return st.store[st.store[cx['self'].loc].fields[name].loc]
def chart(cx, old=False):
    c = fld(cx, 'chart', old)
    if isinstance(c, Rec): c = (cx.st0 if old else cx.st).store[c.fields['chart'].loc]
    return c.dom, c.val
def refs(cx, *names):
    f = cx.st0.store[cx['self'].loc].fields
    out = []
    for nme in names:
        if nme == 'chart':
            c = cx.st0.store[f['chart'].loc]
            out.append(c.fields['chart'] if isinstance(c, Rec) else f['chart'])
        elif nme in ('pops', 'pops1', 'pushes'): out.append((cx['self'], nme))
        else: out.append(f[nme])
    return out
def wf(cx, old=False):
    ch, ag = fld(cx, 'change', old), fld(cx, 'agenda', old)
    return [('agenda and pending updates have the same items', FA([k], S(ch.dom, k) == S(ag.dom, k), S(ch.dom, k), S(ag.dom, k))),
            ('keys are interned items', FA([k], z3.Implies(S(ch.dom, k), z3.And(idof(term_of(k)) == k, *([canon(term_of(k)) == term_of(k)] if cx.st0.store[cx['self'].loc].cls[0] == F2 else []))), S(ch.dom, k)))]
def upd_post(key):
    def post(cx):
        c0, c1, ag0, ag = fld(cx, 'change', True), fld(cx, 'change'), fld(cx, 'agenda', True), fld(cx, 'agenda')
        it, D = key(cx), cx.e('Δ')
        hit = z3.And(S(c1.dom, idof(it)), FA([x], pend(c1.dom, c1.val, x) == z3.If(x == it, add(pend(c0.dom, c0.val, x), D), pend(c0.dom, c0.val, x)), idof(x)))
        pr = isinstance(cx.st0.store[cx['self'].loc].fields['priority'], Opaque)
        same = z3.And(c1.dom == c0.dom, c1.val == c0.val, ag.dom == ag0.dom)
        return [*wf(cx), ('exactly the update is added to the item' + (', or nothing at all if pruned' if pr else ''), z3.If(prunes(it), same, hit) if pr else hit)]
    return post
def up(F, cls, key, exc):
    for prio in (False, True):
        c = Contract(F, cls + '.update', params=[('self', SELF(F, cls, prio)), ('item', IT), ('Δ', W)], pre=wf, post=upd_post(key), exc=exc,
                     modifies=lambda cx: refs(cx, 'change', 'agenda', 'pushes'))
        yield c
for F, key, exc in ((F1, lambda cx: cx.e('item'), {'SolverLimitation': lambda cx: [('nothing changed', z3.And(fld(cx, 'change').dom == fld(cx, 'change', True).dom, fld(cx, 'change').val == fld(cx, 'change', True).val))]}), (F2, lambda cx: canon(cx.e('item')), None)):
    plain, pruned = up(F, 'Solver', key, exc)
    plain.cases = [('no priority', lambda eng, st, args: None), ('priority', lambda eng, st, args: st.store[args['self'].loc].fields.__setitem__('priority', Opaque('priority')))]
    C[(F, 'Solver.update')] = plain

# ---------------------------------------------------------------- trusted: what the rest of the solver provides
C[(F1, 'Chart.__setitem__')] = Contract(F1, 'Chart.__setitem__', params=[('self', None), ('item', IT), ('v', W)], trusted='proved in contracts.chart (this abstraction forgets the indexes)',
    post=lambda cx: [('updated at the item', z3.And(cx.st.store[cx.st.store[cx['self'].loc].fields['chart'].loc].dom == z3.Store(cx.st0.store[cx.st0.store[cx['self'].loc].fields['chart'].loc].dom, cx.e('item'), True),
                                                    cx.st.store[cx.st.store[cx['self'].loc].fields['chart'].loc].val == z3.Store(cx.st0.store[cx.st0.store[cx['self'].loc].fields['chart'].loc].val, cx.e('item'), cx.e('v'))))],
    modifies=lambda cx: [cx.st0.store[cx['self'].loc].fields['chart']])
def acc(cx):
    "c(x) + pend(x) for all x"
    (dm, vl), ch = chart(cx), fld(cx, 'change')
    return lambda x: add(chartval(dm, vl, x), pend(ch.dom, ch.val, x))
def drive_post(kind):
    def post(cx):
        dm, vl = chart(cx)
        ms_, a_, old, D = cx.result.e, cx.e('a'), cx.e('old'), cx.e('Δ')
        return [('the matches are what the new value of the item adds', FA([d0, v0, x], z3.Implies(z3.And(dm == z3.Store(d0, a_, True), vl == z3.Store(v0, a_, add(old, D)), chartval(d0, v0, a_) == old),
                    T(dm, vl, nrules, x) == add(T(d0, v0, nrules, x), sm(ms_, z3.IntVal(kind), a_, old, D, x))), T(d0, v0, nrules, x)))]
    return post
for F, kind in ((F1, 1), (F2, 2)):
    C[(F, 'Solver.drive_rules')] = Contract(F, 'Solver.drive_rules', params=[('self', None), ('a', IT), ('old', W), ('Δ', W)],
        trusted='enumerates every (rule instance, position) that uses the item, with the current factors; their contributions are the change of the immediate consequences (per instance: the telescoping lemma; the enumeration: C01, C20; bounded check b18)',
        post=drive_post(kind), results=lambda cx: [SetT(MATCH)])
    C[(F, 'Solver.approx_equal')] = Contract(F, 'Solver.approx_equal', params=[('self', None), ('x', W), ('y', W)], trusted='idealised: values the semiring metric does not distinguish within tol are equal',
        post=lambda cx: [('equal', z3.Implies(cx.result.e, cx.e('x') == cx.e('y')))], results=lambda cx: [BOOL])
    C[(F, 'Solver.init_rule')] = Contract(F, 'Solver.init_rule', params=[('self', None), ('r', RULE)], trusted='grounds the rule against the chart and pushes each contribution once (bounded check b18)',
        pre=wf, modifies=lambda cx: refs(cx, 'change', 'agenda', 'pushes'),
        post=lambda cx: [*wf(cx), ('contributions pushed', FA([x], pend(fld(cx, 'change').dom, fld(cx, 'change').val, x) == add(pend(fld(cx, 'change', True).dom, fld(cx, 'change', True).val, x), Rc(cx.e('r'), *chart(cx, True), x)), idof(x), Rc(cx.e('r'), *chart(cx, True), x)))])
if True:
    # ---------------------------------------------------------------- forward chaining
    def fc_pre(cx):
        (dm, vl), ch = chart(cx), fld(cx, 'change')
        return [('rules', nrules >= 0), *wf(cx), ('nothing derived yet', FA([x], z3.Not(S(dm, x)), S(dm, x))), ('the data', FA([x], T(dm, vl, 0, x) == pend(ch.dom, ch.val, x), T(dm, vl, 0, x)))]
    def eqn(cx, i):
        dm, vl = chart(cx)
        ac = acc(cx)
        return FA([x], ac(x) == T(dm, vl, i, x), idof(x), T(dm, vl, i, x))
    def fc_init(L):
        return [*wf(L), ('chart still empty', z3.And(chart(L)[0] == chart(L, True)[0], chart(L)[1] == chart(L, True)[1])), ('rules initialised so far', eqn(L, L.it['i']))]
    def fc_main(L): return [*wf(L), ('chart + pending = consequences of the chart', eqn(L, nrules)), ('the result is the solver', z3.BoolVal(True))]
    def lv(L, name):
        vv = L.st.frames[L.eng.top_frame].get(name)
        if not isinstance(vv, Z): raise Unsupported(f'local {name} not found')
        return vv.e
    def fc_drive(kind):
        def inv(L):
            (dm, vl) = chart(L)
            e0 = LoopEntry(L)
            ac = acc(L)
            a_, old, D = lv(L, 'a'), lv(L, 'old'), lv(L, 'Δ')
            return [*wf(L), ('chart unchanged', z3.And(dm == e0[0], vl == e0[1])),
                    ('chart + pending = before + matches propagated so far', FA([x], ac(x) == add(e0[2](x), sm(L.it['seen'], z3.IntVal(kind), a_, old, D, x)), idof(x), sm(L.it['seen'], z3.IntVal(kind), a_, old, D, x)))]
        return inv
    def LoopEntry(L):
        class E: pass
        cx = E(); cx.st = cx.st0 = L.entry; cx.args = L.args
        cx.__class__.__getitem__ = lambda s, n: s.args[n]
        (dm, vl), ch = chart(cx), fld(cx, 'change')
        return dm, vl, (lambda x: add(chartval(dm, vl, x), pend(ch.dom, ch.val, x)))
    def fc_prod(L):
        j = L.it['i']
        mt_ = L.st.frames[L.eng.top_frame].get('s')
        if not (isinstance(mt_, Z) and mt_.ty == MATCH): raise Unsupported('match')
        return [('product of the factors so far', lv(L, 'c') == tv(mt_.e, lv(L, 'a'), lv(L, 'old'), lv(L, 'Δ'), j))]
    def fc_post(cx):
        dm, vl = chart(cx)
        return [('nothing is pending', FA([k], z3.Not(S(fld(cx, 'change').dom, k)), S(fld(cx, 'change').dom, k))),
                ('the chart satisfies every equation', FA([x], chartval(dm, vl, x) == T(dm, vl, nrules, x), T(dm, vl, nrules, x)))]
    for F, kind in ((F1, 1), (F2, 2)):
        loops = [LoopSpec(fc_init), LoopSpec(fc_main), LoopSpec(fc_drive(kind))] + ([LoopSpec(fc_prod)] if kind == 1 else [])
        c = Contract(F, 'Solver._forward_chaining', params=[('self', SELF(F, 'Solver', False))], pre=fc_pre, post=fc_post, loops=loops,
                     exc={'SolverLimitation': lambda cx: []}, modifies=lambda cx: refs(cx, 'change', 'agenda', 'pushes', 'pops', 'pops1', 'chart'),
                     results=lambda cx: [lambda eng, s, v: isinstance(v, Ref) and v.loc == cx['self'].loc])
        C[(F, 'Solver._forward_chaining')] = c
    C[(F2, 'Solver.__setitem__')] = Contract(F2, 'Solver.__setitem__', params=[('self', SELF(F2, 'Solver', False)), ('item', IT), ('v', W)],
        post=lambda cx: [('updated at the item', z3.And(chart(cx)[0] == z3.Store(chart(cx, True)[0], canon(cx.e('item')), True), chart(cx)[1] == z3.Store(chart(cx, True)[1], canon(cx.e('item')), cx.e('v'))))],
        modifies=lambda cx: refs(cx, 'chart'))
