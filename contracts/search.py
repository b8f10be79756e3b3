"""Contracts for program search (property C35; dyna/search/search.py, dyna/search/old.py).

Agenda-based search: the programs accepted (the chart) have all passed check_measure, and the best is a program of least cost among
the start program and all accepted ones.  Beam search: every evaluated program is the program of a state reached from the initial
state by transitions for actions of the graph, the log records its cost, at most `reps` are evaluated, and the best has least cost.
"""
import ast
import z3
from pydv.engine import Contract, LoopSpec
from pydv.base import Theory
from pydv.values import *

F, F2 = 'dyna/search/search.py', 'dyna/search/old.py'
ST, PR, LG, AC, BE = (OBJ(q) for q in ('SearchState', 'SearchProgram', 'LogEntry', 'GraphAction', 'BeamEntry'))
I, B, Rl, S = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.Select
num = z3.Function('s_num', ST.sort, I); at = z3.Function('s_at', I, ST.sort); prog = z3.Function('s_prog', ST.sort, PR.sort)
dcost = z3.Function('s_degrees_pruned', PR.sort, Rl); isfold = z3.Function('s_isfold', PR.sort, B); isunfold = z3.Function('s_isunfold', PR.sort, B); ucost = z3.Function('s_degrees', PR.sort, Rl); safe = z3.Function('s_measure_safe', PR.sort, B)
gcost = z3.Function('s_cost', PR.sort, Rl); lgi = z3.Function('s_log_i', LG.sort, I); lgc = z3.Function('s_log_cost', LG.sort, Rl); mklog = z3.Function('s_mklog', I, Rl, LG.sort)
acts = z3.Function('s_actions', ST.sort, z3.ArraySort(AC.sort, B)); trans = z3.Function('s_transition', ST.sort, AC.sort, ST.sort)
reach = z3.Function('s_reach', ST.sort, B); prreach = z3.Function('s_reached_program', PR.sort, B)
mkbe = z3.Function('s_mkbe', Rl, ST.sort, BE.sort); bec = z3.Function('s_bec', BE.sort, Rl); bes = z3.Function('s_bes', BE.sort, ST.sort)
init, start = z3.Const('s_init', ST.sort), z3.Const('s_start', PR.sort)
x, y = z3.Consts('s_x s_y', ST.sort); p, q = z3.Consts('s_p s_q', PR.sort); a = z3.Const('s_a', AC.sort); c = z3.Real('s_c'); i, j, k = z3.Ints('s_i s_j s_k')
def FA(vs, b, *pats): return z3.ForAll(vs, b, patterns=list(pats)) if pats else z3.ForAll(vs, b)
AX = [FA([x], at(num(x)) == x, num(x)), FA([i, c], z3.And(lgi(mklog(i, c)) == i, lgc(mklog(i, c)) == c), mklog(i, c)), FA([c, x], z3.And(bec(mkbe(c, x)) == c, bes(mkbe(c, x)) == x), mkbe(c, x)),
      reach(init), prog(init) == start, prreach(start), FA([x, a], z3.Implies(z3.And(reach(x), S(acts(x), a)), reach(trans(x, a))), trans(x, a)), FA([x], z3.Implies(reach(x), prreach(prog(x))), prog(x))]
def okm(p): return z3.Or(z3.Not(z3.Or(isfold(p), isunfold(p))), safe(p))

class Search(Theory):
    def axioms(self, eng): return AX
    def havoc_field(self, eng, st, ref, f, old): return {'best': Z(fresh(PR, 'best'), PR), 'best_cost': Z(fresh(REAL, 'bc'), REAL)}.get(f)
    def global_name(self, eng, nme, module):
        if nme in ('np', 'colors', 'print'): return Opaque(nme)
        if nme in ('time', 'sorted', 'take'): return Builtin(nme)
        return None
    def truth(self, eng, st, v):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], Rec) and st.store[v.loc].cls == (F, 'Agenda'): return eng.truth(st, st.store[v.loc].fields['p'])
        return None
    def getattr(self, eng, st, v, nme, line):
        if isinstance(v, Z) and v.ty == ST and nme == 'program': return [(st, Z(prog(v.e), PR))]
        if isinstance(v, Z) and v.ty == PR and nme == 'degree': return [(st, Opaque('degree'))]
        if isinstance(v, Z) and v.ty == PR and nme == 'rules': return [(st, Opaque('rules'))]
        if isinstance(v, Opaque) and v.why == 'G' and nme == 'initial_state': return [(st, Z(init, ST))]
        if isinstance(v, (Opaque, Builtin)): return [(st, Opaque((getattr(v, 'why', None) or v.name, nme)))]
        if isinstance(v, Ref) and isinstance(st.store[v.loc], MapO) and nme == 'pop': return [(st, Bound(v, nme))]
        return None
    def setattr(self, eng, st, o, nme, v, line):
        return isinstance(o, Z) and o.ty == ST and nme == 'pushed'
    def isinst(self, eng, st, v, nme):
        if isinstance(v, Z) and v.ty == PR and nme == 'Program': return True
        if isinstance(v, Z) and v.ty == PR and nme in ('Fold', 'Unfold'): return (isfold if nme == 'Fold' else isunfold)(v.e)
        if isinstance(v, Z) and v.ty == ST and nme == 'State': return True
        return None
    def after_isinstance(self, eng, st, v, ts, cs):
        cs = [z3.BoolVal(q) if isinstance(q, bool) else q for q in cs]
        return [(st, Z(z3.Or(*cs) if len(cs) > 1 else cs[0], BOOL))]
    def is_(self, eng, st, u, w):
        for m, n in ((u, w), (w, u)):
            if isinstance(m, (Opaque, Z)) and isinstance(n, Py) and n.v is None: return False
        return None
    def getitem(self, eng, st, o, k_, line):
        if isinstance(o, Opaque) and o.why == 'Integerizer': return [(st, Z(at(eng.lift(k_, INT).e), ST))]
        if isinstance(o, Opaque): return [(st, Z(fresh(INT, 'stat'), INT))]
        if isinstance(o, Ref) and isinstance(st.store[o.loc], SetO) and isinstance(k_, Py) and k_.v == 0:     # an OrderedSet: one of its elements
            so, out = st.store[o.loc], []
            for s, ne in eng.fork(st, so.arr != z3.EmptySet(so.ety.sort)):
                if not ne: out.append((s, Raised('IndexError', line=line))); continue
                e = fresh(so.ety, 'first'); s.assume(S(so.arr, e)); out.append((s, Z(e, so.ety)))
            return out
        if isinstance(o, Z) and o.ty == BE and isinstance(k_, Py) and k_.v in (0, 1): return [(st, Z(bes(o.e), ST) if k_.v else Z(bec(o.e), REAL))]
        if isinstance(o, Z) and o.ty == LG and isinstance(k_, Py): return [(st, Z(lgi(o.e), INT) if k_.v == 'i' else Z(lgc(o.e), REAL) if k_.v == 'cost' else Opaque('entry'))]
        return None
    def setitem(self, eng, st, o, k_, v, line):
        if isinstance(o, Opaque): return [('normal', st, None)]
        return None
    def destructure(self, eng, st, t, v, star):
        if isinstance(v, Z) and v.ty == BE and len(t.elts) == 2:
            outs = [('normal', st, None)]
            for tt, pp in zip(t.elts, [Z(bec(v.e), REAL), Z(bes(v.e), ST)]): outs = [z for _, s, _ in outs for z in eng.assign(tt, pp, s)]
            return outs
        return None
    def coerce(self, eng, v, ty):
        if ty == BE and isinstance(v, Tup) and len(v.items) == 2: return Z(mkbe(eng.lift(v.items[0], REAL).e, eng.lift(v.items[1], ST).e), BE)
        return None
    def length(self, eng, st, v): return [(st, Z(fresh(INT, 'len'), INT))] if isinstance(v, Opaque) else None
    def binop(self, eng, st, op, u, w, line):
        if isinstance(u, (Opaque, Bound)) or isinstance(w, Opaque): return [(st, Opaque('text'))]
        return None
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Opaque):
            if f.why == 'Integerizer' and len(args) == 1: return [(st, Z(num(eng.lift(args[0], ST).e), INT))]
            if f.why == 'measure': return [(st, Z(args[0].e, PR) if False else Opaque(('measure of', args[0].e)))]
            if f.why == 'priority_fn': return [(st, Z(fresh(REAL, 'prio'), REAL))]
            if isinstance(f.why, tuple) and isinstance(f.why[0], tuple) and f.why[0][0] == 'measure of' and f.why[1] == 'is_safe': return [(st, Z(safe(f.why[0][1]), BOOL))]
            if f.why == (('np', 'random'), 'uniform'): return [(st, Z(fresh(REAL, 'u'), REAL))]
            if f.why == 'print': return [(st, NONE)]
            if f.why == ('G', 'cost') and len(args) == 1: return [(st, Z(gcost(eng.lift(args[0], PR).e), REAL))]
            if f.why == ('G', 'transition') and len(args) == 2: return [(st, Z(trans(eng.lift(args[0], ST).e, eng.lift(args[1], AC).e), ST))]
            if f.why == ('G', 'actions') and len(args) == 1: return [(st, st.alloc(SetO(AC, acts(eng.lift(args[0], ST).e))))]
            if f.why == ('benchmark', 'is_optimal'): return [(st, Z(fresh(BOOL, 'opt'), BOOL))]
            if f.why == 'checkpoint': return [(st, NONE)]
            return None
        if isinstance(f, Builtin) and f.name == 'time' and not args: return [(st, Z(fresh(REAL, 'now'), REAL))]
        if isinstance(f, Builtin) and f.name == 'type' and len(args) == 1: return [(st, Opaque('type'))]
        if isinstance(f, Builtin) and f.name == 'dict' and not args and {'i', 'cost'} <= set(kwargs): return [(st, Z(mklog(eng.lift(kwargs['i'], INT).e, eng.lift(kwargs['cost'], REAL).e), LG))]
        if isinstance(f, Bound) and isinstance(f.obj, Z) and f.obj.ty == LG and f.name == 'update' and len(args) == 1 and isinstance(args[0], Opaque) and args[0].why == 'other entries': return [(st, NONE)]
        if isinstance(f, Bound) and isinstance(f.obj, Z) and f.obj.ty == PR:
            if f.name == 'prune_fast' and not args: return [(st, Opaque(('pruned', f.obj.e)))]
            if f.name == 'degrees': return [(st, Z(ucost(f.obj.e), REAL))]
        if isinstance(f, Bound) and isinstance(f.obj, Ref) and isinstance(st.store[f.obj.loc], MapO) and f.name == 'pop' and not args:       # pdict.pop
            m, out = st.store[f.obj.loc], []
            for s, ne in eng.fork(st, m.dom != z3.EmptySet(m.kty.sort)):
                if not ne: out.append((s, Raised('IndexError', line=line))); continue
                e = fresh(m.kty, 'popped'); s.assume(S(m.dom, e))
                eng.write(s, f.obj, MapO(m.kty, m.vty, z3.SetDel(m.dom, e), m.val)); out.append((s, Z(e, m.kty)))
            return out
        if isinstance(f, Builtin) and f.name == 'sorted' and len(args) == 1 and set(kwargs) == {'key'} and isinstance(args[0], Ref) and isinstance(st.store[args[0].loc], ListO) and isinstance(kwargs['key'], Func):
            l, key = st.store[args[0].loc], kwargs['key']
            e0 = fresh(l.ety, 'k')
            r = eng.call_func(st.copy(), key, [Z(e0, l.ety)], {}, line)
            if len(r) != 1 or not isinstance(r[0][1], Z) or r[0][1].ty not in (INT, REAL): return None
            kf = lambda e: z3.substitute(r[0][1].e, (e0, e))
            arr = z3.Const(fresh_name('sorted'), l.arr.sort()); perm, inv_ = z3.Function(fresh_name('perm'), I, I), z3.Function(fresh_name('perm_inv'), I, I)
            st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < l.n), z3.And(0 <= perm(j), perm(j) < l.n, S(arr, j) == S(l.arr, perm(j)), inv_(perm(j)) == j)), S(arr, j)),
                      FA([j], z3.Implies(z3.And(0 <= j, j < l.n), z3.And(0 <= inv_(j), inv_(j) < l.n, perm(inv_(j)) == j, S(arr, inv_(j)) == S(l.arr, j))), S(l.arr, j)),
                      FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < l.n), kf(S(arr, j)) <= kf(S(arr, k))), z3.MultiPattern(S(arr, j), S(arr, k))))
            return [(st, st.alloc(ListO(l.ety, l.n, arr)))]
        return None
    def slice(self, eng, st, v, lo, hi, step, line):
        if isinstance(v, Ref) and isinstance(st.store[v.loc], ListO) and lo is None and step is None and hi is not None:
            l = st.store[v.loc]
            if isinstance(hi, Py) and hi.v is None: return [(st, st.alloc(l.copy()))]
            h = eng.lift(hi, INT).e
            n = z3.If(h < 0, z3.If(l.n + h < 0, 0, l.n + h), z3.If(h < l.n, h, l.n))
            return [(st, st.alloc(ListO(l.ety, n, l.arr)))]
        return None

class Degs(Search):
    def call(self, eng, st, f, args, kwargs, line):
        if isinstance(f, Opaque) and isinstance(f.why, tuple) and isinstance(f.why[0], tuple) and f.why[0][0] == 'pruned' and f.why[1] == 'degrees': return [(st, Z(dcost(f.why[0][1]), REAL))]
        return Search.call(self, eng, st, f, args, kwargs, line)
THEORY = Degs()
C = {}
# ---------------------------------------------------------------- agenda-based search
IS = z3.ArraySort(I, B)
def SELF(eng, st, nme):
    ag = st.alloc(Rec((F, 'Agenda'), {'priority_fn': Opaque('priority_fn'), 'p': st.alloc(MapO(INT, REAL, z3.Const('ag_d', IS), z3.Const('ag_v', z3.ArraySort(I, Rl))))}))
    fs = {'agenda': ag, '_fifo': st.alloc(SetO(INT, z3.Const('fifo', IS))), 'chart': st.alloc(SetO(INT, z3.Const('s_chart', IS))), 'P': Opaque('Integerizer'), 'pops': Z(z3.Int('pops'), INT), 'pushes': Z(z3.Int('pushes'), INT),
          'pop_stats': Opaque('stats'), 'agenda_stats': Opaque('stats'), 'p_greedy': Z(z3.Real('p_greedy'), REAL), 'measure': Opaque('measure'), '_n_check_measure': Z(z3.Int('ncm'), INT), '_n_check_measure_fails': Z(z3.Int('ncf'), INT),
          '_best': Z(z3.Const('best0', PR.sort), PR), '_best_cost': Z(z3.Real('bestc0'), REAL), 'program': Z(start, PR)}
    return st.alloc(Rec((F, 'AgendaBasedSearch'), fs))
def rec(cx, old=False): return (cx.st0 if old else cx.st).store[cx['self'].loc]
def fv(cx, nme, old=False): return rec(cx, old).fields[nme].e
def fo(cx, nme, old=False):
    st = cx.st0 if old else cx.st
    return st.store[rec(cx, old).fields[nme].loc]
def ag(cx, old=False):
    st = cx.st0 if old else cx.st
    return st.store[fo(cx, 'agenda', old).fields['p'].loc]
def queue(cx): return [('the agenda and the queue hold the same states', FA([i], S(ag(cx).dom, i) == S(fo(cx, '_fifo').arr, i), S(ag(cx).dom, i), S(fo(cx, '_fifo').arr, i)))]
def accepted(cx):
    ch, b, bc = fo(cx, 'chart').arr, fv(cx, '_best'), fv(cx, '_best_cost')
    return [('every accepted program passed the measure', FA([i], z3.Implies(S(ch, i), okm(prog(at(i)))), S(ch, i))),
            ('no accepted program is cheaper than the best', FA([i], z3.Implies(S(ch, i), bc <= dcost(prog(at(i)))), S(ch, i))), ('nor is the start program', bc <= dcost(start)),
            ('the best cost is the cost of the best', bc == dcost(b)), ('the best is the start program or accepted', z3.Or(b == start, z3.Exists([i], z3.And(S(ch, i), prog(at(i)) == b))))]
def aref(cx, *ns):
    out = []
    for n in ns: out.append(cx.st0.store[cx.st0.store[rec(cx, True).fields['agenda'].loc].fields['p'].loc] and cx.st0.store[rec(cx, True).fields['agenda'].loc].fields['p'] if n == 'agenda' else (cx['self'], n) if isinstance(rec(cx, True).fields[n], Z) else rec(cx, True).fields[n])
    return out
C[(F, 'AgendaBasedSearch.check_measure')] = Contract(F, 'AgendaBasedSearch.check_measure', params=[('self', SELF), ('p', PR)], results=lambda cx: [BOOL], modifies=lambda cx: aref(cx, '_n_check_measure', '_n_check_measure_fails'),
    post=lambda cx: [('a fold or unfold is accepted exactly when its measure is safe; anything else is', cx.eng.lift(cx.result, BOOL).e == okm(cx.e('p')))])
def upd_post(cx):
    n, d0, d1 = num(cx.e('_x')), ag(cx, True).dom, ag(cx).dom
    return [*queue(cx), ('exactly the state is queued', d1 == z3.Store(d0, n, True))]
C[(F, 'AgendaBasedSearch._update')] = Contract(F, 'AgendaBasedSearch._update', params=[('self', SELF), ('_x', ST)], pre=queue, post=upd_post, modifies=lambda cx: aref(cx, 'agenda', '_fifo', 'pushes'))
C[(F, 'AgendaBasedSearch.drive')] = Contract(F, 'AgendaBasedSearch.drive', params=[('self', None), ('state', ST)], pre=queue, post=queue, modifies=lambda cx: aref(cx, 'agenda', '_fifo', 'pushes'),
    trusted='proposes successor states by _update only (bounded check b35); does not touch the chart or the best')
def ry(cx):
    ch = fo(cx, 'chart').arr
    return [('the reported program passed the measure', okm(cx.result.e)), ('it is accepted', z3.Exists([i], z3.And(S(ch, i), prog(at(i)) == cx.result.e))), *accepted(cx)]
C[(F, 'AgendaBasedSearch._run_agenda')] = Contract(F, 'AgendaBasedSearch._run_agenda', params=[('self', SELF)], gen='stateful', pre=lambda cx: queue(cx) + accepted(cx), ypost=ry, post=lambda cx: accepted(cx),
    loops=[LoopSpec(lambda L: queue(L) + accepted(L))], modifies=lambda cx: aref(cx, 'agenda', '_fifo', 'chart', 'pops', 'pushes', '_best', '_best_cost', '_n_check_measure', '_n_check_measure_fails'))
# ---------------------------------------------------------------- beam search
PG = z3.ArraySort(I, PR.sort)
def SRCH(first):
    def mk(eng, st, nme):
        fs = {'i': Z(z3.Int('s_i0'), INT), 'reps': Z(z3.Int('s_reps'), INT), 'programs': st.alloc(MapO(INT, PR, z3.Const('pgs_d', IS), z3.Const('pgs_v', PG))), 'log': st.alloc(ListO(LG, z3.Int('log_n'), z3.Const('log_a', z3.ArraySort(I, LG.sort)))),
              'G': Opaque('G'), 'start_time': Z(z3.Real('t0'), REAL), 'last_update': Z(z3.Real('t1'), REAL), 'last_checkpoint': Z(z3.Real('t2'), REAL), 'checkpoint': NONE, 'verbosity': Z(z3.Int('verb'), INT), 'name': Opaque('name'),
              'ORACLE_STOP': Z(z3.Bool('oracle'), BOOL), 'benchmark': Opaque('benchmark'), 'kill': Z(z3.Bool('kill'), BOOL), 'program': Z(start, PR), 'depth': Z(z3.Int('s_depth'), INT), 'beam_size': Z(z3.Int('beam_size'), INT),
              'best': NONE if first else Z(z3.Const('b0', PR.sort), PR), 'best_cost': NONE if first else Z(z3.Real('bc0'), REAL)}
        return st.alloc(Rec((F2, 'BeamSearch'), fs))
    return mk
def has_best(cx, old=False): return isinstance(rec(cx, old).fields['best_cost'], Z)
def evald(cx):
    pg, lg, n = fo(cx, 'programs'), fo(cx, 'log'), fv(cx, 'i')
    out = [('evaluations', z3.And(n >= 0, lg.n == n)), ('programs are numbered from 1', FA([i], S(pg.dom, i) == z3.And(1 <= i, i <= n), S(pg.dom, i))),
           ('the log records number and cost', FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(lgi(S(lg.arr, i)) == i + 1, lgc(S(lg.arr, i)) == gcost(S(pg.val, i + 1)))), S(lg.arr, i))),
           ('every evaluated program is reached from the start', FA([i], z3.Implies(S(pg.dom, i), prreach(S(pg.val, i))), S(pg.dom, i)))]
    if has_best(cx):
        b, bc = fv(cx, 'best'), fv(cx, 'best_cost')
        out += [('no evaluated program is cheaper than the best', FA([i], z3.Implies(S(pg.dom, i), bc <= gcost(S(pg.val, i))), S(pg.dom, i))), ('the best cost is the cost of the best', bc == gcost(b)),
                ('the best is among the evaluated', z3.And(n >= 1, z3.Exists([i], z3.And(S(pg.dom, i), S(pg.val, i) == b))))]
    else: out += [('nothing evaluated yet', n == 0)]
    return out
def bref(cx): return [rec(cx, True).fields['programs'], rec(cx, True).fields['log'], *[(cx['self'], n) for n in ('i', 'best', 'best_cost', 'last_update', 'last_checkpoint')]]
FIRST = [('later', None), ('first', lambda eng, st, args: st.store[args['self'].loc].fields.update({'best': NONE, 'best_cost': NONE}))]
def one_more(cx, p):
    g0, g1, n0 = fo(cx, 'programs', True), fo(cx, 'programs'), fv(cx, 'i', True)
    return [('the program is recorded', z3.And(has_best(cx), fv(cx, 'i') == n0 + 1, S(g1.val, n0 + 1) == p, FA([i], z3.Implies(z3.And(1 <= i, i <= n0), S(g1.val, i) == S(g0.val, i)), S(g1.val, i))))]
def budget(cx): return [('within the budget', fv(cx, 'i') < fv(cx, 'reps'))]
def obj_exc(cx): return [*evald(cx), *one_more(cx, cx.e('p')), ('within the budget', fv(cx, 'i') <= fv(cx, 'reps'))]
C[(F2, 'Search.log_entry')] = Contract(F2, 'Search.log_entry', params=[('self', None), ('p', PR)], trusted='adds entries other than i and cost', results=lambda cx: [Opaque('other entries')])
C[(F2, 'BeamSearch.log_entry')] = Contract(F2, 'BeamSearch.log_entry', params=[('self', None), ('p', PR)], trusted='adds entries other than i and cost', results=lambda cx: [Opaque('other entries')])
C[(F2, 'BeamSearch.status')] = Contract(F2, 'BeamSearch.status', params=[('self', None)], trusted='text', results=lambda cx: [Opaque('text')])
OBJP = dict(pre=lambda cx: evald(cx) + budget(cx) + [('reached from the start', prreach(cx.e('p')))], results=lambda cx: [REAL], modifies=bref, exc={'OracleStop': obj_exc, 'NoMoreEvals': obj_exc},
            post=lambda cx: [*evald(cx), *one_more(cx, cx.e('p')), *budget(cx), ('its cost', cx.eng.lift(cx.result, REAL).e == gcost(cx.e('p')))])
C[(F2, 'Search.objective')] = Contract(F2, 'Search.objective', params=[('self', SRCH(False)), ('p', PR)], cases=FIRST, **OBJP)
def beam_of(L):
    v = L.st.frames[L.eng.top_frame].get('beam')
    if not isinstance(v, Ref): raise Unsupported('local beam not found')
    return L.st.store[v.loc]
def beam_ok(l): return [('every entry of the beam is a reached state with the cost of its program', FA([i], z3.Implies(z3.And(0 <= i, i < l.n), z3.And(reach(bes(S(l.arr, i))), bec(S(l.arr, i)) == gcost(prog(bes(S(l.arr, i)))))), S(l.arr, i)))]
def run_inv(L): return evald(L) + budget(L) + [('beam length', beam_of(L).n >= 0)] + beam_ok(beam_of(L))
def b_of(L):
    v = L.st.frames[L.eng.top_frame].get('b')
    if not isinstance(v, Ref): raise Unsupported('local b not found')
    return L.st.store[v.loc]
def xs_inv(L): return evald(L) + budget(L) + [('candidates', b_of(L).n >= 0)] + beam_ok(b_of(L))
rn = Contract(F2, 'BeamSearch.run', params=[('self', SRCH(False))], pre=lambda cx: evald(cx) + budget(cx), post=lambda cx: evald(cx) + budget(cx), exc={q: (lambda cx: evald(cx) + [('within the budget', fv(cx, 'i') <= fv(cx, 'reps'))]) for q in ('OracleStop', 'NoMoreEvals')},
    modifies=lambda cx: bref(cx) + [(cx['self'], 'depth')], loops=[LoopSpec(run_inv), LoopSpec(xs_inv), LoopSpec(xs_inv)])
rn.list_elem = BE
C[(F2, 'BeamSearch.run')] = rn
C[(F2, 'Search.go')] = Contract(F2, 'Search.go', params=[('self', SRCH(True))], pre=lambda cx: evald(cx) + budget(cx), post=lambda cx: evald(cx) + [('the start program is evaluated', fv(cx, 'i') >= 1), ('within the budget', fv(cx, 'i') <= fv(cx, 'reps'))],
    modifies=lambda cx: bref(cx) + [(cx['self'], 'depth')])
ASSUMPTIONS = []
