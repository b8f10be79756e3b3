"""C20: chart index, solver queries, pasted rules and projections against plain matching."""
import random
from . import plib as P, tlib as L
from .b17 import recursive
RULE = 'insert/query histories on the solver chart (item terms with functors, queries of every mode incl. repeated variables, queries before and after further insertions); evaluated random programs queried with user_query / lookup_vals / chart-program lookup / pasted rules / projections, data added between queries'
CASE_LIMIT = 25

def item(rng):
    a = lambda: P.Cn(rng.choice([0, 1, 2])) if rng.random() < .7 else P.T('f', P.Cn(rng.choice([0, 1])))
    f, n = rng.choice([('e', 2), ('e', 2), ('n', 1), ('t', 3), ('z', 0), ('e', 1)])
    return P.T(f, *[a() for _ in range(n)])
def query(rng, fs=None):
    def a():
        r = rng.random()
        if r < .55: return P.V(rng.randrange(2))
        if r < .85: return P.Cn(rng.choice([0, 1, 2]))
        return P.T('f', P.V(rng.randrange(2)) if rng.random() < .6 else P.Cn(rng.choice([0, 1])))
    f, n = rng.choice(fs or [('e', 2), ('e', 2), ('n', 1), ('t', 3), ('z', 0), ('e', 1)])
    return P.T(f, *[a() for _ in range(n)])

def cases(rng, tier):
    for i in range(4000 if tier == 'quick' else 60000):
        if i % 3:
            ops = []
            for _ in range(rng.randint(2, 14)):
                ops.append(('set', item(rng), rng.choice([1.0, 2.0, .5])) if rng.random() < .55 else ('ask', query(rng), rng.random() < .3))
            yield ('chart', ops)
        else:
            g = P.Gen(random.Random(rng.random()), nconst=rng.choice([2, 3]), builtins=False, functions=i % 2 == 0, nrules=(0, 3), recursion=rng.choice([0, .4]))
            rules = g.program(); fs = g.facts(rng.randint(2, 8))
            yield ('solved', rules, fs, [query(rng, g.idb + g.edb) for _ in range(4)], rng.choice([1, 1, 2]))

def nontrivial(case): return len(case[1]) > 1

def answers(chart, q):
    return {k: v for k, v in chart.items() if k[1] == q[1] and len(k[2]) == len(q[2]) and L.match(q, k) is not None}

def check(case):
    from dyna.execute.solver import Chart
    from dyna import Program, Rule, Term, unify
    if case[0] == 'chart':
        C, D = Chart(), {}
        for n, op in enumerate(case[1]):
            if op[0] == 'set':
                C[L.build(op[1], {})] = op[2]; D[op[1]] = op[2]
            else:
                env = {}
                if op[2]:      # some variables of the query are already bound
                    X = L.build(('v', 9), env); inner = op[1]
                    q0 = L.subs({('v', 0): ('b', P.Cn(1))}, inner)
                    Q, q = L.build(q0, env), L.strip(q0)
                else: Q, q = L.build(op[1], env), op[1]
                before = L.raw(Q)
                from dyna import snap
                got = {}
                names = None
                for v in C[snap(Q)]:
                    k = L.canon_keep(L.read(Q, {}))
                    if k in got: return f'step {n}: {P.show(k)} answered twice for {P.show(q)}'
                    got[k] = v
                if L.raw(Q) != before: return 'query left bindings'
                w = answers(D, q)
                if got != w: return f'step {n}: query {P.show(q)} answered {[(P.show(k), v) for k, v in got.items()]}, stored {[(P.show(k), v) for k, v in w.items()]}'
        if {L.read(k, {}): v for k, v in C.items()} != D: return 'chart content'
        return None
    _, rules, facts, qs, which = case
    try: want = P.evaluate(rules, facts, iters=150)
    except P.Diverges: return 'skip'
    tol = 2e-3 if recursive(rules) else 1e-6
    p = Program(P.text(rules + facts))
    s = p.solver()('') if which == 1 else p.solver2()('')
    sol = s.sol()
    def cmp(nm, q, got, w, tol=tol):
        d = P.diff(got, w, None, tol)
        if d: return f'{nm} {P.show(q)}: {d}'
        x = P.extra(got, w)
        if x: return f'{nm} {P.show(q)}: spurious {x}'
    for q in qs:
        w = answers(want, q)
        m = cmp('user_query', q, P.chart_of_program(s.user_query(L.build(q, {}))), w)
        if m: return m
        m = cmp('user_query (text)', q, P.chart_of_program(s.user_query(P.show(q))), w)
        if m: return m
        Q = L.build(q, {})
        got = {}
        for v in s.lookup_vals(Q):
            k = L.canon_keep(L.read(Q, {}))
            if k in got and which == 1: return f'lookup_vals answered {P.show(k)} twice'
            got[k] = got.get(k, 0) + P.tofloat(v)
        m = cmp('lookup_vals', q, got, w)
        if m: return m
        m = cmp('chart program user_query', q, P.chart_of_program(sol.user_query(L.build(q, {}))), w)
        if m: return m
        m = cmp('chart program lookup', q, P.chart_of_program([r for r in map(lambda r: Rule(*__import__('dyna').fresh(r)), sol.lookup(L.build(q, {})))]), w)
        if m: return m
        m = cmp('chart program user_lookup', q, P.chart_of_program(sol.user_lookup(L.build(q, {}))), w)
        if m: return m
        m = cmp('program user_query', q, P.chart_of_program(p.user_query(L.build(q, {}))), w)
        if m: return m
        # pasted rule, and projection
        vs = L.variables(q)
        head = P.T('out', *vs)
        pw = {}
        for k, v in w.items():
            h = L.subs(L.match(q, k), head); pw[h] = pw.get(h, 0) + v
        r = P.show(head) + ' += ' + P.show(q) + '.\ntot += ' + P.show(q) + '.'
        pw[P.T('tot')] = sum(w.values())
        if not w: pw = {}
        for nm, base in (('pasted into the chart', sol), ('pasted into the program', p)):
            got = {k: v for k, v in P.chart_of_program((base + r).solve()).items() if k[1] in ('out', 'tot')}
            m = cmp(nm, q, got, pw)
            if m: return m
        # streams
        Q = L.build(q, {})
        tot = 0.0
        for b in sol[Q]:
            v = 1.0
            for c in b: v *= P.tofloat(c)
            tot += v
        if abs(tot - sum(w.values())) > tol * max(1, abs(tot)): return f'stream sum over {P.show(q)}: {tot}, expected {sum(w.values())}'
        ab = P.show(P.T(q[1], *[P.Cn('absent')] * len(q[2])))
        if len(q[2]) and len(s.user_query(ab)): return f'absent item {ab} has a value'
    # more data afterwards
    rng = random.Random(repr(facts))
    extra = [(P.T('e', P.Cn(rng.choice([0, 1, 2])), P.Cn(rng.choice([0, 1, 7]))), [('w', 1.0)])]
    try: want2 = P.evaluate(rules, facts + extra, iters=150)
    except P.Diverges: return None
    s(P.text(extra))
    for q in qs:
        m = cmp('user_query after more data', q, P.chart_of_program(s.user_query(L.build(q, {}))), answers(want2, q))
        if m: return m
