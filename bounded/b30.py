"""C30: size and running-time bounds against actual item and rule-instance counts."""
import random, itertools
from . import plib as P, tlib as L, tx
from .b26 import pattern
RULE = 'random programs, typed input declarations over 3 sized parameter relations (unary and binary) with optional user constraints (containment, disjointness, membership of a constant) that the generated facts respect; total size, size of random moded queries, running time of every rule (both search modes) evaluated at the actual parameter sizes and compared with exact counts; dense inputs (every permitted fact) and random subsets'
CASE_LIMIT = 60
DOMS = [('k', 1), ('m', 1), ('d', 2)]

def cases(rng, tier):
    for i in range(1200 if tier == 'quick' else 30000):
        fn = i % 5 == 0
        g = P.Gen(random.Random(rng.random()), nconst=rng.choice([2, 3, 4]), functions=fn, builtins=i % 3 == 1, nrules=(1, 4), recursion=rng.choice([0, .4, .7]))
        rules = g.program()
        ins = []
        for f, n in g.edb:
            for _ in range(rng.choice([1, 1, 2])):
                t = pattern(rng, f, n, g.C, fn) if rng.random() < .5 else P.T(f, *[P.V(k) for k in range(n)])
                vs = L.variables(t); ty = []
                if len(vs) == 2 and rng.random() < .3: ty.append(P.T('d', *rng.sample(vs, 2)))
                for v in vs:
                    if not any(v in x[2] for x in ty) or rng.random() < .4: ty += [P.T(x, v) for x in rng.choice([['k'], ['m'], ['k', 'm']])]
                ins.append((t, ty))
        size = {d: rng.randint(1, len(g.C)) for d in 'km'}
        dom = {d: rng.sample([P.Cn(c) for c in g.C], size[d]) for d in 'km'}
        rw = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            r = rng.random()
            if r < .4: rw.append('m(X) :- k(X).')
            elif r < .6: rw.append('$fail :- k(X), m(X).')
            elif r < .8: rw.append(f'k({rng.choice(g.C)!r}).')
            else: rw.append('k(X) :- d(X,Y).')
        rw = list(dict.fromkeys(rw))
        if any(r.startswith('k(') and 'X' not in r for r in rw):
            for r in rw:
                if r.startswith('k(') and 'X' not in r:
                    c = P.Cn(eval(r[2:-2]))
                    if c not in dom['k']: dom['k'].append(c)
        if '$fail :- k(X), m(X).' in rw:
            if 'm(X) :- k(X).' in rw: rw.remove('m(X) :- k(X).')
            dom['m'] = [c for c in dom['m'] if c not in dom['k']]
            if not dom['m']: rw.remove('$fail :- k(X), m(X).'); dom['m'] = list(dom['k'])
        if 'm(X) :- k(X).' in rw: dom['m'] += [c for c in dom['k'] if c not in dom['m']]
        pairs = list(itertools.product([P.Cn(c) for c in g.C], repeat=2))
        if 'k(X) :- d(X,Y).' in rw: pairs = [p for p in pairs if p[0] in dom['k']]
        dom['d'] = rng.sample(pairs, rng.randint(1, len(pairs)))
        facts = []
        allowed = {}
        for t, ty in ins:
            vs = L.variables(t)
            for b in itertools.product([P.Cn(c) for c in g.C], repeat=len(vs)):
                s = dict(zip(vs, b))
                if all((L.subs(s, c)[2] if c[1] == 'd' else L.subs(s, c)[2][0]) in [x if c[1] == 'd' else x for x in dom[c[1]]] for c in ty): allowed[L.subs(s, t)] = 1
        allowed = list(allowed)
        facts.append([(t, [('w', rng.choice([.5, .25]))]) for t in allowed])
        facts.append([(t, [('w', rng.choice([.5, .25]))]) for t in allowed if rng.random() < .6])
        yield ('bounds', rules, facts, ins, {d: len(dom[d]) for d in dom}, rw, rng.choice([None, None, 1, 2]), rng.random())

def nontrivial(case): return True

def check(case):
    from dyna import Program, Rule
    from dyna.analyze.runtime import Runtime, Symbol, type_bound, Param
    import warnings; warnings.simplefilter('ignore')
    kind, rules, edbs, ins, sizes, rw, depth, seed = case
    rng = random.Random(seed)
    bool_rules = [(h, [b for b in body if b[0] != 'w']) for h, body in rules]
    p = Program(P.text(rules))
    it = '\n'.join(P.show(t) + (' += ' + ' * '.join(map(P.show, ty)) if ty else '') + '.' for t, ty in ins) + '\ninputs: ' + '; '.join(f'{d}({",".join("__"[:n])})' for d, n in DOMS) + '.'
    S = p.type_analysis(it, '\n'.join(rw), **({} if depth is None else dict(max_depth=depth)))
    env = {Symbol(d): n for d, n in sizes.items()}
    def val(x):
        x = x.x if isinstance(x, Param) else x
        return float(x.subs(env)) if hasattr(x, 'subs') else float(x)
    what = f'program {P.text(rules)!r}, input types {it!r}, constraints {rw}, sizes {sizes}'
    size = val(S.size())
    times = [(val(S.runtime([r])), val(S.runtime([r], fast_mode=True))) for r in p]
    total = val(S.runtime())
    if total < sum(t for t, _ in times) * (1 - 1e-9): return f'{what}: runtime {total} but its rules take {times}'
    preds = sorted({(f, n) for f, n in tx.heads(rules)} | {(t[1], len(t[2])) for t, _ in ins})
    queries = []
    for _ in range(3):
        f, n = rng.choice(preds)
        q = pattern(rng, f, n, [0, 1], False)
        vs = L.variables(q)
        queries.append((q, rng.sample(vs, rng.randint(0, len(vs)))))
    bounds = []
    for q, V in queries:
        e = {}
        r = Rule(L.build(q, e))
        bounds.append(val(type_bound(S, r, V={e[v[1]] for v in V})))
    for facts in edbs:
        try: chart = P.evaluate([(h, [b for b in body if b[0] != 'w'] + [('w', 1e-3)]) for h, body in rules], facts, iters=60)
        except P.Diverges: continue
        items = {k for k in chart if (k[1], len(k[2])) in preds}
        if len(items) > size: return f'{what}: {len(items)} items exceed the size bound {S.size()} = {size}; input {[P.show(k) for k, _ in facts]}'
        for (q, V), b in zip(queries, bounds):
            c = {}
            for k in items:
                s = L.match(q, k, {})
                if s is not None: m = tuple(s[v] for v in V); c[m] = c.get(m, 0) + 1
            if max(c.values(), default=0) > b: return f'{what}: query {P.show(q)} with {V} bound has {max(c.values())} answers, bound {b}; input {[P.show(k) for k, _ in facts]}'
        n = [set() for _ in rules]
        for i, hd, body, s in P.instances(rules, chart):
            n[i].add(tuple(sorted((str(v), str(L.subs(s, v))) for v in L.variables(P.T('B', *[b for b in rules[i][1] if b[0] == 't'])))))
        for i, (t, f) in enumerate(times):
            if len(n[i]) > t: return f'{what}: rule {i} fires {len(n[i])} times, bound {t}; input {[P.show(k) for k, _ in facts]}'
            if len(n[i]) > f: return f'{what}: rule {i} fires {len(n[i])} times, fast-mode bound {f}; input {[P.show(k) for k, _ in facts]}'
