"""C28: coarse dependency graph, components, cyclicity / expansiveness / input-independence reports against ground instances."""
import random, itertools
from . import plib as P, tlib as L, tx
RULE = 'random programs (functions, constants, builtins, recursion, non-linear), random inputs and outputs incl. predicates that are both; edges, hyperedges and components against every ground rule instance of the reference evaluation; reports checked against the ground dependency graph; components evaluated in the listed order give the original values'
CASE_LIMIT = 60

def cases(rng, tier):
    for i in range(2500 if tier == 'quick' else 60000):
        rules, edbs, idb = tx.random_case(rng, i, builtins=i % 3 == 0, nrules=(1, 4), recursion=rng.choice([0, 0, .4, .8]))
        # a few rules that depend on no input
        for _ in range(rng.randint(0, 3)):
            f, n = rng.choice(idb + [('c0', 1), ('c1', 1)])
            h = P.T(f, *[P.Cn(rng.choice([0, 1])) for _ in range(n)])
            rules = rules + [(h, [P.T('c0', P.Cn(rng.choice([0, 1])))] if rng.random() < .4 and f != 'c0' else [('w', 0.5)])]
        outs = rng.sample(sorted(tx.heads(rules)), rng.randint(1, len(tx.heads(rules))))
        yield ('coarse', rules, edbs, outs, rng.random() < .2, rng.random())

def nontrivial(case): return True

def check(case):
    from dyna import Program
    import warnings; warnings.simplefilter('ignore')
    kind, rules, edbs, outs, both, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    if not refs: return 'skip'
    p = Program(P.text(rules))
    it = tx.inputs_text() + (f'\n{outs[0][0]}({",".join("XYZ"[:outs[0][1]])}).'.replace('()', '') if both else '')
    p.set_input_types(it); p.set_output_types('\n'.join(f'{f}({",".join("XYZ"[:n])}).' if n else f'{f}.' for f, n in outs))
    what = f'program {P.text(rules)!r} inputs {it!r}, outputs {outs}'
    cg = p._coarse_graph()
    nodes = [(x, L.read(x, {})) for x in cg.nodes]
    for (a, A), (b, B) in itertools.combinations(nodes, 2):
        if L.unify(L.subs({v: ('v', ('l', v)) for v in L.variables(A)}, A), B, {}) is not None: return f'{what}: coarse nodes {a} and {b} overlap'
    def node(k):
        for x, X in nodes:
            if L.match(X, k, {}) is not None: return x
    g, h = cg.g, cg.h
    hyper = {(e.head, e.weight, tuple(e.body)) for e in h.edges()}
    cyc, exp = cg.possibly_cyclic(), cg.possibly_expansive()
    I, D = cg.split_input_dependent()
    def key(r):
        h, b = P.rules_of([r])[0]
        w = 1.0
        for x in b: w *= x[1] if x[0] == 'w' else 1.0      # constants are multiplied together on insertion
        return str(L.canon(P.T('rule', h, P.Cn(w), *[x for x in b if x[0] != 'w'])))
    if sorted(map(key, [*I, *D])) != sorted(map(key, p)): return f'{what}: split_input_dependent loses or repeats rules: {I} / {D}'
    iheads = P.rules_of(I)
    comps = list(cg.scc_decomposition())
    where = {}
    for n, (xs, q) in enumerate(comps):
        for x in xs:
            if x in where: return f'{what}: node {x} in two components'
            where[x] = n
    for x, X in nodes:
        if p.is_output(x) and x not in where: return f'{what}: output {x} is in no component'
    # components: rules partitioned, dependencies first
    for n, (xs, q) in enumerate(comps):
        for r in p:
            c = sum(1 for r2 in q if r2 is r or key(r2) == key(r)); mine = sum(1 for r2 in p if key(r2) == key(r))
            hd = node_of_head(r, nodes)
            if r.body and all(p.is_const(y) for y in r.body): continue   # constant rules with the same head are merged when collected
            if (hd in xs) != (c > 0) or (c and c != mine): return f'{what}: component {set(xs)} has rule {r} {c} times'
    for facts, chart in refs:
        ix = set(chart)
        inp = {k for k, _ in facts}
        deps = {}
        inst = list(P.instances(rules, chart))
        for i, hd, body, s in inst:
            x = node(hd)
            if x is None: return f'{what}: no coarse node for derivable {P.show(hd)}'
            ys = []
            for b in body:
                y = node(b)
                if y is None: return f'{what}: no coarse node for {P.show(b)}'
                ys.append(y)
                if y not in g.outgoing[x]: return f'{what}: {P.show(hd)} depends on {P.show(b)} but the coarse graph has no edge {x} -> {y}'
                if x in where and (y not in where or where[y] > where[x]): return f'{what}: component of {x} is listed before that of {y}, on which it depends'
            if (x, i, tuple(ys)) not in hyper: return f'{what}: rule {i} derives {P.show(hd)} from {list(map(P.show, body))}; no such coarse hyperedge'
            deps.setdefault(hd, set()).update(body)
        reach = {}
        def closure(k):
            if k not in reach:
                seen, todo = set(), list(deps.get(k, ()))
                while todo:
                    z = todo.pop()
                    if z not in seen: seen.add(z); todo += deps.get(z, ())
                reach[k] = seen
            return reach[k]
        if not cyc:
            for k in deps:
                if k in closure(k): return f'{what}: reported acyclic, but {P.show(k)} depends on itself'
        for k in deps:
            for z in closure(k):
                if k in closure(z) and node(k) in where and where[node(k)] != where[node(z)]: return f'{what}: {P.show(k)} and {P.show(z)} depend on each other but are in different components'
        if not exp:
            for i, hd, body, s in inst:
                if sum(1 for b in body if b == hd or hd in closure(b)) > 1: return f'{what}: reported non-expansive, but {P.show(hd)} expands into two copies of itself via {list(map(P.show, body))}'
        for i, hd, body, s in inst:
            if any(L.match(q, hd, {}) is not None for q, _ in iheads) and any(key(r) == key(p.rules[i]) for r in I):
                bad = ({hd} | set(body) | set().union(*[closure(b) for b in body], set())) & inp
                if bad and not (both and bad <= {hd}): return f'{what}: {P.show(hd)} is reported independent of the input but depends on {[P.show(b) for b in bad]}'
        # evaluation component by component, in the listed order
        cur = {k: v[0][1] for k, v in facts}
        done = dict(cur)
        for xs, q in comps:
            try: out = P.evaluate(P.rules_of(q), [(k, [('w', v)]) for k, v in done.items() if not any(L.match(L.read(x, {}), k, {}) is not None for x in xs)] + [f for f in facts if any(L.match(L.read(x, {}), f[0], {}) is not None for x in xs)], iters=400, maxitems=8000)
            except P.Diverges: return f'{what}: component {set(xs)} diverges alone'
            done.update({k: v for k, v in out.items()})
        sel = lambda k: any(k[1] == f and len(k[2]) == n for f, n in outs)
        d = P.diff({k: v for k, v in done.items() if sel(k)}, {k: v for k, v in chart.items() if sel(k)}, None, 1e-6)
        if d: return f'{what}: evaluating the components in order: {d}'

def node_of_head(r, nodes):
    from dyna import unifies
    from dyna.term import fresh
    for x, X in nodes:
        if unifies(fresh(x), r.head): return x
