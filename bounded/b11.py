"""C11: tarjan / Graph.condensation / Graph.transitive_closure / Hypergraph.reachability against path enumeration."""
import itertools
RULE = 'all directed graphs on <=3 nodes and random ones on <=9 nodes (self loops, several roots, subset roots, shuffled insertion); random hypergraphs on <=7 nodes with axioms, multi-body and repeated-body edges; non-trivial: at least one edge'

def cases(rng, tier):
    for n in (1, 2, 3):
        E = list(itertools.product(range(n), repeat=2))
        for m in range(0, 2 ** len(E), 1 if n < 3 or tier != 'quick' else 1):
            yield ('graph', n, [e for i, e in enumerate(E) if m >> i & 1], list(range(n)))
    for _ in range(6000 if tier == 'quick' else 100000):
        if rng.random() < .5:
            n = rng.randint(3, 9)
            d = rng.choice([.5, 1, 1.5, 2.5])
            E = [(rng.randrange(n), rng.randrange(n)) for _ in range(int(n * d))]
            roots = rng.sample(range(n), rng.randint(1, n))
            yield ('graph', n, E, roots)
        else:
            n = rng.randint(2, 7)
            E = [(rng.randrange(n), tuple(rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))) for _ in range(rng.randint(1, 10))]
            yield ('hyper', n, E, rng.sample(range(n), rng.randint(0, 2)), rng.sample(range(n), rng.randint(1, 2)))

def nontrivial(case): return bool(case[2])

def closure(n, E):
    R = {i: set() for i in range(n)}
    for a, b in E: R[a].add(b)
    for k in range(n):
        for i in range(n):
            if k in R[i]: R[i] |= R[k]
    return R

def check(case):
    import random
    from dyna.util.graphs import Graph, Hypergraph, tarjan
    if case[0] == 'graph':
        _, n, E, roots = case
        R = closure(n, E)
        nm = lambda i: f'n{i}'
        rng = random.Random(repr(case))
        for rep in range(3):
            E2 = list(E); rng.shuffle(E2)
            G = Graph((nm(a), nm(b)) for a, b in E2)
            for i in range(n): G.add(nm(i))
            rs = list(roots); rng.shuffle(rs)
            # components from the given roots
            got = list(tarjan(lambda x: list(G[x]), [nm(r) for r in rs]))
            live = {r for r in rs} | {j for r in rs for j in R[r]}
            want = {frozenset(nm(j) for j in live if j == i or (j in R[i] and i in R[j])) for i in live}
            if set(got) != want or len(got) != len(want): return f'components {got}, expected {want}'
            pos = {x: k for k, c in enumerate(got) for x in c}
            for a, b in E:
                if a in live and pos[nm(b)] > pos[nm(a)]: return f'component of {nm(a)} is listed before the component of {nm(b)} it depends on: {got}'
            C = G.condensation(roots=[nm(r) for r in rs])
            if set(C.topo) != want or set(C.nodes) != want: return f'condensation components {C.topo}'
            cpos = {x: k for k, c in enumerate(C.topo) for x in c}
            if len(C.topo) != len(want): return 'component listed twice'
            comp = {x: c for c in want for x in c}
            wantE = {(comp[nm(a)], comp[nm(b)]) for a, b in E if a in live and comp[nm(a)] != comp[nm(b)]}
            gotE = set(C.edges)
            if gotE != wantE: return f'condensation edges {gotE} expected {wantE}'
            for x, y in wantE:
                if C.topo.index(y) > C.topo.index(x): return 'condensation not listed dependencies-first'
            if any(C.s[x] != k for x, k in cpos.items()): return 'condensation index map'
            for refl in (False, True):
                T = G.transitive_closure(reflexive=refl)
                gotT = set(T.edges)
                wantT = {(nm(i), nm(j)) for i in range(n) for j in range(n) if j in R[i] or refl and i == j}
                if gotT != wantT: return f'transitive closure (reflexive={refl}): wrong pairs {sorted(gotT ^ wantT)[:3]}'
                if set(T.nodes) != {nm(i) for i in range(n)}: return 'closure lost nodes'
            if set(G.edges) != {(nm(a), nm(b)) for a, b in E}: return 'the graph itself was changed'
        return None
    _, n, E, ins, outs = case
    rng = random.Random(repr(case))
    C = set(ins)
    while True:
        new = {h for h, b in E if set(b) <= C} - C
        if not new: break
        C |= new
    exact, loose = set(outs), set(outs)
    def back(T, ok):
        while True:
            new = {y for h, b in E if h in T and ok(b) for y in b if y in C} - T
            if not new: return T
            T |= new
    back(exact, lambda b: set(b) <= C); back(loose, lambda b: True)
    res = []
    for rep in range(3):
        E2 = list(E); rng.shuffle(E2)
        H = Hypergraph()
        for k, (h, b) in enumerate(E2): H.add_edge(h, k, *b)
        for refl in range(1):
            T = H.reachability(set(ins), set(outs))
        res.append(frozenset(T))
        full = set(H.reachability(set(ins), set(H.nodes)))      # every node is wanted: returns them all
        if not exact <= set(T): return f'reachability misses {sorted(exact - set(T))}'
        if not set(T) <= loose: return f'reachability returns underivable or unneeded {sorted(set(T) - loose)}'
    if len(set(res)) > 1: return f'reachability depends on insertion order: {res}'
