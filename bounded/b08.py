"""C08: MostGeneralSet / NoDupsSet / DisjointEstimate histories."""
from . import tlib as L
from .b03 import inst_of
RULE = 'histories of 1-8 insertions of related terms (instances, variants, generalisations), invariants checked after every insertion, lookups of members and non-members'

def cases(rng, tier):
    import itertools
    S = [('v', 0), ('c', 0), ('t', 'g', (('v', 0),)), ('t', 'g', (('c', 0),)), ('t', 'f', (('v', 0), ('v', 1))), ('t', 'f', (('v', 0), ('v', 0))), ('t', 'f', (('c', 0), ('v', 0))), ('t', 'f', (('c', 0), ('c', 1)))]
    for n in (1, 2, 3):
        for h in itertools.product(S[1:], repeat=n): yield ('hist', list(h), [('t', 'f', (('v', 0), ('c', 1))), ('c', 0)])
    for i in range(2500 if tier == 'quick' else 50000):
        base = [L.gen(rng, 2, 2) for _ in range(2)]
        h = []
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            b = rng.choice(base + h)
            if r < .45: h.append(inst_of(rng, b, 2, 0))
            elif r < .6: h.append(L.subs({('v', 0): ('v', 1), ('v', 1): ('v', 0)}, b))
            elif r < .8: h.append(L.gen(rng, 2, 2))
            else: h.append(b)
        yield ('hist', h, [rng.choice(h), L.gen(rng, 2, 2), inst_of(rng, rng.choice(h), 1, 0)])

def nontrivial(case): return len(case[1]) > 1

def check(case):
    from dyna.term import MostGeneralSet, NoDupsSet, DisjointEstimate, covers, same
    _, hist, probes = case
    M, N, D = MostGeneralSet([], covers), NoDupsSet([], same), DisjointEstimate()
    firsts, seen = [], []
    env = {}
    for t in hist:
        T = L.build(t, env)
        heap = L.raw(T)
        m_ret, n_ret = M.add(T), N.add(T)
        D.add(T)
        if L.raw(T) != heap: return 'inserted term modified'
        had_m = any(L.covers(u, t) for u in seen); had_n = any(L.variant(u, t) for u in firsts)
        if bool(m_ret) != had_m: return f'MostGeneralSet.add returned {m_ret}'
        if bool(n_ret) != had_n: return f'NoDupsSet.add returned {n_ret}'
        if not had_n: firsts.append(t)
        seen.append(t)
        ms, ns, ds = [[L.read(x, {}) for x in S] for S in (M, N, D)]
        if not (len(M), len(N), len(D)) == (len(ms), len(ns), len(ds)): return 'len'
        for i, a in enumerate(ms):
            for j, b in enumerate(ms):
                if i != j and L.covers(a, b): return f'most-general set holds {a} and its instance {b}'
        for u in seen:
            if not any(L.covers(a, u) for a in ms): return f'most-general set does not cover the inserted {u}'
            if not any(L.covers(a, u) for a in ds): return f'disjoint estimate {ds} does not cover the inserted {u}'
        for a in ms:
            if not any(L.variant(a, u) for u in seen): return f'most-general set invented {a}'
        if len(ns) != len(firsts) or not all(map(L.variant, ns, firsts)): return f'duplicate-free set holds {ns}, expected {firsts}'
        for i, a in enumerate(ds):
            for b in ds[i + 1:]:
                if L.unify(L.rename(a, 1), L.rename(b, 2)) is not None: return f'disjoint estimate has overlapping {a} and {b}'
    for p in probes + [('t', 'g', (('v', 0),)), ('c', 2)]:
        P = L.build(p, env)
        for S, xs, rel, nm in ((M, ms, L.covers, 'MostGeneralSet'), (N, ns, L.variant, 'NoDupsSet')):
            want = any(rel(a, p) for a in xs)
            try: r = S.root(P); ok = True
            except KeyError: ok = False
            if ok != want: return f'{nm}.find({p}) {"found" if ok else "did not find"} a member'
            if ok and not rel(L.read(r, {}), p): return f'{nm}.find({p}) returned the unrelated {L.read(r, {})}'
        idx = [i for i, a in enumerate(ds) if L.unify(L.rename(a, 1), L.rename(p, 2)) is not None]
        if list(D.find_all(P)) != idx: return f'DisjointEstimate.find_all({p}) = {D.find_all(P)}, expected {idx}'
        if [L.canon(L.read(x, {})) for x in D.roots(P)] != [L.canon(ds[i]) for i in idx]: return 'DisjointEstimate.roots'
        try: r = D.find(P); ok = True
        except KeyError: ok = False
        if ok != (len(idx) == 1) or ok and r != idx[0]: return f'DisjointEstimate.find({p})'
