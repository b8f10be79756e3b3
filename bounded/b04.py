"""C04: Subst.mgu / __call__ / is_non_specializing against textbook unification."""
from . import tlib as L
RULE = 'sequences of 1-3 unification problems extending one substitution, shared variables, depth<=3; applying the result to terms; non-trivial: at least one variable'

def cases(rng, tier):
    P = L.pool()
    for x in P:
        for y in P: yield ('seq', [(x, y)], [])
    for i in range(7000 if tier == 'quick' else 150000):
        n = rng.randint(1, 4)
        yield ('seq', [L.gen_linked(rng, rng.choice([0, 1, 2, 3]), n, 0) for _ in range(rng.randint(1, 3))], [L.gen(rng, 2, n) for _ in range(2)])
        if i % 10 == 0:
            k = rng.randint(0, 4)
            yield ('nonspec', [(('v', j), ('v', 10 + rng.randrange(k + 1)) if rng.random() < .85 else L.gen(rng, 1, 2, 10)) for j in range(k)])

def nontrivial(case): return True

def check(case):
    from dyna.term import Subst, FAIL
    env = {}
    if case[0] == 'nonspec':
        s = Subst()
        for a, b in case[1]: s[L.build(a, env)] = L.build(b, env)
        want = all(b[0] == 'v' for _, b in case[1]) and len({b for _, b in case[1]}) == len(case[1])
        if bool(s.is_non_specializing()) != want: return f'is_non_specializing is {not want}'
        return
    s, ref = Subst(), {}
    pairs = [(L.build(a, env), L.build(b, env)) for a, b in case[1]]
    terms = [L.build(t, env) for t in case[2]]
    heap = [L.raw(t) for p in pairs for t in p]
    names = L.names_of(env)
    for (X, Y), (x, y) in zip(pairs, case[1]):
        s2 = s.copy()
        ref2 = L.unify(x, y, ref)
        r = s2.mgu(X, Y)
        if (r is FAIL) != (ref2 is None): return f'mgu {"reports failure on unifiable" if r is FAIL else "succeeds on non-unifiable"} terms {x} {y} under {ref}'
        if [L.raw(t) for p in pairs for t in p] != heap: return 'the terms were modified'
        if r is FAIL: continue
        s, ref = r, ref2
        if L.read(s(X), names) != L.read(s(Y), names) and not L.variant(L.read(s(X), names), L.read(s(Y), names)): return 'the substitution does not equate the terms'
        vs = sorted(env)
        got = ('t', '$', tuple(L.read(s(env[k]), names) for k in vs))
        want = ('t', '$', tuple(L.apply(ref, ('v', k)) for k in vs))
        if not L.variant(got, want): return f'not a most general unifier: {got} vs {want}'
    dom = {L.read(k, names) for k in s}
    for T, t in zip(terms, case[2]):
        r = L.read(s(T), names)
        if any(v in dom for v in L.variables(r)): return 'application left a mapped variable'
        if not L.variant(('t', '$', (r,) + tuple(L.read(s(env[k]), names) for k in sorted(env))),
                         ('t', '$', (L.apply(ref, t),) + tuple(L.apply(ref, ('v', k)) for k in sorted(env)))): return 'application is not simultaneous replacement'
