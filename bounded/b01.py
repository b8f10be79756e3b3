"""C01: unify / unifyN / unifies / intersect against textbook unification (run-time contract check)."""
from . import tlib as L
RULE = 'pairs of terms over <=4 shared or disjoint variables, depth<=3, some variables bound beforehand; exhaustive over a 24-term pool; non-trivial: both contain structure or a variable'

def cases(rng, tier):
    P = L.pool()
    for x in P:
        for y in P: yield ('pair', x, y)
    yield ('pair', ('t', 'f', (('v', 0), ('v', 0))), ('t', 'f', (('v', 1), ('t', 'g', (('v', 1),)))))
    for i in range(6000 if tier == 'quick' else 150000):
        kw = dict(bound=.15) if i % 3 == 0 else {}
        yield ('pair',) + L.gen_linked(rng, 3, rng.randint(1, 4), 0 if i % 2 else 10, **kw)
        if i % 4 == 0: yield ('tuple', [L.gen_linked(rng, 2, 3, 0, **kw) for _ in range(rng.randint(0, 3))])
        if i % 4 == 1:
            # chains of variables: f(X1..Xn) vs f(g(X2)..) etc.; occurs checks through bindings
            n = rng.randint(2, 4)
            vs = [('v', rng.randrange(n)) for _ in range(n)]
            ws = [L.gen(rng, 1, n) if rng.random() < .5 else ('v', rng.randrange(n)) for _ in range(n)]
            yield ('pair', ('t', 'p', tuple(vs)), ('t', 'p', tuple(ws)))

def nontrivial(case): return case[0] == 'tuple' or not (case[1][0] == 'c' or case[2][0] == 'c')

def check(case):
    from dyna.term import unify, unifies, intersect, Term
    env = {}
    if case[0] == 'tuple':
        xs, ys = [a for a, _ in case[1]], [b for _, b in case[1]]
        X, Y = tuple(L.build(a, env) for a in xs), tuple(L.build(b, env) for b in ys)
        x, y = ('t', '$tuple', tuple(map(L.strip, xs))), ('t', '$tuple', tuple(map(L.strip, ys)))
    else:
        X, Y = L.build(case[1], env), L.build(case[2], env)
        x, y = L.strip(case[1]), L.strip(case[2])
    s = L.unify(x, y)
    names = L.names_of(env)
    vs = sorted(env)
    n = 0
    for _ in unify(X, Y):
        n += 1
        if n > 1: return 'unifier yielded more than once'
        if s is None: return 'unified terms that have no common finite instance'
        rx = L.read(Term('$tuple', *X) if case[0] == 'tuple' else X, names)
        ry = L.read(Term('$tuple', *Y) if case[0] == 'tuple' else Y, names)
        if L.canon(rx) != L.canon(ry) or rx != ry and L.subs({}, rx) != ry and not same_mod_num(rx, ry): return f'the unifier does not make the terms equal: {rx} vs {ry}'
        got = ('t', '$', tuple(L.read(env[k], names) for k in vs))
        want = ('t', '$', tuple(L.apply(s, ('v', k)) for k in vs))
        if not L.variant(got, want): return f'not most general: bindings {got}, expected (up to renaming) {want}'
    if n == 0 and s is not None: return 'failed to unify terms that have a common instance'
    if unifies(X, Y) != (s is not None): return 'unifies() disagrees with unification'
    if case[0] == 'pair':
        z = intersect(X, Y)
        if (z is None) != (s is None): return 'intersect: empty/non-empty verdict'
        if z is not None:
            r = L.read(z, {})
            if not L.variant(r, L.apply(s, x)): return f'intersect: {r} is not a variant of {L.apply(s, x)}'

def same_mod_num(a, b):
    if a[0] != b[0]: return False
    if a[0] == 'c': return L.ceq(a[1], b[1])
    if a[0] == 'v': return a == b
    return a[1] == b[1] and len(a[2]) == len(b[2]) and all(map(same_mod_num, a[2], b[2]))
