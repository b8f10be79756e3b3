"""C03: covers / Subst.cover / same against one-way matching."""
from . import tlib as L
RULE = 'pairs of terms without common variables, depth<=3, targets often built as instances (or near-instances) of the pattern; exhaustive over a 24-term pool'

def inst_of(rng, p, nv, base):
    s = {v: L.gen(rng, 1, nv, base) for v in L.variables(p)}
    t = L.subs(s, p)
    if rng.random() < .35: t = perturb(rng, t, nv, base)
    return t
def perturb(rng, t, nv, base):
    if t[0] != 't' or not t[2] or rng.random() < .3: return L.gen(rng, 1, nv, base)
    i = rng.randrange(len(t[2]))
    return ('t', t[1], t[2][:i] + (perturb(rng, t[2][i], nv, base),) + t[2][i + 1:])

def cases(rng, tier):
    P = L.pool()
    Q = [L.subs({('v', 0): ('v', 10), ('v', 1): ('v', 11)}, t) for t in P]
    for x in P:
        for y in Q: yield ('pair', x, y)
    for i in range(7000 if tier == 'quick' else 150000):
        p = L.gen(rng, 3, rng.randint(1, 3))
        r = rng.random()
        t = inst_of(rng, p, rng.randint(0, 3), 10) if r < .7 else L.gen(rng, 3, 2, 10) if r < .8 else L.gen_linked(rng, 3, 3, 10)[1]
        if i % 5 == 0: yield ('bound', wrap(rng, p), wrap(rng, t))
        elif i % 5 == 1: yield ('trans', p, inst_of(rng, p, 2, 10), inst_of(rng, inst_of(rng, p, 2, 10), 2, 20), rng.random())
        else: yield ('pair', p, t)

def wrap(rng, t):
    if t[0] == 't': t = ('t', t[1], tuple(wrap(rng, a) for a in t[2]))
    return ('b', t) if rng.random() < .25 else t

def nontrivial(case): return L.size(case[1]) > 1

def check(case):
    from dyna.term import covers, same, Subst, FAIL, fresh
    env = {}
    x, y = L.strip(case[1]), L.strip(case[2])
    X, Y = L.build(case[1], env), L.build(case[2], env)
    before = L.raw(X), L.raw(Y)
    want = L.match(x, y)
    got = covers(X, Y)
    if (L.raw(X), L.raw(Y)) != before: return 'the terms were modified'
    if bool(got) != (want is not None): return f'covers = {got}, but the second term is{"" if want is not None else " not"} an instance of the first'
    back = L.match(y, x) is not None
    if bool(covers(Y, X)) != back: return 'covers (other direction)'
    if bool(same(X, Y)) != (back and want is not None): return 'same() is not mutual subsumption'
    if not covers(fresh(X), X) or not covers(X, fresh(X)): return 'not reflexive'
    if case[0] != 'bound':
        s = Subst()
        r = s.cover(X, Y)
        if (r is FAIL) != (want is None): return 'Subst.cover verdict'
        if r is not FAIL:
            names = L.names_of(env)
            if L.read(r(X), names) != L.read(Y, names) and not L.variant(L.read(r(X), names), y): return 'the matching substitution does not map the pattern onto the target'
            if any(L.read(k, names) not in L.variables(x) for k in r): return 'the matching substitution binds a variable that is not a pattern variable'
            if {k: v for k, v in ((L.read(k, names), L.read(v, names)) for k, v in r.items())} != want: return f'matching substitution {r} is not the one instance-of needs'
    if case[0] == 'trans':
        Z = L.build(case[3], env)
        if covers(X, Y) and covers(Y, Z) and not covers(X, Z): return 'not transitive'
