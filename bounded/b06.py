"""C06: generalizer."""
from . import tlib as L
from .b03 import inst_of
RULE = 'pairs of variable-disjoint terms, often sharing a skeleton with several mismatch positions (some with equal mismatch pairs, some sharing only one side), or instance/variant pairs'

def cases(rng, tier):
    P = L.pool()
    Q = [L.subs({('v', 0): ('v', 10), ('v', 1): ('v', 11)}, t) for t in P]
    for x in P:
        for y in Q: yield ('pair', x, y)
    for i in range(6000 if tier == 'quick' else 120000):
        r = rng.random()
        p = L.gen(rng, 3, rng.randint(0, 3))
        if r < .25: yield ('pair', p, inst_of(rng, p, 2, 10))
        elif r < .4: yield ('pair', inst_of(rng, p, 2, 10), p)
        elif r < .5: yield ('pair', p, L.subs({('v', k): ('v', 10 + k) for k in range(4)}, p))
        elif r < .75:
            n = rng.randint(2, 4); g = lambda b: rng.choice([('c', 0), ('c', 1), ('v', b), ('v', b + 1), ('t', 'g', (('v', b),)), ('t', 'g', (('c', 1),))])
            yield ('pair', ('t', 'p', tuple(g(0) for _ in range(n))), ('t', 'p', tuple(g(10) for _ in range(n))))
        else: yield ('pair',) + L.gen_linked(rng, 3, 3, 10)

def nontrivial(case): return case[1][0] == 't' and case[2][0] == 't'

def check(case):
    from dyna.term import generalizer
    env = {}
    X, Y = L.build(case[1], env), L.build(case[2], env)
    x, y = case[1], case[2]
    bx, by = L.raw(X), L.raw(Y)
    G = generalizer(X, Y)
    if (L.raw(X), L.raw(Y)) != (bx, by): return 'the terms were modified'
    g = L.read(G, dict(L.names_of(env)))
    if not L.covers(g, x): return f'generaliser {g} does not subsume the first term'
    if not L.covers(g, y): return f'generaliser {g} does not subsume the second term'
    if L.covers(x, y) and not L.variant(g, x): return f'generaliser {g} is not the least one although the first term subsumes the second'
    if L.covers(y, x) and not L.variant(g, y): return f'generaliser {g} is not the least one although the second term subsumes the first'
