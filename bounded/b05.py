"""C05: fresh / canonicalize / term_vars."""
from . import tlib as L
RULE = 'terms of depth<=4 with repeated and bound variables, pairs that are renamings or near-renamings of each other, and flat terms of 12 to 104 variables; non-trivial: contains a variable'

def cases(rng, tier):
    P = L.pool()
    for x in P:
        for y in P: yield ('pair', x, y)
    for i in range(60 if tier == 'quick' else 600):     # more variables than there are letters
        n = rng.choice([12, 26, 27, 28, 30, 53, 60, 104])
        vs = [('v', k) for k in range(n)]
        x = ('t', ('f', n), tuple(vs))
        ys = list(vs)
        if i % 2: ys[rng.randrange(n)] = rng.choice(vs)
        if rng.random() < .5: ys = [('v', 200 + v[1]) for v in ys]
        if rng.random() < .3: rng.shuffle(ys)
        yield ('pair', x, ('t', ('f', n), tuple(ys)))
        m = rng.randrange(n)
        yield ('pair', ('t', ('f', n), tuple(vs[:m] + [vs[m]] + vs[m + 1:-1] + [vs[m]])), ('t', ('f', n), tuple(vs[:-1] + [rng.choice(vs)])))
    for i in range(6000 if tier == 'quick' else 120000):
        x = L.gen(rng, rng.choice([2, 3, 4]), rng.randint(1, 4), 0, .12 if i % 3 == 0 else 0)
        vs = L.variables(x)
        tgt = [('v', 20 + k) for k in range(len(vs))]
        rng.shuffle(tgt)
        if rng.random() < .3 and len(tgt) > 1: tgt[0] = tgt[1]
        y = L.subs(dict(zip(vs, tgt)), L.strip(x))
        if rng.random() < .2: y = L.gen(rng, 3, 3)
        yield ('pair', x, y)

def nontrivial(case): return bool(L.variables(case[1]))

def check(case):
    from dyna.term import fresh, canonicalize, term_vars, Var, Term, null_ptr, Fresh
    env = {}
    X, Y = L.build(case[1], env), L.build(case[2], env)
    x, y = L.strip(case[1]), L.strip(case[2])
    before = L.raw(X)
    Z = fresh(X)
    if L.raw(X) != before: return 'fresh modified the original'
    ids = {}
    z = L.read(Z, ids)
    if not L.variant(z, x): return f'fresh copy {z} is not a renaming of {x}'
    if has_bound(Z): return 'fresh copy contains a bound variable'
    if any(id(v) in ids for v in env.values()): return 'fresh copy shares a variable with the original'
    f = Fresh()
    a, b = f(X), f(Y)
    na = {}
    if not L.variant(('t', '$', (L.read(a, na), L.read(b, na))), ('t', '$', (x, y))): return 'Fresh does not rename two terms consistently'
    cx, cy = canonicalize(X), canonicalize(Y)
    if L.raw(X) != before: return 'canonicalize modified the original'
    if (cx == cy) != L.variant(x, y): return f'canonical forms {"equal" if cx == cy else "differ"} but the terms are{"" if L.variant(x, y) else " not"} variants'
    if cx == cy and hash(cx) != hash(cy): return 'equal canonical forms hash differently'
    if canonicalize(cx) != cx: return 'canonicalize is not idempotent'
    if not L.variant(L.read(cx, {}), x): return 'canonical form is not a variant of the term'
    tv = [L.read(v, L.names_of(env)) for v in term_vars(X)]
    if tv != L.variables(x): return f'term_vars {tv}, expected {L.variables(x)} (first-occurrence order)'
    if list(term_vars((X, Y))) and [L.read(v, L.names_of(env)) for v in term_vars((X, Y))] != L.variables(('t', '$', (x, y))): return 'term_vars of a tuple'

def has_bound(t):
    from dyna.term import Var, Term, null_ptr
    if isinstance(t, Var): return t.value is not null_ptr
    return isinstance(t, Term) and any(has_bound(a) for a in t.fargs)
