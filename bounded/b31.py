"""C31: constraint propagation against the ground models of the constraints."""
import random, itertools
from . import plib as P, tlib as L
RULE = 'random conjunctions (relations, equalities incl. structured and chained, comparisons, arithmetic) and random propagation-rule sets (implications, transitivity, symmetry, functional dependencies, facts, failure); every assignment of the variables to a small universe whose closure under the rules is consistent must satisfy every propagated constraint; failure only if there is none; nothing dropped; propagating again changes nothing; the simplified conjunction has exactly the same solutions'
CASE_LIMIT = 30
RULES = ['k(X) :- m(X).', 'm(X) :- k(X), d(X,Y).', 'k(X) :- d(X,Y).', 'm(Y) :- d(X,Y).', '$fail :- k(X), m(X).', '$fail :- k(0).', '$fail :- d(X,X).', 'k(1).', 'd(Y,X) :- d(X,Y).',
         'd(X,Z) :- d(X,Y), d(Y,Z).', 'Y=Z :- d(X,Y), d(X,Z).', 'X=Z :- d(X,Y), d(Z,Y).', 'X=Y :- k(X), k(Y).', '(X < Z) :- (X < Y), (Y < Z).', '$fail :- (X < Y), (Y < X).', 'k(X) :- k(f(X)).',
         'X=Y :- d(f(X),f(Y)).', '$fail :- (X < X).', 'm(X) :- d(0,X).', '(X < Y) :- d(X,Y).', 'X=0 :- m(X).', 'm(X) :- d(X,X).', 'd(X,X) :- k(X).', 'm(X) :- k(X), d(X,Y), k(Y).', '$fail :- d(X,Y), m(X), m(Y).', 'd(X,Z) :- m(X), d(X,Y), k(Z).', 'X=Y :- k(X), m(X), d(X,Y).']

def term(rng, vs, f=True):
    r = rng.random()
    if r < .65: return rng.choice(vs)
    if r < .9 or not f: return P.Cn(rng.choice([0, 1, 2]))
    return P.T('f', term(rng, vs, False))

def cases(rng, tier):
    for i in range(5000 if tier == 'quick' else 120000):
        vs = [P.V(k) for k in range(rng.randint(1, 4))]
        D = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .45: D.append(P.T(rng.choice('km'), term(rng, vs)))
            elif r < .65: D.append(P.T('d', term(rng, vs), term(rng, vs)))
            elif r < .88: D.append(P.T('=', term(rng, vs), term(rng, vs)))
            elif r < .95: D.append(P.T(rng.choice(['<', '<', '<=']), term(rng, vs, False), term(rng, vs, False)))
            else: D.append(P.T('is', term(rng, vs, False), P.T('+', term(rng, vs, False), P.Cn(1))))
        rules = rng.sample(RULES, rng.choice([0, 1, 2, 3, 4]))
        num = any(t[1] in ('<', '<=', 'is') for t in D) or any('<' in r for r in rules)
        if num and ('f(' in ''.join(map(P.show, D)) or any('f(' in r for r in rules)): continue    # comparisons are of numbers
        yield ('prop', D, rules, rng.random())

def nontrivial(case): return True

def builtin(t):
    "truth of a ground built-in, None if not one"
    f, a = t[1], t[2]
    if f == '=': return a[0] == a[1]
    num = lambda x: x[1] if x[0] == 'c' and isinstance(x[1], (int, float)) else None
    if f in ('<', '<='):
        x, y = num(a[0]), num(a[1])
        return x is not None and y is not None and (x < y if f == '<' else x <= y)
    if f == 'is':
        def ev(e):
            if e[0] == 't' and e[1] == '+':
                x, y = ev(e[2][0]), ev(e[2][1])
                return None if x is None or y is None else x + y
            return num(e)
        v = ev(a[1])
        return v is not None and num(a[0]) == v

def closure(facts, rules):
    "least model of the facts and rules; None if inconsistent"
    W = set()
    for t in facts:
        b = builtin(t)
        if b is False: return None
        if b is None or t[1] == '<': W.add(t)
    while True:
        new = set()
        def go(h, body, s):
            if not body:
                t = L.subs(s, h)
                if t[1] == '$fail': raise P.Diverges
                b = builtin(t)
                if b is False: raise P.Diverges
                if (b is None or t[1] == '<') and t not in W: new.add(t)
                return
            for w in W:
                s2 = L.match(body[0], w, s)
                if s2 is not None: go(h, body[1:], s2)
        try:
            for h, body in rules: go(h, body, {})
        except P.Diverges: return None
        if not new: return W
        W |= new
        if len(W) > 400: return W

def check(case):
    from dyna import Program, Rule, Term
    from dyna.propagate import ConstraintPropagation
    from dyna.analyze.rewrites import Rewrites
    kind, D, rw, seed = case
    rng = random.Random(seed)
    rules = [(L.read(r.head, {}) if False else None) for r in ()]
    cp = ConstraintPropagation('\n'.join(rw))
    rules = P.rules_of(cp.rules)
    env = {}
    xs = [L.build(t, env) for t in D]
    rng.shuffle(xs)
    back = {v.name if hasattr(v, 'name') else v: k for k, v in env.items()}
    res = cp(list(xs))
    what = f'{list(map(P.show, D))} under {rw}'
    U = [P.Cn(0), P.Cn(1), P.Cn(2), P.Cn('z'), P.T('f', P.Cn(0)), P.T('f', P.Cn('z')), P.Cn(3)]
    VS = sorted({v for t in D for v in L.variables(t)})
    if len(VS) > 3: U = U[:6]
    sols, non = [], []
    for vals in itertools.product(U, repeat=len(VS)):
        s = dict(zip(VS, vals))
        W = closure([L.subs(s, t) for t in D], rules)
        if W is not None: sols.append((s, W))
        else: non.append(s)
    names = {}
    inv = {id(v): ('v', k) for k, v in env.items()}
    def rd(t):
        from dyna.term import Var
        if isinstance(t, Var): return inv.get(id(t), ('v', ('new', id(t))))
        if isinstance(t, Term): return ('t', t.fn, tuple(rd(a) for a in t.args))
        return ('c', t)
    def holds(t, s, W):
        g = L.subs(s, t)
        if L.variables(g): return None
        b = builtin(g)
        return g in W if b is None else b
    if res is None:
        if sols: return f'{what}: failure reported, but {sols[0][0]} is a solution'
        return
    out = [rd(x) for x in res]
    for t in D:
        if t not in out: return f'{what}: constraint {P.show(t)} was lost'
    for s, W in sols:
        for t in out:
            if holds(t, s, W) is False: return f'{what}: {P.show(t)} was added, but does not follow ({s})'
    again = cp(list(res))
    if again is None: return f'{what}: propagating the result again fails'
    a2 = [rd(x) for x in again]
    u = {}
    for t in out:
        if t[1] == '=' and u is not None: u = L.unify(t[2][0], t[2][1], u)
    if u is not None:
        can = lambda ts: {L.apply(u, t) for t in ts if t[1] != '='}
        if can(a2) != can(out): return f'{what}: not idempotent: second pass adds {[P.show(t) for t in can(a2) - can(out)]} loses {[P.show(t) for t in can(out) - can(a2)]}'
    # the simplified conjunction (as used by the type system)
    R = Rewrites('\n'.join(rw))
    head = Term('h', *[env[v[1]] for v in VS])
    for drop in (False, True):
        r = R(Rule(head, *xs), USE_INSTS=False, drop_checked=drop)
        if r is None:
            if sols: return f'{what}: simplified to a contradiction, but {sols[0][0]} is a solution'
            continue
        h, body = rd(r.head), [rd(x) for x in r.body]
        for s, W in sols:
            g = P.T('h', *[s[v] for v in VS])
            m = L.match(h, g, {})
            if m is None or any(holds(t, m, W) is False for t in body): return f'{what}: simplified to {r}, which loses the solution {s}'
        for s in non:
            g = P.T('h', *[s[v] for v in VS])
            m = L.match(h, g, {})
            if m is None: continue
            fs = [L.subs(m, t) for t in body]
            if any(L.variables(t) for t in fs): continue
            W = closure(fs, rules)
            if W is not None and (not drop or True): return f'{what}: simplified to {r}, which admits {s}'
