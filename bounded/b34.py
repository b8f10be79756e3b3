"""C34: derivations mapped through unfold and fold steps: valid, value-preserving, one-to-one, invertible."""
import random
from . import plib as P, tlib as L
from . import b33
RULE = 'random programs with data as facts (recursion, functions, duplicated rules and subgoals), sequences of 1-3 unfold / measured or reversible fold steps; every derivation of the original within a height bound mapped to the transformed program and back; on non-recursive programs the image is compared with an independent enumeration of the transformed program\'s trees'
CASE_LIMIT = 40

def cases(rng, tier):
    for i in range(2200 if tier == 'quick' else 20000):
        rec = i % 2
        g = P.Gen(random.Random(rng.random()), nconst=2, functions=i % 3 == 0, builtins=i % 5 == 4, nrules=rng.choice([(0, 1), (1, 3)]), recursion=.6 if rec else 0, maxbody=rng.choice([2, 2, 3]))
        rules = g.program()
        facts = g.facts(rng.randint(2, 5))
        if rng.random() < .3:
            k = rng.randrange(len(facts))
            facts[k] = (facts[k][0], [])
        if rng.random() < .2: facts.append(rng.choice(facts))
        if rng.random() < .3:
            r = rng.choice(rules)
            b = [x for x in r[1] if not P.is_builtin(x) and x[0] != 'w']
            if b: rules[rules.index(r)] = (r[0], [rng.choice(b)] + list(r[1]))
        if rng.random() < .3: rules.append(rng.choice(rules))
        if rng.random() < .6:           # a definition that occurs in some rule: something to fold
            r = rng.choice(rules)
            b = [x for x in r[1] if not P.is_builtin(x)]
            if b:
                b = rng.sample(b, rng.randint(1, len(b)))
                vs = sorted({v for x in b if x[0] == 't' for v in L.variables(x)}, key=repr)
                rules.append((P.T('tmp', *(vs if rng.random() < .7 else vs[:1])), b))
                if rng.random() < .3: rules.append((P.T('tmp', *[P.Cn(0)] * len(rules[-1][0][2])), [('w', .5)]))
        allr = facts + rules
        rng.shuffle(allr)
        yield (allr, rng.randint(2, 4) if rec else 12, not rec, rng.random())

def nontrivial(case): return True

def invalid(t, rules):
    "None if the tree is a derivation of the rules"
    if len(t) != 3: return None
    i, hd, kids = t
    if not isinstance(i, int) or not 0 <= i < len(rules): return f'no rule {i}'
    h, body = rules[i]
    if len(body) != len(kids): return f'rule {i} applied to {len(kids)} subtrees'
    s = L.match(h, hd, {})
    if s is None: return f'{P.show(hd)} is not an instance of the head of {P.show_rule(rules[i])}'
    for b, k in zip(body, kids):
        if b[0] == 'w':
            if k != ('c', b[1]): return f'constant {k} for {b}'
        elif P.is_builtin(b):
            if k != ('b',): return f'{k} for {P.show(b)}'
        else:
            if len(k) != 3: return f'{k} for {P.show(b)}'
            s = L.match(b, k[1], s)
            if s is None: return f'{P.show(k[1])} does not match {P.show(b)} in {P.show_rule(rules[i])}'
    for b in body:
        if P.is_builtin(b):
            r = P.eval_builtin(b, s)
            if r is not None and not r: return f'{P.show(b)} is false'
    for k in kids:
        m = invalid(k, rules)
        if m: return m

def heads(t):
    out = []
    if len(t) == 3:
        out.append(t[1])
        for k in t[2]: out += heads(k)
    return out

def check(case):
    from dyna import Program
    rules, T, acyclic, seed = case
    rng = random.Random(seed)
    ref = b33.trees(rules, T)
    if ref is None: return 'skip'
    total = {t for ts in ref.values() for t in ts}
    if not total or len(total) > 150: return 'skip'
    p = Program(P.text(rules))
    preds = sorted({(h[1], len(h[2])) for h, _ in rules})
    from dyna.syntax import term
    D = []
    for f, n in preds: D += list(p.derivations(T, term(P.show(P.T(f, *[P.V(k) for k in range(n)])))))
    N = [b33.norm(d, rules) for d in D]
    if set(N) != total or len(N) != len(total): return 'the original derivations are not the reference trees'
    for d, g in zip(D, N):              # built with the subgoals in another order
        perm = list(range(len(d.body))); rng.shuffle(perm)
        try: t = b33.norm(p.d(d.i)(d.head, *[d.body[k] for k in perm]), rules)
        except AssertionError: return f'{P.text(rules)!r}: {b33.show(g)} cannot be built with its subgoals in the order {perm}'
        if invalid(t, rules) or sorted(map(repr, t[2])) != sorted(map(repr, g[2])): return f'{P.text(rules)!r}: {b33.show(g)} built with its subgoals in the order {perm} becomes {b33.show(t)}'
    q, hist = p, []
    for step in range(rng.randint(1, 3)):
        acts = [('unfold', i, j) for i, r in enumerate(q.rules) for j, b in enumerate(r.body) if q.safe_inline(b) and not q.is_builtin(b)]
        k = rng.random()
        if k < .55 and acts:
            _, i, j = rng.choice(acts)
            n = q.unfold(i, j); hist.append(f'unfold({i},{j})')
        else:
            if len(q) > 14: continue
            c = [m for m in q.partial_megafolds(p) if m.safe_by_smt]
            if not c: continue
            n = rng.choice(c[:4]); hist.append(f'megafold({n.r}, {sorted(n.S)})')
        q = n
        if len(q) > 30: break
    if q is p: return 'skip'
    new = P.rules_of(q)
    name = f'{P.text(rules)!r}: {"; ".join(hist)}'
    out = {}
    for d, g in zip(D, N):
        e = p.Transform(d, q)
        t = b33.norm(e, new)
        m = invalid(t, new)
        if m: return f'{name}: {b33.show(g)} maps to {b33.show(t)}, which is not a derivation of the result: {m}'
        if t[1] != g[1]: return f'{name}: {b33.show(g)} maps to a derivation of {P.show(t[1])}'
        if abs(b33.value(t) - b33.value(g)) > 1e-9: return f'{name}: {b33.show(g)} has value {b33.value(g)}, its image {b33.value(t)}'
        if t in out: return f'{name}: {b33.show(g)} and {b33.show(out[t])} both map to {b33.show(t)}'
        out[t] = g
        b = b33.norm(q.Transform(e, p), rules)
        if b != g: return f'{name}: {b33.show(g)} maps to {b33.show(t)}, and back to {b33.show(b)}'
    if acyclic:
        image = b33.trees(new, 14)
        if image is None: return None
        orig = {h for h, _ in ((g[1], 0) for g in N)}
        for h, ts in image.items():
            if h not in orig: continue
            for t in ts:
                if t not in out: return f'{name}: {b33.show(t)} is a derivation of the result that nothing maps to'
