"""C33: every derivation enumeration against an independent enumeration of trees by height."""
import random
from . import plib as P, tlib as L
RULE = 'random programs with data as facts (functions, builtins, duplicated rules, duplicated subgoals, recursion); naive and semi-naive enumeration with height bound 1-4, the agenda and SLD enumeration on non-recursive programs, for every derivable ground item, an underivable one and open queries; value, size and height of each tree, and the sum of the values against the solved value'
CASE_LIMIT = 20
MAXTREES = 400

def cases(rng, tier):
    for i in range(900 if tier == 'quick' else 30000):
        rec = i % 2
        g = P.Gen(random.Random(rng.random()), nconst=2, functions=i % 3 == 0, builtins=i % 4 >= 2, nrules=rng.choice([(0, 1), (1, 3)]), recursion=.6 if rec else 0, maxbody=rng.choice([2, 2, 3]))
        rules = g.program()
        facts = g.facts(rng.randint(2, 5))
        if rng.random() < .3: facts.append(rng.choice(facts))
        if rng.random() < .3:
            r = rng.choice(rules)
            if r[1] and not P.is_builtin(r[1][0]) and r[1][0][0] != 'w' : rules[rules.index(r)] = (r[0], [r[1][0]] + list(r[1]))
        allr = facts + rules
        rng.shuffle(allr)
        yield (allr, rng.randint(1, 4) if rec else rng.randint(2, 5), not rec, [(f, n) for f, n in g.idb])

def nontrivial(case): return True

def trees(rules, T):
    "{ground head: {height: set of trees}} up to height T; tree = (rule, head, children), child = tree | ('c', w) | ('b',)"
    known = {}                     # head -> {tree: height}
    for t in range(1, T + 1):
        new = {}
        ix = P.Index({h: 0.0 for h in known})
        n = 0
        for i, (h, body) in enumerate(rules):
            for s, _ in P.fire((h, body), {h: 1.0 for h in known}, ix=ix):
                hd = L.apply(s, h)
                if not P.ground(hd): return None
                opts = [()]
                for b in body:
                    if b[0] == 'w': c = [('c', b[1])]
                    elif P.is_builtin(b): c = [('b',)]
                    else: c = list(known[L.apply(s, b)])
                    opts = [o + (x,) for o in opts for x in c]
                    if len(opts) > MAXTREES: return None
                for o in opts:
                    new.setdefault(hd, {})[(i, hd, o)] = 1 + max([known[x[1]][x] for x in o if len(x) == 3], default=0)
                    n += 1
                    if n > MAXTREES: return None
        if new == known: break
        known = new
    return known

def value(t):
    if t[0] == 'c' and len(t) == 2: return t[1]
    if t == ('b',): return 1.0
    v = 1.0
    for x in t[2]: v *= value(x)
    return v
def size(t): return 1 + sum(size(x) for x in t[2]) if len(t) == 3 else 0

def norm(d, rules):
    "a derivation of the real system in the reference's form"
    from dyna.derivations import Derivation
    from dyna import Program
    if isinstance(d, Derivation):
        if Program.is_builtin(d.head): return ('b',)
        h, body = rules[d.i]
        kids = []
        for b, x in zip(body, d.body):
            k = norm(x, rules)
            if P.is_builtin(b): k = ('b',)
            kids.append(k)
        if len(body) != len(d.body): return ('bad arity', d.i, len(d.body))
        return (d.i, L.canon_keep(L.read(d.head, {})), tuple(kids))
    return ('c', P.tofloat(d))

def check(case):
    from dyna import Program
    from dyna.derivations import Derivation
    rules, T, acyclic, idb = case
    ref = trees(rules, 12 if acyclic else T)
    if ref is None: return 'skip'
    full = ref
    if acyclic: ref = {h: {t: k for t, k in ts.items() if k <= T} for h, ts in full.items()}
    p = Program(P.text(rules))
    if len(p) != len(rules): return 'skip'
    preds = sorted({(h[1], len(h[2])) for h, _ in rules})
    from dyna.syntax import term
    def verify(what, ds, want, heights):
        got = []
        for d in ds:                 # one at a time: the bindings of an open query are live
            g = norm(d, rules); got.append(g)
            if g not in want: return f'{what}: invalid or unexpected tree {show(g)}'
            if Derivation.height(d) != heights[g]: return f'{what}: height of {show(g)} is {Derivation.height(d)}, expected {heights[g]}'
            if Derivation.size(d) != size(g): return f'{what}: size of {show(g)} is {Derivation.size(d)}, expected {size(g)}'
            v = product(Derivation.value(d))
            if abs(v - value(g)) > 1e-9: return f'{what}: value of {show(g)} is {v}, expected {value(g)}'
        if len(set(got)) != len(got): return f'{what}: {show(max(got, key=got.count))} is enumerated {max(map(got.count, got))} times'
        miss = set(want) - set(got)
        if miss: return f'{what}: {show(sorted(miss, key=repr)[0])} is missing'
    # identical rules are different trees; identical (rule, children) are the same
    queries = []
    for f, n in preds:
        hs = [h for h in full if (h[1], len(h[2])) == (f, n)]
        queries.append((P.T(f, *[P.V(k) for k in range(n)]), hs))
        if hs: queries.append((hs[0], [hs[0]]))
    queries.append((P.T('nosuch', P.V(0)), []))
    for q, hs in queries:
        s = P.show(q)
        H = {t: k for h in hs for t, k in full.get(h, {}).items()}
        W = {t for h in hs for t in ref.get(h, {})}
        has_b = any(P.is_builtin(b) for _, bd in rules for b in bd if b[0] == 't')
        r = verify(f'naive({T}) {s}', p.derivations_naive(T, s if False else term(s)), W, H)
        if r: return r
        r = verify(f'derivations({T}) {s}', p.derivations(T, term(s)), W, H)
        if r: return r
        r = None if has_b else verify(f'seminaive({T}) {s}', p.derivations_seminaive(T, term(s)), W, H)
        if r: return r
        if acyclic:
            W = set(H)
            r = verify(f'sld {s}', p.sld(term(s)), W, H)
            if r: return r
            r = verify(f'naive {s}', p.derivations_naive(None, term(s)), W, H)
            if r: return r
    if acyclic:
      has_b = any(P.is_builtin(b) for _, bd in rules for b in bd if b[0] == 't')
      if not has_b:
        H = {t: k for ts in full.values() for t, k in ts.items()}
        r = verify('agenda', p.derivations_agenda(), set(H), H)
        if r: return r
      got = P.chart_of_program(p.fc())
      want = {h: sum(map(value, ts)) for h, ts in full.items()}
      d = P.diff(got, want)
      if d: return f'sum of the tree values: {d}'
def product(v):
    from dyna.term import Product
    if isinstance(v, (Product, tuple)):
        r = 1.0
        for x in v: r *= product(x)
        return r
    return P.tofloat(v)
def show(t):
    if len(t) != 3: return str(t)
    return f'{P.show(t[1])}<-{t[0]}({", ".join(map(show, t[2]))})'
