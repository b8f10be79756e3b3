"""C27: every item of the reference evaluation is an instance of an inferred type."""
import random, itertools
from . import plib as P, tlib as L, tx
RULE = 'random programs (functions, comparisons, recursion) with input types over named value classes k, m (disjoint, included, singleton or unrelated, the relation given as propagation rules), random interpretations of the classes and random conforming inputs; all settings (depth 1-5, insts on/off, basic/generalising); every derivable item must match a type and satisfy its constraints; no type covers another; generalised types do not overlap'
CASE_LIMIT = 60
REW = {'none': '', 'disjoint': '$fail :- k(X), m(X).', 'sub': 'k(X) :- m(X).', 'single': 'X=Y :- m(X), m(Y).', 'fd': 'Y=Z :- s(X,Y), s(X,Z).'}

def classes(rng, rel):
    U = [P.Cn(0), P.Cn(1), P.Cn(2), P.T('f', P.Cn(0)), P.T('f', P.Cn(1))]
    k = set(rng.sample(U, rng.randint(1, 4)))
    m = set(rng.sample(U, rng.randint(1, 4)))
    if rel == 'disjoint': m -= k
    if rel == 'sub': k |= m
    if rel == 'single': m = set(sorted(m, key=repr)[:1])
    return k, m

def cases(rng, tier):
    for i in range(1800 if tier == 'quick' else 40000):
        g = P.Gen(random.Random(rng.random()), nconst=3, functions=i % 2 == 0, builtins=i % 3 == 1, nrules=(1, 3), recursion=rng.choice([0, .5, .8]), weights=False)
        rules = [(h, [b for b in body if b[0] != 'w']) for h, body in g.program()]
        rel = rng.choice(list(REW))
        itypes = []
        for f, n in g.edb:
            for _ in range(rng.choice([1, 1, 2])):
                vs = [P.V(j) for j in range(n)]
                if rng.random() < .15 and n == 2: vs[1] = vs[0]
                args = [v if rng.random() < .85 else P.T('f', v) if g.functions else P.Cn(rng.choice(g.C)) for v in vs]
                cons = [P.T(rng.choice(['k', 'm', '$bound']), v) for v in dict.fromkeys(v for a in args for v in L.variables(a))]
                if rel == 'fd' and n == 2 and rng.random() < .7: args = [vs[0], vs[1] if rng.random() < .8 else P.T('f', vs[1])]; cons = [P.T('s', *args)] + cons[:1]
                itypes.append((P.T(f, *args), cons))
        yield (rng.choice(['basic', 'basic', 'general']), rules, itypes, rel, rng.choice([1, 2, 3, 5]), rng.random() < .6, rng.random())

def nontrivial(case): return True

def conforms(itypes, k, m, rng, n, S):
    U = sorted(k | m | {P.Cn(0), P.Cn(1)}, key=repr)
    out = {}
    for _ in range(n):
        h, cons = rng.choice(itypes)
        s = {}
        ok = True
        sc = [c for c in cons if c[1] == 's']
        if sc:
            fd = {}
            for x in U: fd[x] = rng.choice([None] + U) if x not in S else S[x]
            S.update(fd)
            prs = [(x, y) for x, y in sorted(S.items(), key=repr) if y is not None and L.match(sc[0], P.T('s', x, y), {}) is not None]
            if not prs: continue
            s = dict(L.match(sc[0], P.T('s', *rng.choice(prs)), {}))
        if any(c[1] in ('k', 'm') and c[2][0] in s and s[c[2][0]] not in (k if c[1] == 'k' else m) for c in cons): continue
        for v in L.variables(h):
            if v in s: continue
            need = [c[1] for c in cons if c[2][0] == v]
            pool = U
            if 'k' in need: pool = sorted(k, key=repr)
            if 'm' in need: pool = sorted(m, key=repr)
            if not pool: ok = False; break
            s[v] = rng.choice(pool)
        if ok: out[L.subs(s, h)] = (L.subs(s, h), [])
    return list(out.values())

def sat(c, k, m, S):
    "ground constraint under the interpretation"
    f, a = c[1], c[2]
    if f in ('$bound', '$free'): return True
    if f == 'k': return a[0] in k
    if f == 'm': return a[0] in m
    if f == 's': return S.get(a[0]) == a[1]
    if P.is_builtin(c):
        try: r = P.eval_builtin(c, {})
        except TypeError: return True         # comparing a structure with a number: never satisfied, never needed
        return bool(r)
    raise ValueError(c)

def check(case):
    from dyna import Program
    from dyna.analyze.rewrites import Rewrites
    import warnings; warnings.simplefilter('ignore')
    kind, rules, itypes, rel, depth, insts, seed = case
    rng = random.Random(seed)
    p = Program(P.text(rules))
    p.set_input_types('\n'.join(f'{f}({",".join("XYZ"[:n])}).' for f, n in {(h[1], len(h[2])): 0 for h, _ in itypes}))
    it = Program('\n'.join(P.show(h) + (' :- ' + ', '.join(map(P.show, c)) if c else '') + '.' for h, c in itypes), 'k(_). m(_). s(_,_). $bound(_).')
    what = f'type_analysis(max_depth={depth}, use_insts={insts}, basic={kind == "basic"}, rewrites={REW[rel]!r}) of {P.text(rules)!r} with inputs {[str(r) for r in it]}'
    t = p.type_analysis(input_type=it, rewrites=REW[rel], max_depth=depth, use_insts=insts, basic=kind == 'basic')
    types = []
    for r in t.chart:
        n = {}
        types.append((L.read(r.head, n), [L.read(b, n) for b in r.body]))
    def member(x, S):
        for h, c in types:
            s = L.match(h, x, {})
            if s is None: continue
            if all(sat(L.subs(s, b), k, m, S) for b in c if L.variables(L.subs(s, b)) == []): return True
        return False
    for _ in range(4):
        k, m = classes(rng, rel); S = {}
        facts = conforms(itypes, k, m, rng, rng.randint(3, 10), S)
        try: chart = P.evaluate(rules, facts, iters=60, boolean=True, plus=lambda a, b: 1.0, times=lambda a, b: 1.0, maxitems=1500)
        except P.Diverges: continue
        except TypeError: continue
        for x in chart:
            if not member(x, S): return f'{what}: {P.show(x)} is derivable from {[P.show(f) for f, _ in facts]} (k={list(map(P.show, k))}, m={list(map(P.show, m))}) but matches no inferred type {[str(r) for r in t.chart]}'
    rw = Rewrites(REW[rel])
    rs = list(t.chart)
    if len(rs) <= 12:
        for a in range(len(rs)):
            for b in range(len(rs)):
                if a != b and rw.covers(rs[a], rs[b]): return f'{what}: inferred type {rs[a]} covers {rs[b]}'
    if kind == 'general' and not t.is_disjoint(): return f'{what}: inferred types overlap: {[str(r) for r in rs]}'
