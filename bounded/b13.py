"""C13: Rule.same / Program.__eq__ / align / hash against brute-force renaming-and-reordering."""
import itertools, random
from . import tlib as L
RULE = 'rule pairs (renamed+shuffled, or such a pair with one point mutation: variables merged/split, constant changed, arguments swapped, subgoal dropped/duplicated/changed), bodies up to 5 subgoals with repeated functors, shared or separate variable objects; programs of <=5 rules with repeats; metric against a spec constant folding (0 exactly on programs equal after folding, symmetric)'
FNS = [('p', 2), ('p', 1), ('q', 2), ('r', 3), ('k', 0)]

def rrule(rng):
    nv = rng.randint(1, 4)
    def t(fns): 
        f, n = rng.choice(fns)
        return ('t', f, tuple(L.gen(rng, rng.choice([0, 0, 0, 1]), nv, consts=[0, 1, 'a'], fns=[('f', 1), ('g', 2), ('k', 0)]) for _ in range(n)))
    two = rng.sample(FNS, 2)
    body = [t(two) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5]))]
    if rng.random() < .3: body.insert(rng.randint(0, len(body)), ('c', rng.choice([0.5, 2, 3])))
    if rng.random() < .1 and body: body.append(rng.choice(body))
    if rng.random() < .06: body.append(('v', 0))
    h = t(FNS)
    if rng.random() < .05: h = ('v', 0)
    return (h, tuple(body))

def ren(rng, r, base=10):
    vs = L.variables(('t', 'r', (r[0],) + r[1]))
    names = list(range(base, base + len(vs))); rng.shuffle(names)
    s = {v: ('v', n) for v, n in zip(vs, names)}
    body = [L.subs(s, b) for b in r[1]]; rng.shuffle(body)
    return (L.subs(s, r[0]), tuple(body))

def mutate(rng, r):
    h, body = r[0], list(r[1])
    vs = L.variables(('t', 'r', (h,) + tuple(body)))
    k = rng.random()
    if k < .25 and len(vs) > 1:
        a, b = rng.sample(vs, 2)
        s = {a: b}; return (L.subs(s, h), tuple(L.subs(s, x) for x in body))
    if k < .5 and body:
        i = rng.randrange(len(body)); b = body[i]
        if b[0] == 't' and b[2]:
            a = list(b[2])
            if rng.random() < .5 and len(a) > 1: rng.shuffle(a)
            else: a[rng.randrange(len(a))] = rng.choice([('v', 30), ('c', 7), ('c', 1), rng.choice(vs or [('v', 31)])])
            body[i] = ('t', b[1], tuple(a))
        elif b[0] == 'c': body[i] = ('c', 5)
        return (h, tuple(body))
    if k < .6 and body: body.pop(rng.randrange(len(body)))
    elif k < .75 and body: body[rng.randrange(len(body))] = rng.choice(body)
    elif k < .9 and h[0] == 't' and h[2]:
        a = list(h[2]); a[rng.randrange(len(a))] = rng.choice([('v', 30), ('c', 1)] + vs); h = ('t', h[1], tuple(a))
    else: body.append(('t', 'p', (('c', 0),)))
    return (h, tuple(body))

def iso(r, s):
    if len(r[1]) != len(s[1]): return False
    R = ('t', 'R', (r[0],) + r[1])
    cr = L.canon(R)
    def go(rest, used, left):
        pass
    heads = lambda b: (b[0], b[1], len(b[2])) if b[0] == 't' else b if b[0] == 'c' else 'v'
    if sorted(map(repr, map(heads, r[1]))) != sorted(map(repr, map(heads, s[1]))): return False
    seen = set()
    for p in itertools.permutations(s[1]):
        if p in seen: continue
        seen.add(p)
        if L.canon(('t', 'R', (s[0],) + p)) == cr: return True
    return False

def cases(rng, tier):
    for i in range(6000 if tier == 'quick' else 100000):
        if i % 5 == 0:
            A = mrules(rng)
            yield ('metric', A, mtwin(rng, A), False)
        r = rrule(rng)
        k = rng.random()
        if k < .7:
            s = ren(rng, mutate(rng, r) if rng.random() < .6 else r, rng.choice([0, 10]))
            yield ('rule', r, s, rng.random() < .5)
        else:
            A = [rrule(rng) for _ in range(rng.randint(0, 4))]
            if A and rng.random() < .5: A.append(ren(rng, rng.choice(A)))
            B = [ren(rng, a) for a in A]; rng.shuffle(B)
            m = rng.random()
            if B and m < .25: B[rng.randrange(len(B))] = ren(rng, rng.choice(A))
            elif B and m < .5:
                j = rng.randrange(len(B)); B[j] = mutate(rng, B[j])
            elif B and m < .6: B.pop()
            yield ('prog', A, B, rng.random() < .5)

def fold(rules):
    "spec meaning of constant folding: {renaming class of (head, subgoals): total coefficient}, as a list of [rule, total]"
    out = []
    for h, b in rules:
        c = 1.0
        for x in b: c *= x[1] if x[0] == 'c' else 1.0
        if abs(c) <= 1e-7: continue
        r = (h, tuple(x for x in b if x[0] != 'c'))
        for o in out:
            if iso(o[0], r): o[1] += c; break
        else: out.append([r, c])
    return out
def spec_metric(A, B):
    "0 if the folded programs agree up to renaming and reordering, else the largest difference of a constant total (infinite if the rules differ)"
    A, B = fold(A), fold(B)
    if len(A) != len(B): return float('inf')
    d = 0.0
    for r, c in A:
        for s, e in B:
            if iso(r, s):
                if c != e: d = max(d, abs(c - e)) if not r[1] else float('inf')
                break
        else: return float('inf')
    return d
def check_metric(x, y):
    from dyna import Program
    from dyna.rule import Rule
    mk = lambda rs: Program([Rule(L.build(h, e), *[L.build(b, e) for b in bs]) for h, bs in rs for e in [{}]])
    A, B = mk(x), mk(y)
    want = spec_metric(x, y)
    loose = any(a[0] == b[0] == 't' and a != b and a[1] == b[1] for r in x + y for a in r[1] for b in r[1])
    for p, q in ((A, B), (B, A)):
        got = p.metric(q)
        # merging of rules is best effort when a rule has different subgoals of one functor: then only soundness is required
        if (got == 0 and want != 0) if loose else (got == 0) != (want == 0) or (got == float('inf')) != (want == float('inf')): return f'distance of {p.plaintext} and {q.plaintext}: {got}, expected {"0" if want == 0 else want}'

def mrules(rng):
    V = [('v', i) for i in range(3)]
    t = lambda f, n: ('t', f, tuple(rng.choice(V + [('c', 1)]) for _ in range(n)))
    out = []
    for _ in range(rng.randint(1, 4)):
        body = [t(*rng.choice([('p', 1), ('q', 2)])) for _ in range(rng.choice([0, 0, 1, 1, 2, 2]))]
        if body and rng.random() < .25: body.append(rng.choice(body))
        for _ in range(rng.choice([0, 1, 1, 2]) or (not body)): body.insert(rng.randint(0, len(body)), ('c', rng.choice([1.0, 0.5, 2.0, 3.0, 4.0])))
        out.append((t(*rng.choice([('a', 1), ('b', 2), ('g', 0)])), tuple(body)))
    return out
def mtwin(rng, A):
    "the same program written differently, or nearly the same one"
    B = [ren(rng, r) for r in A]
    i = rng.randrange(len(B)); h, b = B[i]; b = list(b)
    k = rng.random()
    if k < .2: B[i:i + 1] = [(h, tuple(b + [('c', 0.5)])), ren(rng, (h, tuple(b + [('c', 0.5)])))]
    elif k < .35 and b: b.insert(0, rng.choice(b)); B[i] = (h, tuple(b))
    elif k < .5 and len(b) > 1: b.pop(rng.randrange(len(b))); B[i] = (h, tuple(b))
    elif k < .6: B.append(rng.choice(B))
    elif k < .7: B.append(rng.choice(mrules(rng)))
    elif k < .8: B[i] = mutate(rng, (h, tuple(b)))
    rng.shuffle(B)
    return B

def nontrivial(case): return bool(case[1])

def prog_eq(A, B):
    if len(A) != len(B): return False
    B = list(B)
    for a in A:
        for j, b in enumerate(B):
            if iso(a, b): B.pop(j); break
        else: return False
    return True

def check(case):
    from dyna.rule import Rule
    from dyna import Program
    def mk(r, env): return Rule(L.build(r[0], env), *[L.build(b, env) for b in r[1]])
    kind, x, y, shared = case
    if kind == 'metric': return check_metric(x, y)
    env = {}
    env2 = env if shared else {}
    if kind == 'rule':
        a, b = mk(x, env), mk(y, env2)
        want = iso(x, y)
        heap = [L.raw(t) for t in (a, b)]
        for p, q, nm in ((a, b, ''), (b, a, ' (swapped)'), (a, b, ' (again)')):
            if bool(p.same(q)) != want: return f'{p}   same{nm} as   {q}: says {not want}'
        if want and a._hash_cache != b._hash_cache: return 'same rules with different hashes'
        if not a.same(a): return 'a rule differs from itself'
        if Program([a]) != Program([a]): return 'reflexive'
        if (Program([a]) == Program([b])) != want: return f'one-rule programs {a} vs {b}: says {not want}'
        if [L.raw(t) for t in (a, b)] != heap: return 'rules modified'
        return None
    A, B = [mk(r, {}) for r in x], [mk(r, {}) for r in y]
    P, Q = Program(A), Program(B)
    want = prog_eq(x, y)
    if (P == Q) != want or (Q == P) != want: return f'programs judged {"equal" if P == Q else "different"}: {P.plaintext} / {Q.plaintext}' if hasattr(P, 'plaintext') else 'programs misjudged'
    if P.same(Q) != want: return 'same'
    if (P != Q) == want: return '!='
    if want and hash(P) != hash(Q): return 'equal programs with different hashes'
    al, um = P.align(Q), None
    pairs = al[0] if isinstance(al, tuple) and len(al) == 2 and not isinstance(al[0], int) else al
    pairs = [p for p in pairs if None not in p]
    if len({i for i, _ in pairs}) != len(pairs) or len({j for _, j in pairs}) != len(pairs): return 'alignment is not one-to-one'
    for i, j in pairs:
        if not iso(x[i], y[j]): return f'aligned different rules {i},{j}'
    # maximal
    left = [r for i, r in enumerate(x) if i not in {i for i, _ in pairs}]
    right = [r for j, r in enumerate(y) if j not in {j for _, j in pairs}]
    if any(iso(a, b) for a in left for b in right): return 'alignment leaves matching rules unpaired'
