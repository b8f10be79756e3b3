"""C07: Product.covers / match_comm against brute-force alignment enumeration."""
import itertools
from . import tlib as L
from .b03 import inst_of
RULE = 'subgoal lists of length 0-4 over few functors (repeats likely) and variable-disjoint targets that are shuffled instances with extra or missing subgoals; a partially filled substitution in a quarter of the cases'
FNS = [('p', 1), ('p', 2), ('q', 1), ('q', 2)]

def cases(rng, tier):
    small = [('t', 'p', (('v', 0),)), ('t', 'p', (('v', 1),)), ('t', 'p', (('c', 0),))]
    big = [('t', 'p', (('v', 10),)), ('t', 'p', (('c', 0),)), ('t', 'p', (('c', 1),))]
    for n in (0, 1, 2):
        for m in (0, 1, 2, 3):
            for xs in itertools.product(small, repeat=n):
                for ys in itertools.product(big, repeat=m): yield ('match', list(xs), list(ys), {})
    for i in range(4500 if tier == 'quick' else 100000):
        n = rng.randint(0, 4)
        xs = [('t', f, tuple(L.gen(rng, rng.choice([0, 0, 1]), 3) for _ in range(k))) for f, k in (rng.choice(FNS) for _ in range(n))]
        s = {('v', k): L.gen(rng, 1, 2, 10) for k in range(4)}
        ys = [L.subs(s, x) if rng.random() < .8 else inst_of(rng, x, 2, 10) for x in xs]
        r = rng.random()
        if r < .4: ys += [L.subs(s, rng.choice(xs))] if xs else [('t', 'p', (('c', 0),))]
        elif r < .5 and ys: ys.pop()
        rng.shuffle(ys)
        pre = {v: s[v] for v in list(s)[:2]} if rng.random() < .25 else {}
        yield ('match', xs, ys, pre)

def nontrivial(case): return len(case[1]) > 1 or len(case[2]) > 1

def key(s): return frozenset(s.items())

def check(case):
    from dyna.term import Product, Subst
    _, xs, ys, pre = case
    env = {}
    X, Y = Product([L.build(x, env) for x in xs]), Product([L.build(y, env) for y in ys])
    names = None
    def pres():
        s = Subst()
        for k, v in pre.items(): s[L.build(k, env)] = L.build(v, env)
        return s
    s0 = pres()
    names = L.names_of(env)
    heap = [L.raw(t) for t in (*X, *Y)]
    want = {}
    for al in itertools.permutations(range(len(ys)), len(xs)):
        s = dict(pre)
        for i, j in enumerate(al):
            s = L.match(xs[i], ys[j], s)
            if s is None: break
        if s is not None: want[al] = key(s)
    got = {}
    for (S, A, R) in X.covers(Y, s=s0) if pre else X.covers(Y):
        al = [None] * len(xs)
        for j, i in A.items(): al[i] = j
        al = tuple(al)
        if al in got: return f'alignment {al} listed twice'
        if list(R) != [j for j in range(len(ys)) if j not in al]: return f'leftover positions {R} for alignment {al}'
        got[al] = key({L.read(k, names): L.read(v, names) for k, v in S.items()})
    if set(got) != set(want): return f'alignments {sorted(got)}, expected {sorted(want)}'
    if got != want: return 'a substitution is not the one of its alignment'
    if dict(s0) != dict(pres()): return 'the given substitution was modified'
    full = [v for al, v in want.items()] if len(xs) == len(ys) else []
    res = [key({L.read(k, names): L.read(v, names) for k, v in S.items()}) for S in (X.match_comm(Y, s=pres()) if pre else X.match_comm(Y))]
    if sorted(map(repr, map(sorted, res))) != sorted(map(repr, map(sorted, full))): return f'commutative matching: {len(res)} alignments, expected {len(full)}'
    if [L.raw(t) for t in (*X, *Y)] != heap: return 'terms modified'
