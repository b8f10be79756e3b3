"""C19: solver2 (non-ground items) against the ground expansion."""
import random, itertools
from . import plib as P, tlib as L
from .b17 import recursive
RULE = 'programs whose facts and rule heads contain variables that no subgoal binds (repeated variables and functors included); ground expansion over the program constants plus one constant that occurs nowhere; a body-only variable that stays unbound stands for infinitely many instances (value infinite; non-recursive programs only); every ground atom compared, as well as user_query and point queries'
CASE_LIMIT = 25

def term(rng, pool, f=.1):
    r = rng.random()
    if r < .12: return P.Cn(rng.choice([0, 1]))
    if r < .12 + f: return P.T('f', rng.choice(pool))
    return rng.choice(pool)

def gen(rng):
    preds = [('a', 2), ('b', rng.choice([1, 2])), ('p', rng.choice([1, 2])), ('q', rng.choice([1, 2])), ('e', 2)]
    rules = []
    for _ in range(rng.randint(1, 3)):
        rules.append((P.T('e', P.Cn(rng.choice([0, 1])), P.Cn(rng.choice([0, 1, 2]))), [('w', rng.choice([1.0, .5, 2.0]))]))
    for lvl, (f, n) in enumerate(preds[:4]):
        for _ in range(rng.randint(1, 2)):
            pool = [P.V(i) for i in range(rng.randint(1, 3))]
            body = []
            if lvl or rng.random() < .3:
                for _ in range(rng.choice([0, 1, 1, 2, 2])):
                    g, m = rng.choice(preds[:lvl] + [('e', 2)] + ([(f, n)] if rng.random() < .15 else []))
                    body.append(P.T(g, *[term(rng, pool) for _ in range(m)]))
            w = rng.choice([1.0, .5, 2.0, 3.0]) if not any(b[1] == f for b in body) else 0.125
            head = P.T(f, *[term(rng, pool) for _ in range(n)])
            rules.append((head, ([('w', w)] if w != 1.0 or not body else []) + body))
    return rules

def modes_ok(rules):
    "no body-only variable may match an unbound position"
    free = set()
    while True:
        new = set()
        for h, body in rules:
            bound = set()
            for b in body:
                if b[0] == 't':
                    for k, a in enumerate(b[2]):
                        if (b[1], k) not in free: bound |= set(L.variables(a))
            for k, a in enumerate(h[2]):
                if not set(L.variables(a)) <= bound: new.add((h[1], k))
        if new <= free: break
        free |= new
    for h, body in rules:
        bound = set()
        for b in body:
            if b[0] == 't':
                for k, a in enumerate(b[2]):
                    if (b[1], k) not in free: bound |= set(L.variables(a))
        only = {v for b in body if b[0] == 't' for v in L.variables(b)} - set(L.variables(h))
        if not only <= bound: return False
    return True

def cases(rng, tier):
    n = 0
    while n < (1800 if tier == 'quick' else 30000):
        rules = gen(rng)
        if not modes_ok(rules) and (recursive(rules) or rng.random() < .5): continue
        n += 1
        yield ('ng', rules, rng.random())

def nontrivial(case): return True

def domain():
    D = lvl = [P.Cn(0), P.Cn(1), P.Cn(2), P.Cn('zz')]
    for _ in range(3):
        lvl = [P.T('f', d) for d in lvl]; D = D + lvl
    return D

INF = float('inf')
def generic(t, y): return t == y if t[0] == 'c' else any(generic(a, y) for a in t[2])
def marked(t): return {t} if t[0] == 'c' and isinstance(t[1], tuple) else set().union(*map(marked, t[2])) if t[0] == 't' else set()
def fclosure(xs):
    out, lvl = [], list(xs)
    for _ in range(4):
        out += lvl; lvl = [P.T('f', d) for d in lvl]
    return out
def differ(got, w, tol): return got != w if INF in (got, w) else not abs(got - w) <= tol * max(1, abs(w))

class Ref:
    "value of a ground atom = sum over rules, over groundings of the rule with that head, of the product (top-down, depth-limited)"
    def __init__(self, rules, depth=10):
        self.rules = [(h, body, [v for v in L.variables(('t', 'B', tuple(b for b in body if b[0] == 't'))) if v not in L.variables(h)]) for h, body in rules]
        self.memo, self.D, self.depth, self.work = {}, domain(), depth, 0
    def value(self, g, k=None):
        k = self.depth if k is None else k
        if k == 0: return 0.0
        if (g, k) in self.memo: return self.memo[g, k]
        tot = 0.0
        for h, body, only in self.rules:
            if h[1] != g[1] or len(h[2]) != len(g[2]): continue
            s = L.match(h, g)
            if s is not None:
                # ('y', k) stands for each of the infinitely many constants mentioned nowhere else
                dom = self.D + fclosure(sorted(marked(g), key=repr) + [P.Cn(('y', k))]) if only else ()
                tot += self.body([b for b in body], dict(s), k, dom)
        self.memo[g, k] = tot
        return tot
    def body(self, items, s, k, dom):
        self.work += 1
        if self.work > 60000: raise P.Diverges('too much work')
        if not items: return 1.0
        b, rest = items[0], items[1:]
        if b[0] == 'w': return b[1] * self.body(rest, s, k, dom)
        g = L.subs(s, b)
        vs = L.variables(g)
        if vs:
            v = vs[0]
            tot = 0.0
            for d in dom:
                x = self.body(items, {**s, v: d}, k, dom)
                tot += INF if x and generic(d, P.Cn(('y', k))) else x
            return tot
        x = self.value(g, k - 1)
        y = x and self.body(rest, s, k, dom)
        return y and x * y

SMALL = [P.Cn(0), P.Cn(1), P.Cn(2), P.Cn('zz'), P.T('f', P.Cn(1))]
def check(case):
    _, rules, seed = case
    R, R9 = Ref(rules), Ref(rules, 9)
    class want:
        @staticmethod
        def get(g, _):
            v = R.value(g)
            if differ(R9.value(g), v, 1e-6): raise P.Diverges('slow')
            return v
    try:
        for f, n in sorted({(h[1], len(h[2])) for h, _ in rules}):
            for a in itertools.product(SMALL, repeat=n): want.get(P.T(f, *a), 0)
        return run(rules, seed, want)
    except P.Diverges: return 'skip'

def run(rules, seed, want):
    from dyna import Program, Term
    from dyna.term import Var
    rng = random.Random(seed)
    tol = 2e-3 if recursive(rules) else 1e-6
    order = list(rules); rng.shuffle(order)
    p = Program(P.text(order))
    s = p.solver2()('') or None
    items = [(L.canon_keep(L.read(r.head, {})), r) for r in s.sol()]
    seen = set()
    vals = []
    for t, r in items:
        if t in seen: return f'two chart entries for variants of {P.show(t)}'
        seen.add(t)
        v = 1.0
        for b in r.body: v *= P.tofloat(b)
        vals.append((t, v))
    def total(vs, g): return sum(v for t, v in vs if t[1] == g[1] and len(t[2]) == len(g[2]) and L.match(t, g) is not None)
    preds = {(h[1], len(h[2])) for h, _ in rules}
    small = SMALL
    for f, n in sorted(preds):
        for a in itertools.product(small, repeat=n):
            g = P.T(f, *a)
            got, w = total(vals, g), want.get(g, 0.0)
            if differ(got, w, tol): return f'total of {P.show(g)} over the chart: {got}, ground expansion {w}'
    # queries
    for _ in range(3):
        f, n = rng.choice(sorted(preds))
        q = P.T(f, *[rng.choice([P.V(0), P.V(1), P.Cn(0), P.Cn(1), P.T('f', P.V(0)), P.Cn('zz')]) for _ in range(n)])
        env = {}
        Q = L.build(q, env)
        raw = L.raw(Q)
        ans = s.user_query(Q)
        if L.raw(Q) != raw: return 'query term modified'
        av = []
        for r in ans:
            v = 1.0
            for b in r.body: v *= P.tofloat(b) if not isinstance(b, (Term, Var)) else 1 / 0
            av.append((L.read(r.head, {}), v))
        for a in itertools.product(small, repeat=n):
            g = P.T(f, *a)
            w = want.get(g, 0.0) if L.match(q, g) is not None else 0.0
            got = total(av, g)
            if differ(got, w, tol): return f'query {P.show(q)}: {P.show(g)} gets {got}, ground expansion {w}'
