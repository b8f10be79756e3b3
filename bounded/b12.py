"""C12: kleene / kleene_linsolve against path sums in commutative and non-commutative semirings."""
import random
from fractions import Fraction
from . import plib as P, tlib as L
RULE = 'matrices up to 6x6 over truncated non-commutative formal power series (exact rationals), truncated languages, Boolean, min-plus and reals with contraction; linear programs against direct iteration; blockwise closure against the whole; non-trivial: at least one non-zero entry'
CASE_LIMIT = 30
LEN = 5

def cases(rng, tier):
    for i in range(2500 if tier == 'quick' else 40000):
        n = rng.randint(1, 6)
        kind = ['series', 'lang', 'bool', 'minplus', 'float', 'prog'][i % 6]
        if kind == 'prog':
            g = P.Gen(random.Random(rng.random()), nconst=rng.choice([2, 3]), functions=False, builtins=False, nonlinear=False, maxbody=1, recursion=.6, nrules=(1, 5))
            rules = [(h, [b for b in body if b[0] == 'w'] + [b for b in body if b[0] == 't'][:1]) for h, body in g.program()]
            yield ('prog', rules, g.facts(rng.randint(2, 7)), g.idb)
            continue
        A = {}
        for a in range(n):
            for b in range(n):
                if rng.random() < min(1, 1.7 / n):
                    if kind in ('series', 'lang'): A[a, b] = tuple(sorted({''.join(rng.choice('ab') for _ in range(rng.randint(1, 2))) for _ in range(rng.randint(1, 2))})) if kind == 'lang' or rng.random() < .8 else (chr(99 + a) + chr(99 + b),)
                    elif kind == 'bool': A[a, b] = True
                    elif kind == 'minplus': A[a, b] = rng.randint(0, 9)
                    else: A[a, b] = rng.choice([0.05, 0.1, 0.15])
        yield (kind, n, A, rng.random() < .5)

def nontrivial(case): return bool(case[2])

class Series:
    "formal power series in non-commuting letters, truncated at length LEN"
    def __init__(self, d): self.d = {k: v for k, v in d.items() if v}
    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items(): d[k] = d.get(k, 0) + v
        return Series(d)
    def __mul__(self, o):
        d = {}
        for k, v in self.d.items():
            for k2, v2 in o.d.items():
                if len(k) + len(k2) <= LEN: d[k + k2] = d.get(k + k2, 0) + v * v2
        return Series(d)
    def __eq__(self, o): return isinstance(o, Series) and self.d == o.d
    def __hash__(self): return 0
    def star(self):
        assert '' not in self.d
        out = p = Series.one
        for _ in range(LEN): p = p * self; out = out + p
        return out
    def __repr__(self): return repr(self.d)
Series.zero, Series.one = Series({}), Series({'': Fraction(1)})
class Lang:
    def __init__(self, s): self.s = frozenset(s)
    def __add__(self, o): return Lang(self.s | o.s)
    def __mul__(self, o): return Lang(a + b for a in self.s for b in o.s if len(a) + len(b) <= LEN)
    def __eq__(self, o): return isinstance(o, Lang) and self.s == o.s
    def __hash__(self): return 0
    def star(self):
        out = Lang([''])
        while True:
            new = out + out * self
            if new == out: return out
            out = new
    def __repr__(self): return repr(sorted(self.s))
Lang.zero, Lang.one = Lang([]), Lang([''])

def check(case):
    import numpy as np
    if case[0] == 'prog':
        from dyna import Program
        _, rules, facts, idb = case
        try: want = P.evaluate(rules, facts, iters=300)
        except P.Diverges: return 'skip'
        got = P.chart_of_program(Program(P.text(rules + facts)).solve_linear())
        d = P.diff(got, want, None, 1e-6)
        if d: return f'solve_linear: {d}'
        x = P.extra(got, want)
        return f'solve_linear: spurious {x}' if x else None
    from dyna.execute.linear import kleene
    from semirings import Boolean, MinPlus, Float
    kind, n, A0, refl = case
    mk, S = {'series': (lambda v: Series({w: Fraction(1 + len(w), 2) for w in v}), Series), 'lang': (Lang, Lang), 'bool': (Boolean, Boolean), 'minplus': (lambda v: MinPlus(v, None), MinPlus), 'float': (float, Float)}[kind]
    zero, one = S.zero, S.one
    def mat(n):
        M = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n): M[i, j] = zero
        return M
    A = mat(n)
    for (i, j), v in A0.items(): A[i, j] = mk(v)
    keep = [[A[i, j] for j in range(n)] for i in range(n)]
    def mul(X, Y):
        Z = mat(n)
        for i in range(n):
            for j in range(n):
                acc = zero
                for k in range(n): acc = acc + X[i, k] * Y[k, j]
                Z[i, j] = acc
        return Z
    def add(X, Y):
        Z = mat(n)
        for i in range(n):
            for j in range(n): Z[i, j] = X[i, j] + Y[i, j]
        return Z
    I = mat(n)
    for i in range(n): I[i, i] = one
    def eq(x, y):
        if kind == 'float': return abs(float(x) - float(y)) < 1e-6
        return x == y
    want, pw = (I if refl else mat(n)), I
    for _ in range({'series': LEN, 'lang': LEN, 'bool': n + 1, 'minplus': n + 1, 'float': 250}[kind]):
        pw = mul(pw, A); want = add(want, pw)
    got = kleene(A, S, reflexive=refl)
    for i in range(n):
        for j in range(n):
            if not eq(got[i, j], want[i, j]): return f'closure[{i},{j}] = {got[i, j]}, path sum {want[i, j]}'
            if not eq(A[i, j], keep[i][j]): return 'the input matrix was modified'
    # blockwise: closure of a block upper triangular matrix from its blocks
    if n >= 2:
        m = n // 2
        B = mat(n)
        for i in range(n):
            for j in range(n):
                if not (i >= m and j < m): B[i, j] = A[i, j]
        W = kleene(B, S, reflexive=True)
        X, Y = kleene(B[:m, :m], S), kleene(B[m:, m:], S)
        for i in range(m):
            for j in range(m, n):
                acc = zero
                for k in range(m):
                    for l in range(n - m): acc = acc + X[i, k] * B[k, m + l] * Y[l, j - m]
                if not eq(W[i, j], acc): return f'blockwise closure differs at {i},{j}: {W[i, j]} vs {acc}'
        for i in range(m):
            for j in range(m):
                if not eq(W[i, j], X[i, j]): return 'diagonal block differs'
