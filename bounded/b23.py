"""C23: Interval arithmetic and Min/Max against enumeration of members; symbolic bounds evaluated under every small assignment."""
import itertools
RULE = 'intervals with integer, half-integer and infinite ends; sums, differences, iterated sums of 0-5 intervals; Min/Max of 1-4 numbers or z3 terms, mixed, evaluated under random assignments; non-trivial: two or more operands'
INF = float('inf')

def cases(rng, tier):
    ends = [-INF, -3, -1, 0, 1, 2, 5, INF]
    ivs = [(a, b) for a in ends for b in ends if a <= b and not (a == b and abs(a) == INF)]
    for x, y in itertools.product(ivs, ivs): yield ('bin', x, y)
    for _ in range(1500 if tier == 'quick' else 30000):
        r = rng.random()
        if r < .4: yield ('sum', [rng.choice(ivs) for _ in range(rng.randint(0, 5))])
        elif r < .7: yield ('minmax', [rng.choice([rng.randint(-4, 4), ('x', rng.randrange(3)), ('+', rng.randrange(3), rng.randint(-3, 3))]) for _ in range(rng.randint(1, 4))], [rng.randint(-4, 4) for _ in range(3)])
        else: yield ('sym', [((rng.randrange(3), rng.randint(-2, 2)), (rng.randrange(3), rng.randint(-2, 2))) for _ in range(rng.randint(1, 3))], [rng.randint(-4, 4) for _ in range(3)], rng.choice(['sum', 'sub']))

def nontrivial(case): return True
def members(iv):
    a, b = iv
    lo = a if a > -INF else (min(b, 0) - 7 if b < INF else -7)
    hi = b if b < INF else max(a, 0) + 7 if a > -INF else 7
    return sorted({lo, hi, (lo + hi) / 2})
def inside(v, I): return I.lo <= v <= I.hi

def check(case):
    import z3
    from dyna.transform.measure import Interval, Min, Max
    if case[0] == 'bin':
        _, x, y = case
        A, B = Interval(*x), Interval(*y)
        S, D = A + B, A - B
        for a in members(x):
            for b in members(y):
                if not inside(a + b, S): return f'{a}+{b} not in {S}'
                if not inside(a - b, D): return f'{a}-{b} not in {D}'
        # ends are attained when finite, unbounded exactly when an operand is
        for nm, I, lo, hi in (('+', S, x[0] + y[0], x[1] + y[1]), ('-', D, x[0] - y[1], x[1] - y[0])):
            if I.lo != lo or I.hi != hi: return f'{x} {nm} {y} = {I}, tight bounds {lo, hi}'
        if (A == B) != (x == y): return f'equality of {x} and {y}'
        if (A.lo, A.hi, B.lo, B.hi) != (*x, *y): return 'operand modified'
    elif case[0] == 'sum':
        xs = [Interval(*x) for x in case[1]]
        S = Interval.sum(iter(xs))
        import random
        for pick in itertools.islice(itertools.product(*[members(x) for x in case[1]]), 100):
            if not inside(sum(pick), S): return f'sum of {pick} not in {S}'
        if (Interval.zero.lo, Interval.zero.hi) != (0, 0): return 'zero modified'
        if S.lo != sum(x[0] for x in case[1]) or S.hi != sum(x[1] for x in case[1]): return f'sum of {case[1]} is {S}'
    elif case[0] == 'minmax':
        X = [z3.Int(f'x{i}') for i in range(3)]
        def mk(t): return t if isinstance(t, int) else X[t[1]] if t[0] == 'x' else X[t[1]] + t[2]
        def val(t): return t if isinstance(t, int) else case[2][t[1]] if t[0] == 'x' else case[2][t[1]] + t[2]
        env = [(X[i], z3.IntVal(case[2][i])) for i in range(3)]
        for f, g in ((Min, min), (Max, max)):
            r = f([mk(t) for t in case[1]])
            v = r if isinstance(r, int) else z3.simplify(z3.substitute(r, *env)).as_long()
            if v != g(map(val, case[1])): return f'{f.__name__}({case[1]}) under {case[2]} is {v}'
    else:
        X = [z3.Int(f'x{i}') for i in range(3)]
        env = [(X[i], z3.IntVal(case[2][i])) for i in range(3)]
        def ev(t): return t if isinstance(t, int) else z3.simplify(z3.substitute(t, *env)).as_long()
        vals = [tuple(case[2][i] + c for i, c in iv) for iv in case[1]]
        ivs = [Interval(*[X[i] + c for i, c in iv]) for iv in case[1]]
        if case[3] == 'sum': R = Interval.sum(ivs); want = (sum(v[0] for v in vals), sum(v[1] for v in vals))
        else:
            R, want = ivs[0], vals[0]
            for I, v in zip(ivs[1:], vals[1:]): R = R - I; want = (want[0] - v[1], want[1] - v[0])
        if (ev(R.lo), ev(R.hi)) != want: return f'symbolic {case[3]}: {(ev(R.lo), ev(R.hi))}, expected {want}'
