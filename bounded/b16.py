"""C16: built-in relations as relations (Builtins dispatch, comparison subgoals, $not_matches)."""
import itertools
RULE = 'every operator x every subset of known arguments x values from {-3..4, 1/2, strings, booleans}; solutions compared with the relation over that domain (division by zero and mistyped operands excluded); is_ready against actual behaviour'
NUM = [-3, -2, -1, 0, 1, 2, 3, 4, 0.5, 1.5]
STR = ['', 'a', 'b', 'ab', 'abb']
REL1 = {'-': lambda v, a: v == -a, '+': lambda v, a: v == a, 'abs': lambda v, a: v == abs(a)}
REL2 = {'+': lambda v, a, b: v == a + b, '*': lambda v, a, b: v == a * b, '-': lambda v, a, b: a == v + b, '/': lambda v, a, b: a == v * b,
        'min': lambda v, a, b: v == min(a, b), 'max': lambda v, a, b: v == max(a, b),
        '<': lambda v, a, b: v is (a < b), '>': lambda v, a, b: v is (a > b), '<=': lambda v, a, b: v is (a <= b), '>=': lambda v, a, b: v is (a >= b), '==': lambda v, a, b: v is (a == b), '!=': lambda v, a, b: v is (a != b)}
CMP = ('<', '>', '<=', '>=', '==', '!=')
# argument masks (v, a, b) a relation must be able to answer
READY2 = {'+': {(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)}, '*': {(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)}, '-': {(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)},
          '/': {(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)}, 'min': {(1, 1, 1), (0, 1, 1)}, 'max': {(1, 1, 1), (0, 1, 1)}}
for o in CMP: READY2[o] = {(1, 1, 1), (0, 1, 1)}

def cases(rng, tier):
    for op in REL1:
        for v, a in itertools.product(NUM, NUM):
            for m in itertools.product((0, 1), repeat=2): yield ('un', op, (v, a), m)
    allc = []
    for op in REL2:
        for v, a, b in itertools.product([True, False] if op in CMP else NUM[1:9:2] + [0, 2, 3.0], NUM[::2] + [0, 3], NUM[1::2] + [-3]):
            for m in itertools.product((0, 1), repeat=3): allc.append(('bin', op, (v, a, b), m))
    rng.shuffle(allc)
    yield from (allc[:6000] if tier == 'quick' else allc)
    for v, a, b in itertools.product(STR, STR, STR):
        for m in itertools.product((0, 1), repeat=3): yield ('str', '+', (v, a, b), m)
    for a, b, x in itertools.product(range(-2, 4), range(-2, 4), range(-3, 5)):
        yield ('range', a, b, x, 1); yield ('range', a, b, x, 0)
    for x in [True, False, 1, 0, 'a', 1.5, 'abc', -2]:
        for v in [True, False]:
            for m in ((1, 1), (0, 1)): yield ('type', x, v, m)
    for v, a in itertools.product([True, False], repeat=2):
        for m in itertools.product((0, 1), repeat=2): yield ('not', v, a, m)
    from . import tlib as L
    from .b03 import inst_of
    for i in range(800 if tier == 'quick' else 20000):
        x = L.gen(rng, 2, 2); y = inst_of(rng, x, 2, 10) if rng.random() < .6 else L.gen(rng, 2, 2, 10)
        yield ('nm', x, y)
    for op in CMP:
        for a, b in itertools.product(NUM[::2], NUM[1::2] + [0, 3]): yield ('cmp', op, a, b)
        for a, b in itertools.product(STR, STR): yield ('cmp', op, a, b)

def nontrivial(case): return True

def solve(q, vs, cap=40):
    from dyna.builtin import Builtins
    from dyna.term import deref, Var
    from dyna.exceptions import InstFault
    out = []
    try:
        for _ in Builtins(_program())(q):
            out.append(tuple(deref(v) for v in vs))
            if len(out) >= cap: break
    except InstFault: return None
    except ZeroDivisionError: return 'zerodiv'
    return out

def near(a, b): return a == b and (type(a) is bool) == (type(b) is bool) or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and abs(a - b) < 1e-9)
def covers(sol, tup):
    from dyna.term import Var
    env = {}
    for s, t in zip(sol, tup):
        if isinstance(s, Var):
            if s in env and not near(env[s], t): return False
            env[s] = t
        elif not near(s, t): return False
    return True

def check(case):
    from dyna.term import Term, Var, is_ground, unify, unifies
    from dyna.builtin import Builtins
    kind = case[0]
    def arg(x, known): return x if known else Var()
    if kind in ('un', 'bin', 'str'):
        op, vals, mask = case[1:]
        rel = (REL1 if kind == 'un' else REL2)[op]
        args = [arg(x, m) for x, m in zip(vals, mask)]
        q = Term('is', args[0], Term(op, *args[1:]))
        sols = solve(q, args)
        if sols == 'zerodiv': return 'skip'
        if solve_ready(q) != (sols is not None): return f'is_ready disagrees with evaluation of {q}'
        must = tuple(mask) in READY2[op] if kind == 'bin' else (sum(mask) >= 1 if kind == 'un' else (mask[1] and mask[2] or mask[0]))
        if sols is None: return f'{q} is not answered although enough is known' if must else None
        dom = STR if kind == 'str' else ([True, False] if op in CMP else NUM + [6, 8, -6])
        doms = [[x] if m else (dom if i or op not in CMP else [True, False]) for i, (x, m) in enumerate(zip(vals, mask))]
        for t in itertools.product(*doms):
            ok = safe(rel, *t)
            n = sum(covers(s, t) for s in sols)
            if ok and n == 0: return f'{q}: missing solution {t}; got {sols}'
            if not ok and n: return f'{q}: wrong solution {t}'
            if n > 1: return f'{q}: solution {t} given {n} times'
        for s in sols:
            if all(is_ground(x) for x in s) and not approx(rel, s): return f'{q}: wrong solution {s}'
    elif kind == 'range':
        _, a, b, x, known = case
        X = arg(x, known)
        sols = solve(Term('is', True, Term('range', X, a, b)), [X])
        want = [(y,) for y in range(a, b) if not known or y == x]
        if sols != want: return f'range({X},{a},{b}): {sols}, expected {want}'
    elif kind == 'type':
        _, x, v, m = case
        for op, f in (('int', lambda y: isinstance(y, int)), ('str', lambda y: isinstance(y, str))):
            V = arg(v, m[0])
            sols = solve(Term('is', V, Term(op, x)), [V])
            want = [(f(x),)] if not m[0] or v is f(x) else []
            if sols != want: return f'{V} is {op}({x!r}): {sols}, expected {want}'
    elif kind == 'not':
        _, v, a, m = case
        V, A = arg(v, m[0]), arg(a, m[1])
        sols = solve(Term('is', V, Term('!', A)), [V, A])
        if not any(m): return None if sols is None else f'!: answered with nothing known: {sols}'
        want = [t for t in itertools.product([v] if m[0] else [True, False], [a] if m[1] else [True, False]) if t[0] is (not t[1])]
        if sols is None or sorted(sols) != sorted(want): return f'not: {sols}, expected {want}'
    elif kind == 'nm':
        from . import tlib as L
        from dyna.builtin import NotMatchesConstraint, not_matches3, lam
        env = {}
        X, Y = L.build(case[1], env), L.build(case[2], env)
        overlap = L.unify(L.strip(case[1]), L.strip(case[2])) is not None
        cov = L.match(case[1], case[2]) is not None
        rs = list(NotMatchesConstraint('$not_matches', lam(X), Y).run(_program()))
        if cov and rs: return 'negated match kept although every instance matches'
        if not overlap and not (len(rs) == 1 and not any(isinstance(b, Term) for b in rs[0].body)): return f'negated match not discharged although nothing can match: {rs}'
        if overlap and not cov and not (len(rs) == 1 and len(rs[0].body) == 1 and isinstance(rs[0].body[0], Term)): return f'undecided negated match not delayed: {rs}'
    elif kind == 'cmp':
        _, op, a, b = case
        import operator
        from dyna import Program
        want = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        from dyna.builtin import cmps
        if bool(cmps[op](a, b)) != want: return f'{a!r} {op} {b!r}'
        n = list(Program('').lookup(Term(op, a, b)))
        if bool(n) != want or len(n) > 1: return f'lookup of {a!r} {op} {b!r}: {n}'
        from dyna.execute.solver import Solver
        n = list(Solver(Program('p(1).')).lookup_vals(Term(op, a, b)))
        if bool(n) != want or len(n) > 1: return f'solver lookup of {a!r} {op} {b!r}: {n}'

def safe(rel, *t):
    try: return bool(rel(*t))
    except TypeError: return False
def approx(rel, s):
    from fractions import Fraction
    try: return safe(rel, *s) or safe(lambda *t: True, *s) and any(isinstance(x, float) for x in s)
    except Exception: return True
def solve_ready(q):
    from dyna.builtin import Builtins
    try: return Builtins(_program()).is_ready(q)
    except ZeroDivisionError: return None

_P = []
def _program():
    if not _P:
        from dyna import Program
        _P.append(Program('k.'))
    return _P[0]
