"""C32: printing and parsing are inverse; precedence and associativity against an independent reader of the operator table."""
import random, re
from . import plib as P, tlib as L
RULE = 'random terms (every operator, prefix and postfix, nested in argument, list and operator positions; quoted, reserved and unicode functors; strings with quotes, backslashes and control characters; numbers of both signs; lists, improper lists; variables with clashing, primed and generated names), random rules and programs with declarations; flat operator sequences against an independent precedence table'
CASE_LIMIT = 20
# the documented table (higher binds tighter)
TABLE = [('^', 8, 'R'), ('/', 7.5, 'L'), ('//', 7.5, 'L'), ('\\', 7.5, 'L'), ('#', 7.2, 'L'), ('@', 7.1, 'L'), ('*', 7, 'L'), ('-', 6.5, 'L'), ('+', 6, 'L'), (':', 4.1, 'L'), ('==', 4, 'N'), ('!=', 4, 'N'), ('=/=', 4, 'N'), ('∈', 4, 'N'),
         ('is', 3.9, 'R'), ('<-', 3.9, 'R'), ('->', 3.9, 'R'), ('-->', 3.9, 'R'), ('<--', 3.9, 'R'), ('~>', 3.9, 'R'), ('<~', 3.9, 'R'), ('~', 3.9, 'R'), ('::', 3.9, 'R'), ('=>', 3.8, 'R'), ('↦', 3.8, 'L'), ('&', 3, 'R'), ('|', 2, 'R'), ('=', 1.5, 'N'), (',', 1.1, 'L'), (';', 0, 'L')]
CMP = ['<', '>', '<=', '>=']
PREFIX = ['not', '-', '+', '~', '&', '!', '?', '*']
BIN = [o for o, _, _ in TABLE] + CMP
FUNCTORS = ['f', 'g', 'foo_Bar', 'a b', 'X', 'true', 'false', 'not', 'is', 'for', 'inf', '+', '<', 'α', 'f2', '_x', '$$y', "f'", '%', 'a%b', '.', 'x.y', '()', '[]', '$f', '0', 'node-1', 'input', 'Cap', '"q', '\\', '∘', 'f☐', '+=', ':-', '$cons', '$nil', '!']
NAMES = ['X', 'Y', "X'", '$X1', 'X1', '$X', '$Gen1', 'Xs', 'Α', 'X_1', '$$X', '$$X1']
STRINGS = ['', 'a', 'it\'s', 'say "hi"', '\\', 'a\\', '\\"', 'a\nb', 'tab\t', '%', 'X', '\\n', '∞', '"', "''", '. ', 'λ', '\\\\', 'ends\\\\', '\x07', '\r', 'a"\\']

def term(rng, d, vs):
    r = rng.random()
    if d <= 0 or r < .12:
        r = rng.random()
        if r < .35: return rng.choice(vs)
        if r < .5: return P.T(rng.choice(FUNCTORS[:12] if rng.random() < .6 else FUNCTORS[:-3]))
        if r < .65: return P.Cn(rng.choice(STRINGS))
        if r < .72: return P.Cn(rng.choice([True, False]))
        return P.Cn(rng.choice([0, 1, -3, 42, 2.5, -0.5, 1e-7, 1e+22, 1.0, float('inf'), -1e300, 10 ** 20]))
    if r < .45: return P.T(rng.choice(BIN), term(rng, d - 1, vs), term(rng, d - 1, vs))
    if r < .6: return P.T(rng.choice(PREFIX), term(rng, d - 1, vs))
    if r < .75:
        t = rng.choice([P.T('$nil'), P.T('$nil'), rng.choice(vs), P.T('f', rng.choice(vs)), term(rng, d - 1, vs)])
        for _ in range(rng.randint(1, 3)): t = P.T('$cons', term(rng, d - 1, vs), t)
        return t
    f = rng.choice(FUNCTORS) if rng.random() < .5 else rng.choice(BIN + PREFIX)
    return P.T(f, *[term(rng, d - 1, vs) for _ in range(rng.choice([1, 1, 2, 3, 3]))])

def flat(rng):
    n = rng.randint(2, 5)
    while True:
        ops = [rng.choice(TABLE[:-2] if rng.random() < .7 else TABLE) for _ in range(n)]
        pr = {o: p for o, p, _ in TABLE}
        # operators of one precedence have to agree on the associativity, and then they group together
        if any(a[2] != b[2] and a[1] == b[1] for a in ops for b in ops): continue
        if any(a[2] == 'N' and sum(b[1] == a[1] for b in ops) > 1 for a in ops): continue
        return ops

def expected(xs, ops):
    if not ops: return xs[0]
    low = min(o[1] for o in ops)
    ix = [i for i, o in enumerate(ops) if o[1] == low]
    i = ix[0] if ops[ix[0]][2] == 'R' else ix[-1]
    return P.T(ops[i][0], expected(xs[:i + 1], ops[:i]), expected(xs[i + 1:], ops[i + 1:]))

def cases(rng, tier):
    for i in range(12000 if tier == 'quick' else 300000):
        vs = [('v', (rng.choice(NAMES), k)) for k in range(4)]
        k = i % 4
        if k == 0: yield ('term', term(rng, rng.choice([1, 2, 3]), vs))
        elif k == 1:
            def sub():
                while True:
                    t = term(rng, rng.choice([0, 1, 2]), vs)
                    if not (t[0] == 't' and (t[1] in ('*', ',', ';', '+=', ':-', '$declare') )): return t
            def hd():
                while True:
                    t = term(rng, rng.choice([1, 2]), vs)
                    if t[0] == 't' and t[1] not in ('+=', ':-', '$declare'): return t
            yield ('rule', [(hd(), [sub() for _ in range(rng.choice([0, 1, 2, 3]))]) for _ in range(rng.randint(1, 3))])
        elif k == 2:
            ops = flat(rng)
            xs = [rng.choice([P.T('a'), P.T('b'), P.Cn(3), P.T('f', P.T('c'))]) for _ in range(len(ops) + 1)]
            yield ('flat', xs, ops)
        else:
            g = P.Gen(random.Random(rng.random()), nconst=3, functions=True, builtins=True)
            yield ('program', g.program(), rng.random() < .5, rng.random() < .5)

def nontrivial(case): return True

def mk(t, env):
    from dyna.term import Term, Var
    if t[0] == 'v': return env.setdefault(t[1], Var(t[1][0]))
    if t[0] == 'c': return t[1]
    return Term(t[1], *[mk(a, env) for a in t[2]])

def read(x, m):
    from dyna.term import Term, Var
    if isinstance(x, Var): return ('v', m.setdefault(id(x), len(m)))
    if isinstance(x, Term): return ('t', str(x.fn), tuple(read(a, m) for a in x.args))
    return ('c', type(x).__name__, x)

def expect_read(t, m):
    if t[0] == 'v': return ('v', m.setdefault(t[1], len(m)))
    if t[0] == 't': return ('t', t[1], tuple(expect_read(a, m) for a in t[2]))
    return ('c', type(t[1]).__name__, t[1])

def check(case):
    from dyna import Program, Rule
    from dyna.pretty import pp, PrettyPrinter
    from dyna.syntax import term as parse, Parser
    kind = case[0]
    if kind == 'term':
        x = mk(case[1], {})
        s = pp(x, color=False)
        try: y = parse(s)
        except Exception as e: return f'{case[1]} prints as {s!r}, which does not parse ({type(e).__name__})'
        if read(y, {}) != expect_read(case[1], {}): return f'{case[1]} prints as {s!r}, which parses as {read(y, {})}'
        q = PrettyPrinter(color=False)
        ids = {}
        for v in L.variables(case[1]): ids.setdefault(v[1], None)
        env = {}; x = mk(case[1], env); q(x)
        shown = [q(v) for v in env.values()]
        if len(set(shown)) != len(shown): return f'distinct variables of {case[1]} are both shown as {shown}'
    elif kind == 'rule':
        rs = []
        for h, b in case[1]:
            env = {}
            rs.append(Rule(mk(h, env), *[mk(x, env) for x in b]))
        from dyna.syntax import parser
        text = '\n'.join(pp(r, color=False) + '.' for r in rs)
        try: out = parser(text)
        except Exception as e: return f'rules {case[1]} print as {text!r}, which does not parse ({type(e).__name__})'
        if len(out) != len(rs): return f'rules {case[1]} print as {text!r}, which parses as {len(out)} rules'
        for (h, b), r in zip(case[1], out):
            m, n = {}, {}
            want = (expect_read(h, m), [expect_read(x, m) for x in b]); got = (read(r.head, n), [read(x, n) for x in r.body])
            if want != got: return f'rule {(h, b)} prints as {text!r}, which parses as {got}'
    elif kind == 'flat':
        xs, ops = case[1], case[2]
        s = P.show(xs[0]) + ''.join(f' {o} {P.show(x)}' for (o, _, _), x in zip(ops, xs[1:]))
        try: y = parse(s)
        except Exception as e: return f'{s!r} does not parse ({type(e).__name__})'
        w = expected(xs, ops)
        if read(y, {}) != expect_read(w, {}): return f'{s!r} parses as {read(y, {})}, expected {w}'
    else:
        _, rules, ins, outs = case
        p = Program(P.text(rules), inputs=Program('e(X,Y). n(X). w(X,Y).') if ins else None, outputs=Program('p(X).\nq("a b",Y).') if outs else None)
        s = p.plaintext()
        try: q = Program(s)
        except Exception as e: return f'{P.text(rules)!r} prints as {s!r}, which does not parse ({type(e).__name__})'
        f = lambda p: [str(L.canon(P.T('rule', h, *b2))) for h, b in P.rules_of(p) for b2 in [[P.Cn(x[1]) if x[0] == 'w' else x for x in b]]] if p is not None else []
        if f(p) != f(q): return f'{P.text(rules)!r} prints as {s!r}, which parses as {q.plaintext()!r}'
        if f(p.inputs) != f(q.inputs) or f(p.outputs) != f(q.outputs): return f'{P.text(rules)!r}: declarations print as {s!r}, which parses as {q.plaintext()!r}'
