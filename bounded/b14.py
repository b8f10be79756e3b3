"""C14: random edit histories; after every edit each derived view is compared with a program built afresh from the same rules."""
import random
from . import plib as P, tlib as L
RULE = 'histories of 2-10 edits (append, update, pop, +, -, copies, re-declared inputs/outputs, plain appends of rules with variable heads) with derived views read between the edits (so caches are warm); every view compared with a fresh program, and the edit itself with its effect on the rule list; copies compared before/after'
CASE_LIMIT = 40
VIEWS = ['f2r', 'syms', 'sig', 'degree', 'lookup', 'eq', 'solve', 'prune', 'prunefast', 'coarse', 'io', 'hash', 'vfast', 'bottom']
HEADS = ['p(X)', 'p(1)', 'q(X,Y)', 'q(1,X)', 'r', 'X', 'p(f(X))', 'e(X,Y)']
BODY = ['e(X,Y)', 'p(X)', 'q(X,Y)', 'r', 'n(X)', 'n(Y)', '2', '0.5', '3']

def rule(rng):
    h = rng.choice(HEADS[:5] * 3 + HEADS)
    r = rng.random()
    if h in ('p(1)', 'r') and r < .35: return f'{h}.' if r < .1 else f'{h} += {rng.choice([1, 2, 0.5])}.'
    if r < .1: return f'{rng.choice(["p(1)", "p(2)", "e(1,2)", "n(1)", "n(2)", "r", "q(X,X)"])} += {rng.choice([1, 2, 4])}.'
    b = [rng.choice(BODY) for _ in range(rng.randint(1, 3))]
    if 'X' in h and not any('X' in x for x in b): b.append('e(X,Y)')
    if 'Y' in h and not any('Y' in x for x in b): b.append('e(X,Y)')
    return f'{h} += {" * ".join(b)}.'

def cases(rng, tier):
    for _ in range(2500 if tier == 'quick' else 30000):
        init = [rule(rng) for _ in range(rng.randint(0, 5))] + rng.choice([[], ['e(1,2).', 'n(1).', 'n(2) += 2.']])
        ops = []
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            if r < .38: ops.append(('append', rule(rng)))
            elif r < .5: ops.append(('update', rule(rng)))
            elif r < .62: ops.append(('pop', rng.random()))
            elif r < .68: ops.append(('plus', [rule(rng) for _ in range(rng.randint(0, 2))]))
            elif r < .73: ops.append(('minus', rng.random()))
            elif r < .78: ops.append(('copy', rng.choice(['plus', 'spawn', 'fresh', 'fold'])))
            elif r < .86: ops.append((rng.choice(['in', 'out']), rng.choice(['p(X).', 'r.', 'e(X,Y). n(X).', 'q(X,Y).', 'q(X,Y). r.'])))
            ops.append(('read', rng.sample(VIEWS, rng.randint(1, 4))))
        yield ('hist', init, ops)

def nontrivial(case): return len(case[2]) > 2

def specs(p): return [(L.canon_keep(('t', 'R', (L.read(r.head, n := {}),) + tuple(L.read(b, n) for b in r.body)))) for r in p.rules]
def texts(p): return [L.raw(r) for r in p.rules]
def meaning(sp):
    "chart of the spec rules (constants multiply), or None"
    rules = []
    for t in sp:
        h, body = t[2][0], t[2][1:]
        if h[0] == 'v': return None
        rules.append((h, [('w', b[1]) if b[0] == 'c' else b for b in body]))
    try: return P.evaluate(rules, iters=40, maxitems=300)
    except P.Diverges: return None

def view(p, what):
    from dyna.term import Var, Term
    from dyna import term
    if what == 'f2r': return [list(p.f2r(f)) for f in ('p', 'q', 'r', 'e', 'n', 'zz')]
    if what == 'syms': return set(p.syms)
    if what == 'sig': return p.signature
    if what == 'hash': return hash(p)
    if what == 'degree': return (p.degree, sorted(p.degrees(False)) if False else p.degree)
    if what == 'lookup':
        out = []
        for q in ('p(A)', 'q(A,B)', 'q(1,B)', 'r', 'e(A,A)', 'p(f(A))'):
            T = term(q)
            out.append([(L.canon_keep(L.read(T, {})), repr(L.canon_keep(('t', 'R', tuple(L.read(b, {}) for b in body))))) for body in p.lookup(T)])
        return out
    if what == 'io': return [bool(f(term(q))) for q in ('p(A)', 'q(A,B)', 'r', 'e(1,2)', 'n(A)') for f in (p.is_input, p.is_output, p.is_item, p.is_exogenous)]
    if what == 'prune': return specs(p.prune()) if p.outputs is not None and p.inputs is not None else None
    if what == 'prunefast': return specs(p.prune_fast()) if p.outputs is not None and p.inputs is not None else None
    if what == 'vfast': return specs(p.prune_very_fast()) if p.outputs is not None and p.inputs is not None else None
    if what == 'bottom': return specs(p.prune_bottom_up()) if p.outputs is not None and p.inputs is not None else None
    if what == 'coarse': return sorted(repr(L.canon_keep(L.read(x, {}))) for x in p.coarse_nodes()) if p.outputs is not None and p.inputs is not None else None

def check(case):
    from dyna import Program, Rule
    _, init, ops = case
    p = Program('\n'.join(init))
    history = []
    def fresh_of(p):
        q = Program(list(p.rules), inputs=p.inputs, outputs=p.outputs, semiring=p.semiring, has_builtins=p.has_builtins)
        return q
    def views(p, which):
        q = fresh_of(p)
        for w in which:
            if w == 'eq':
                if not (p == q and q == p): return 'not equal to the program built from the same rules'
                if hash(p) != hash(q): return 'hash'
                continue
            if w == 'solve':
                m = meaning(specs(p))
                if m is None: continue
                try: got = P.chart_of_program(p.seminaive(T=40))
                except RecursionError: continue
                d = P.diff(got, m, None, 2e-3)
                if d: return f'evaluation after edits: {d}'
                continue
            if w in ('prune', 'prunefast', 'vfast', 'bottom', 'coarse') and any(t[2][0][0] == 'v' for t in specs(p)): continue
            a, b = view(p, w), view(q, w)
            if a != b: return f'{w}: {str(a)[:300]} but a fresh program gives {str(b)[:300]}'
    for n, (op, arg) in enumerate(ops):
        before = specs(p)
        if op == 'read':
            m = views(p, arg)
            if m: return f'after step {n}: {m}'
            continue
        if op in ('append', 'update'):
            r = Program(arg).rules[0]
            if op == 'append': p.append(r)
            else: p.update(r.head, *r.body)
            m1, m2 = meaning(before + specs(Program(arg))), meaning(specs(p))
            if m1 is not None and m2 is not None:
                d = P.diff(m2, m1, None, 1e-6)
                if d: return f'step {n} ({op} {arg}): {d}'
        elif op in ('pop', 'minus'):
            if not len(p): continue
            i = int(arg * len(p))
            if op == 'pop':
                r = p.pop(i)
                if specs(Program([r])) != [before[i]]: return f'pop({i}) returned {r}'
            else:
                old = p
                keep = texts(p)
                p = p - i
                if texts(old) != keep: return 'subtraction changed the original'
            if specs(p) != before[:i] + before[i + 1:]: return f'step {n}: {op} {i} removed the wrong rule'
        elif op == 'plus':
            old, keep = p, texts(p)
            p = p + '\n'.join(arg)
            if texts(old) != keep: return 'concatenation changed the original'
            if specs(p) != before + specs(Program('\n'.join(arg))): return 'concatenation'
        elif op == 'copy':
            history.append((p, texts(p), p.inputs, p.outputs))
            if arg == 'plus': p = p + []
            elif arg == 'spawn': p = p.spawn(list(p))
            elif arg == 'fresh': p = p.fresh()
            else:
                q = p.constant_folding()
                m1, m2 = meaning(before), meaning(specs(q))
                if m1 is not None and m2 is not None:
                    d = P.diff(m2, m1, None, 1e-6)
                    if d: return f'step {n} constant folding: {d}'
                p = q
        elif op == 'in': p.set_input_types(arg)
        elif op == 'out': p.set_output_types(arg)
    m = views(p, VIEWS)
    if m: return f'at the end: {m}'
    for q, t, i, o in history:
        if texts(q) != t: return 'editing a copy changed the original'
        if i is not q.inputs and q is not p: return 'editing a copy changed the inputs of the original'
        m = views(q, ['f2r', 'lookup', 'eq', 'sig'])
        if m: return f'original after editing a copy: {m}'
