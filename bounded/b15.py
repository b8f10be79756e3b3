"""C15: constant_folding / constant_folding_rhs / snap_unifications / run_builtins / normalize_unification2 against one-step contribution under full charts."""
import random
from . import plib as P, tlib as L
RULE = 'programs of 1-5 rules whose bodies mix subgoals, constants, (dis)equalities, comparisons, is/+/-, abs and range in every position, incl. unsatisfiable and repeated ones; every relation of the chart is full over {0..3, f(0..1)} with distinct random weights, so any lost, duplicated or altered contribution changes a total'
CASE_LIMIT = 30
OPS = ['constant_folding', 'snap_unifications', 'run_builtins', 'append', 'normalize_unification2', 'snap+fold', 'norm+snap', 'builtins+fold']

def grule(rng):
    V, C, T = P.V, P.Cn, P.T
    nv = rng.randint(1, 3)
    v = lambda: V(rng.randrange(nv))
    tm = lambda d=1: v() if rng.random() < .6 else (C(rng.choice([0, 1, 2])) if rng.random() < .6 or not d else T('f', tm(0)))
    body = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2])): body.append(T('e', v(), v()) if rng.random() < .7 else T('n', tm()))
    bound = {x for b in body for x in L.variables(b)}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < .45:
            b = T('=', tm(), tm())
            if rng.random() < .3: b = T('=', T('g', v(), tm()), T('g', tm(), v()))
        elif r < .55: b = T('!=', tm(0), C(rng.choice([0, 1, 2])))
        elif r < .65: b = T('<', rng.choice([v(), C(1)]), C(rng.choice([1, 2, 3])))
        elif r < .8: b = T('is', rng.choice([v(), C(3)]), T(rng.choice('+-'), rng.choice([v(), C(1)]), C(rng.choice([0, 1, 2]))))
        elif r < .9: b = T('is', C(True), T('range', v(), C(0), C(rng.choice([0, 2, 3]))))
        else: b = T('is', rng.choice([C(1), C(0), v()]), T('abs', rng.choice([v(), C(-1)])))
        body.insert(rng.randint(0, len(body)), b)
        bound |= {x for x in L.variables(b)}
    for _ in range(rng.choice([0, 0, 1, 2])): body.insert(rng.randint(0, len(body)), ('w', rng.choice([0.5, 2.0, 3.0, 1.0, 0.0, 4.0])))
    bv = sorted(bound)
    head = T(rng.choice(['p', 'p', 'q']), *[rng.choice(bv + [C(1)]) if bv else C(rng.choice([1, 2])) for _ in range(rng.choice([1, 1, 2]))])
    return (head, body)

def cases(rng, tier):
    for i in range(4500 if tier == 'quick' else 60000):
        rules = [grule(rng) for _ in range(rng.randint(1, 4))]
        if rng.random() < .4:
            h, b = rng.choice(rules); b = list(b)
            if rng.random() < .5: rng.shuffle(b)
            s = {('v', k): ('v', k + 20) for k in range(4)}
            b2 = [x if x[0] == 'w' else L.subs(s, x) for x in b] + ([('w', 2.0)] if rng.random() < .5 else [])
            k = rng.random()       # a near twin: a subgoal repeated or missing, or the head's arguments merged
            if b2 and k < .35: b2.insert(rng.randint(0, len(b2)), rng.choice(b2))
            elif len(b2) > 1 and k < .5: b2.pop(rng.randrange(len(b2)))
            rules.append((L.subs(s, h), b2))
        yield ('fold', rules, rng.sample(OPS, 3), rng.random())

def nontrivial(case): return any(b for _, b in case[1])

def chart(seed):
    rng = random.Random(seed)
    D = [P.Cn(i) for i in range(4)]
    F = [P.T('f', P.Cn(i)) for i in range(3)]
    ch = {P.T('e', a, b): rng.uniform(.5, 2) for a in D + F[:1] for b in D + F[:1]}
    ch.update({P.T('n', a): rng.uniform(.5, 2) for a in D + F})
    return ch

def check(case):
    from dyna import Program, Rule
    _, rules, ops, seed = case
    ch = chart(seed)
    try: want = P.one_step(rules, ch)
    except (P.Diverges, TypeError): return 'skip'       # floundering, or comparison of unlike values
    if any(not P.ground(h) for h in want): return 'skip'
    txt = P.text(rules)
    p = Program(txt)
    keep = [L.raw(r) for r in p]
    for op in ops:
        if op == 'append':
            q = p.spawn()
            for r in p: q.append(r)
        elif op == 'snap+fold': q = p.snap_unifications().constant_folding()
        elif op == 'norm+snap': q = p.normalize_unification2().snap_unifications()
        elif op == 'builtins+fold': q = p.run_builtins().constant_folding()
        else: q = getattr(p, op)()
        if [L.raw(r) for r in p] != keep: return f'{op} modified the program'
        try: got = P.one_step(P.rules_of(q), ch)
        except P.Diverges as e:
            return f'{op}: the result needs a value that is never bound: {q}'
        d = P.diff(got, want, None, 1e-9)
        if d: return f'{op}: contribution to {d}'
        x = P.extra(got, want)
        if x: return f'{op}: spurious contribution to {x}'
        if op in ('constant_folding', 'append'):
            for r, (h, b) in zip(q, P.rules_of(q)):
                if sum(x[0] == 'w' for x in b) > 1: return f'{op}: constants left unfolded in {r}'
