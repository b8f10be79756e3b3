"""C26: pruned programs against reference evaluation on permitted inputs."""
import random
from . import plib as P, tlib as L, tx
RULE = 'random programs with random output patterns (whole predicates, partially instantiated, repeated variables) and random input declarations (whole, instantiated, structured); prune (specialising or not, several depths, bottom-up only), prune_fast, prune_very_fast and pairs of them; output items compared on 3 random permitted inputs'
CASE_LIMIT = 60

def pattern(rng, f, n, consts, functions):
    vs = [P.V(i) for i in range(n)]
    a = []
    for i in range(n):
        r = rng.random()
        a.append(rng.choice(vs[:i + 1]) if r < .7 else P.Cn(rng.choice(consts)) if r < .9 or not functions else P.T('f', vs[i]))
    return P.T(f, *a)

def cases(rng, tier):
    for i in range(1500 if tier == 'quick' else 40000):
        fn = i % 3 == 0
        g = P.Gen(random.Random(rng.random()), nconst=2, functions=fn, builtins=i % 3 == 1, nrules=(1, 4), recursion=rng.choice([0, .4, .7]))
        rules = g.program()
        preds = sorted(tx.heads(rules))
        edb = list(g.edb) + ([rng.choice(preds)] if rng.random() < .25 else [])
        ins = [pattern(rng, f, n, g.C, fn) if rng.random() < .5 else P.T(f, *[P.V(k) for k in range(n)]) for f, n in edb for _ in range(rng.choice([1, 1, 2]))]
        outs = [pattern(rng, f, n, g.C, fn) for f, n in rng.sample(preds, rng.randint(1, len(preds)))]
        if rng.random() < .2: outs.append(pattern(rng, 'e', 2, g.C, False))       # an input that is an output
        if rng.random() < .1: outs = [P.T('nosuch', P.V(0))]
        g2 = P.Gen(random.Random(rng.random()), nconst=2, functions=fn, edb=edb)
        facts = []
        for _ in range(3):
            fs = []
            for k, b in g2.facts(rng.randint(3, 12)):
                if any(L.match(p, k, {}) is not None for p in ins): fs.append((k, b))
                else:                      # make it fit
                    q = rng.choice([p for p in ins if (p[1], len(p[2])) == (k[1], len(k[2]))])
                    t = L.subs({v: P.Cn(rng.choice(g.C)) for v in L.variables(q)}, q)
                    if t not in [x for x, _ in fs]: fs.append((t, b))
            facts.append(list({k: (k, b) for k, b in fs}.values()))
        yield (rng.choice(['prune', 'prune', 'prune_dead', 'fast', 'very_fast', 'bottom_up', 'pair']), rules, facts, ins, outs, rng.random())

def nontrivial(case): return True

def check(case):
    from dyna import Program
    import warnings; warnings.simplefilter('ignore')
    kind, rules, edbs, ins, outs, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    if not refs: return 'skip'
    p = Program(P.text(rules))
    it, ot = '\n'.join(P.show(t) + '.' for t in ins), '\n'.join(P.show(t) + '.' for t in outs)
    p.set_input_types(it); p.set_output_types(ot)
    what = f'{kind} of {P.text(rules)!r} inputs {it!r} outputs {ot!r}'
    def run(q, k):
        if k == 'prune': return q.prune(**({} if rng.random() < .5 else dict(max_depth=rng.choice([1, 2, 3]))))
        if k == 'prune_dead': return q.prune(specialize=False, **({} if rng.random() < .5 else dict(max_depth=rng.choice([1, 2]))))
        if k == 'fast': return q.prune_fast()
        if k == 'very_fast': return q.prune_very_fast()
        if k == 'bottom_up': return q.prune_bottom_up(**({} if rng.random() < .5 else dict(max_depth=2)))
    if kind == 'pair': q = run(run(p, rng.choice(['prune', 'fast', 'bottom_up'])), rng.choice(['prune', 'prune_dead', 'fast', 'very_fast']))
    else: q = run(p, kind)
    new = P.rules_of(q)
    for facts, want in refs:
        try: got = P.evaluate(new, facts, iters=800, maxitems=20000)
        except P.Diverges as e: return f'{what}: evaluation of the result diverges ({e})'
        if kind == 'bottom_up' : sel = lambda k: True
        else: sel = lambda k: any(L.match(o, k, {}) is not None for o in outs)
        g = {k: v for k, v in got.items() if sel(k)}
        w = {k: v for k, v in want.items() if sel(k)}
        d = P.diff(g, w, None, 1e-6) or P.extra(g, w)
        if d: return f'{what} gives {P.text(new)!r}: {d}; input {[P.show(k) for k, _ in facts]}'
