"""C21: every unfold step of random programs against reference evaluation, and its recorded inverse."""
import random
from . import plib as P, tlib as L, tx
RULE = 'random programs (recursion, repeated predicates, function symbols, equalities/comparisons, duplicate rules, facts inside the program), every admissible (rule, subgoal), sequences of 1-3 unfolds, definitions from the program itself or a renamed copy; 3 random inputs each; undo compared with the original program'
CASE_LIMIT = 40

def cases(rng, tier):
    for i in range(2500 if tier == 'quick' else 40000):
        rules, edbs, idb = tx.random_case(rng, i, maxbody=rng.choice([1, 2, 3]))
        if i % 5 == 0:                      # self-unification between head and subgoal through constants / repeated variables
            rules = rules + [(P.T('p', *[P.Cn(0)] * idb[0][1]), [])]
        if i % 6 == 1: rules = rules + [rng.choice(rules)]
        if i % 7 == 2:
            rules, edbs = rules + edbs[0], [[]] + [e for e in edbs[1:]][:1]; own = True
        else: own = False
        yield ('unfold', rules, edbs, own, rng.random())

def nontrivial(case): return True

def check(case):
    from dyna import Program
    _, rules, edbs, own, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    p = tx.real_program(rules, inputs=not own)
    if own and len(edbs) > 1: refs = refs[:1]
    preds = tx.heads(rules)
    txt = str(p.rules)
    acts = [(i, j) for i, r in enumerate(p.rules) for j, b in enumerate(r.body) if p.safe_inline(b)]
    rng.shuffle(acts)
    for i, j in acts[:6]:
        q = p.unfold(i, j) if rng.random() < .7 else p.unfold(i, j, defs=p)
        name = f'unfold({i},{j}) of {P.text(rules)!r}'
        m = tx.compare(refs, P.rules_of(q), preds, name)
        if m: return m
        if str(p.rules) != txt: return f'{name} changed the program'
        if q.undo != p: return f'{name}: undo gives {q.undo}'
        # the rules that were not unfolded are kept, and every new rule is recorded
        if len(q) != len(p) - 1 + len(q.new2def): return f'{name}: {len(q)} rules, {len(q.new2def)} recorded'
        for n, d in q.new2def.items():
            if d is not None and not (0 <= d < len(p)): return f'{name}: recorded definition {d}'
        if rng.random() < .3:
            acts2 = [(a, b) for a, r in enumerate(q.rules) for b, x in enumerate(r.body) if q.safe_inline(x)]
            if acts2 and len(q) < 25:
                a, b = rng.choice(acts2)
                q2 = q.unfold(a, b)
                m = tx.compare(refs, P.rules_of(q2), preds, name + f'.unfold({a},{b})')
                if m: return m
                if q2.undo != q: return f'{name}.unfold({a},{b}): undo differs'
                if rng.random() < .5 and all(d is not None for d in q2.new2def.values()) and len(q2) < 40:
                    acts3 = [(c, d) for c, r in enumerate(q2.rules) for d, x in enumerate(r.body) if q2.safe_inline(x)]
                    if acts3:
                        c, d = rng.choice(acts3)
                        m = tx.compare(refs, P.rules_of(q2.unfold(c, d)), preds, name + f'.unfold({a},{b}).unfold({c},{d})')
                        if m: return m
    # definitions taken from the original while unfolding its transform, measured safe
