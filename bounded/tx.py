"""Comparing the meaning of a transformed program with its original, both evaluated by the independent reference evaluator."""
import random
from . import plib as P, tlib as L

def heads(rules): return {(h[1], len(h[2])) for h, _ in rules}

def references(rules, edbs, iters=200):
    out = []
    for facts in edbs:
        try: out.append((facts, P.evaluate(rules, facts, iters=iters)))
        except P.Diverges: pass
    return out

def compare(refs, new_rules, preds, what, tol=1e-5, may_diverge=False, iters=800):
    "None or a message; refs = [(facts, chart of the original)]"
    for facts, want in refs:
        try: got = P.evaluate(new_rules, facts, iters=iters, maxitems=20000)
        except P.Diverges as e:
            if may_diverge: return 'skip'
            return f'{what}: evaluation of the result diverges or flounders ({e}) where the original converges; input {[P.show(k) for k, _ in facts]}'
        g = {k: v for k, v in got.items() if k[0] == 't' and (k[1], len(k[2])) in preds}
        w = {k: v for k, v in want.items() if k[0] == 't' and (k[1], len(k[2])) in preds}
        d = P.diff(g, w, preds, tol)
        if d: return f'{what}: {d}; input {[P.show(k) for k, _ in facts]}'
        x = P.extra(g, w)
        if x: return f'{what}: spurious item {x}; input {[P.show(k) for k, _ in facts]}'
    return None

def random_case(rng, i, n_edb=3, **kw):
    "(rules, [facts...], idb): a random program with several inputs"
    g = P.Gen(random.Random(rng.random()), **{**dict(nconst=2, functions=i % 3 == 0, builtins=i % 4 == 0, nrules=rng.choice([(0, 2), (1, 4)]), recursion=rng.choice([0, .3, .6])), **kw})
    rules = g.program()
    return rules, [g.facts(rng.randint(2, 8)) for _ in range(n_edb)], g.idb

def inputs_text(edb=(('e', 2), ('n', 1), ('w', 2))): return '\n'.join(f'{f}({",".join("XYZ"[:n])}).' for f, n in edb)
def real_program(rules, outputs=None, inputs=True):
    from dyna import Program
    p = Program(P.text(rules))
    if inputs: p.set_input_types(inputs_text())
    if outputs is not None: p.set_output_types('\n'.join(f'{f}({",".join("XYZ"[:n])}).' if n else f'{f}.' for f, n in outputs))
    return p
