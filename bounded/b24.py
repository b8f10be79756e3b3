"""C24: slash and left-corner transforms of random programs against reference evaluation over the (finite) universe of items."""
import random, itertools
from . import plib as P, tlib as L, tx
RULE = 'random function-free programs (recursive, non-linear, duplicate subgoals), random admissible divisor and positions (constants excluded), slash and lct, plain / tidied / pruned / composed; every item of the original predicates compared on 2 random inputs by grounding helper rules over all items and constants'
CASE_LIMIT = 60

def cases(rng, tier):
    for i in range(1500 if tier == 'quick' else 30000):
        rules, edbs, idb = tx.random_case(rng, i, n_edb=2, functions=False, builtins=i % 6 == 0, maxbody=rng.choice([2, 2, 3]), nidb=rng.choice([2, 3]), recursion=.6)
        yield (rng.choice(['slash', 'lct']), rng.choice(['plain', 'plain', 'tidy', 'prune']), rules, edbs, rng.random())

def nontrivial(case): return True

def grounded(rules, facts, base_rules):
    "add dom(V) subgoals for variables no positive subgoal binds; dom = constants and atoms of the original vocabulary"
    sig = {(t[1], len(t[2])) for h, b in list(base_rules) + list(facts) for t in [h] + b if t[0] == 't' and not P.is_builtin(t)}
    cs = set()
    for h, b in list(base_rules) + list(facts):
        for t in [h] + b:
            if t[0] == 't': cs |= {c for c in consts(t)}
    cs = sorted(cs, key=repr)
    items = cs + [P.T(f, *a) for f, n in sorted(sig) for a in itertools.product(cs, repeat=n)]
    out = []
    for h, b in rules:
        pos = {v for t in b if t[0] == 't' and not P.is_builtin(t) for v in L.variables(t)}
        allv = {v for t in [h] + b if t[0] == 't' for v in L.variables(t)}
        need = sorted(allv - pos, key=repr)
        # variables standing for whole items range over items; the others over constants
        whole = set()
        for t in [h] + b:
            if t[0] == 't' and t[1] in ('/', '$other') or t[0] == 't' and t[1].startswith(('/', '$other')): whole |= {a for a in t[2] if a[0] == 'v'}
        extra = [P.T('dom$i' if v in whole else 'dom$c', v) for v in need]
        out.append((h, b + extra))
    dom = [(P.T('dom$i', x), []) for x in items] + [(P.T('dom$c', x), []) for x in cs]
    return out, dom
def consts(t):
    if t[0] == 'c': return {t}
    return set().union(*map(consts, t[2])) if t[0] == 't' else set()

def parameters(rng, p, rules):
    from dyna import unifies, covers, Term, syntax
    from dyna.term import fresh
    kind = rng.random()
    preds = sorted(tx.heads(rules)) + [('e', 2), ('n', 1), ('w', 2)]
    if kind < .35: x = 'X'
    else:
        f, n = rng.choice(preds)
        args = [rng.choice(['A', 'B', 'C', '0', '1']) if rng.random() < .3 else f'V{k}' for k in range(n)]
        x = f + (f'({",".join(args)})' if args else '')
    xt = syntax.term(x)
    pos = {}
    for i, r in enumerate(p):
        js = [j for j, b in enumerate(r.body) if not p.is_const(b) and not p.is_builtin(b) and (not unifies(xt, b) or covers(fresh(xt), b))]
        if js and rng.random() < .75: pos[i] = rng.choice(js)
    return x, pos

def check(case):
    import warnings; warnings.simplefilter('ignore')
    kind, post, rules, edbs, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    if not refs: return 'skip'
    preds = tx.heads(rules)
    p = tx.real_program(rules, outputs=sorted(preds))
    x, pos = parameters(rng, p, rules)
    try: q = p.slash(x, positions=pos) if kind == 'slash' else p.lct(pos, x=x)
    except AssertionError as e: return f'admissible parameters rejected: {kind} {x} {pos} of {P.text(rules)!r}: {e}'
    what = f'{kind} x={x} positions={pos} {post} of {P.text(rules)!r}'
    if post == 'tidy': q = q.elim_p(0)
    elif post == 'prune':
        q = q.prune(max_depth=3) if rng.random() < .5 else q.elim_p(0).prune_fast()
    new = P.rules_of(q)
    if len(new) > 60: return 'skip'
    for facts, want in refs:
        g, dom = grounded(new, facts, rules)
        try: got = P.evaluate(g, list(facts) + dom, iters=600, maxitems=6000)
        except P.Diverges as e:
            # helper items may have an infinite sum although no original item does
            if 'fixpoint' in str(e) or 'large' in str(e) or 'too many' in str(e): return 'skip'
            return f'{what}: {e}'
        gg = {k: v for k, v in got.items() if (k[1], len(k[2])) in preds}
        ww = {k: v for k, v in want.items() if (k[1], len(k[2])) in preds}
        d = P.diff(gg, ww, preds, 1e-5)
        if d: return f'{what}: {d}; input {[(P.show(k), b) for k, b in facts]}'
        e = P.extra(gg, ww)
        if e: return f'{what}: spurious item {e}'
