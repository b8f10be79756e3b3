"""C29: abbreviated programs against the originals on permitted inputs, and the reported correspondence against the derivable items."""
import random
from . import plib as P, tlib as L, tx
from .b26 import pattern
from . import b19
import itertools
RULE = 'random programs (constants, functions, repeated variables, builtins, recursion; also programs with variables no subgoal binds), random input declarations (whole, instantiated, structured, with type constraints), several type depths; item values compared on 3 random permitted inputs; every derivable item must have exactly one derivable abbreviation, of equal value, and every derivable abbreviation stand for exactly one derivable item'
CASE_LIMIT = 60

def cases(rng, tier):
    for i in range(1500 if tier == 'quick' else 40000):
        fn = i % 3 == 0
        if i % 4 == 3:
            while True:
                rules = b19.gen(rng)
                if b19.modes_ok(rules): break
            yield ('nonground', rules, rng.choice([None, None, 1, 2]))
            continue
        g = P.Gen(random.Random(rng.random()), nconst=2, functions=fn, builtins=i % 3 == 1, nrules=(1, 4), recursion=rng.choice([0, .4, .7]))
        rules = g.program()
        preds = sorted(tx.heads(rules))
        ins = [pattern(rng, f, n, g.C, fn) if rng.random() < .6 else P.T(f, *[P.V(k) for k in range(n)]) for f, n in g.edb for _ in range(rng.choice([1, 1, 2]))]
        keep = []
        for t in ins:       # simple types are disjoint
            if not any(L.unify(L.rename(t, 'L'), L.rename(u, 'R'), {}) is not None for u in keep): keep.append(t)
        ins = keep
        typed = rng.random() < .4
        tys = [[('dom%d' % rng.randint(0, 1), v) for v in L.variables(t)] if typed else [] for t in ins]
        outs = [P.T(f, *[P.V(k) for k in range(n)]) for f, n in rng.sample(preds, rng.randint(1, len(preds)))]
        dom = {d: [P.Cn(c) for c in g.C if rng.random() < .8] for d in ('dom0', 'dom1')}
        g2 = P.Gen(random.Random(rng.random()), nconst=2, functions=fn, edb=list(g.edb))
        def permitted(k):
            for p, ty in zip(ins, tys):
                b = L.match(p, k, {})
                if b is not None and all(L.subs(b, v) in dom[d] for d, v in ty): return True
            return False
        facts = []
        for _ in range(3):
            fs = {}
            for k, b in g2.facts(rng.randint(3, 12)):
                if not permitted(k):
                    j = rng.choice([j for j, p in enumerate(ins) if (p[1], len(p[2])) == (k[1], len(k[2]))])
                    k = L.subs({v: P.Cn(rng.choice(g.C)) for v in L.variables(ins[j])}, ins[j])
                    if not permitted(k): continue
                fs[k] = (k, b)
            facts.append(list(fs.values()) + [(P.T(d, c), [('w', 1.0)]) for d in (dom if typed else ()) for c in dom[d]])
        yield ('abbreviate', rules, facts, ins, tys, outs, rng.choice([None, None, 1, 2, 3]))

def nontrivial(case): return True

def nonground(case):
    from dyna import Program
    _, rules, depth = case
    R = b19.Ref(rules, 9)
    p = Program(P.text(rules)); p.set_input_types(''); p.set_output_types('X.')
    kw = {} if depth is None else dict(max_depth=depth)
    t = p.type_analysis(**kw)
    if not t.is_disjoint(): t = p.type_analysis(basic=False, **kw)
    q = p.abbreviate(types=t)
    N = b19.Ref(P.rules_of(q), 10)            # one more level: the recovery rules
    what = f'abbreviate {P.text(rules)!r} depth {depth}: {str(q)!r}'
    small = b19.SMALL + [P.T('f', P.Cn('zz'))]
    try:
        for f, n in sorted(tx.heads(rules)):
            for a in itertools.product(small, repeat=n):
                g = P.T(f, *a); x, y = R.value(g), N.value(g)
                if abs(x - y) > 1e-6 * max(1, abs(x)): return f'{what}: {P.show(g)} = {y}, originally {x}'
    except P.Diverges: return 'skip'

def check(case):
    if case[0] == 'nonground':
        import warnings; warnings.simplefilter('ignore')
        return nonground(case)
    from dyna import Program
    import warnings; warnings.simplefilter('ignore')
    kind, rules, edbs, ins, tys, outs, depth = case
    refs = tx.references(rules, edbs)
    if not refs: return 'skip'
    p = Program(P.text(rules))
    typed = any(tys)
    it = '\n'.join(P.show(t) + (' += ' + ' * '.join(f'{d}({P.show(v)})' for d, v in ty) if ty else '') + '.' for t, ty in zip(ins, tys))
    if typed: it += '\ninputs: dom0(_); dom1(_).'
    ot = '\n'.join(P.show(t) + '.' for t in outs)
    p.set_input_types('\n'.join(P.show(t) + '.' for t in ins)); p.set_output_types(ot)
    kw = {} if depth is None else dict(max_depth=depth)
    if typed: kw['input_type'] = it
    what = f'abbreviate {P.text(rules)!r} inputs {it!r} outputs {ot!r} depth {depth}'
    t = p.type_analysis(**kw)
    if not t.is_disjoint(): t = p.type_analysis(basic=False, **kw)   # abbreviation is defined for disjoint simple types
    elif not kw: t = None
    q = p.abbreviate(**(dict(types=t) if t is not None else {}))
    new = P.rules_of(q)
    preds = tx.heads(rules)
    names = set(q._new_names.values())
    idb = {h[1] for h, _ in rules}
    rec = []
    for h, b in new:
        if len(b) == 1 and b[0][0] == 't' and b[0][1] in names and h[1] not in names: rec.append((h, b[0]))
    for facts, want in refs:
        try: got = P.evaluate(new, facts, iters=800, maxitems=20000)
        except P.Diverges as e: return f'{what}: result {str(q)!r} diverges or flounders ({e}); input {[P.show(k) for k, _ in facts]}'
        pick = lambda c: {k: v for k, v in c.items() if k[0] == 't' and (k[1], len(k[2])) in preds}
        d = P.diff(pick(got), pick(want), preds, 1e-5) or P.extra(pick(got), pick(want))
        if d: return f'{what}: result {str(q)!r}: {d}; input {[P.show(k) for k, _ in facts]}'
        stands = {}
        for a, v in got.items():
            if a[0] != 't' or a[1] not in names: continue
            for h, b in rec:
                s = L.match(b, a, {})
                if s is not None: stands.setdefault(L.subs(s, h), []).append((a, v))
        seen = {}
        for k, xs in stands.items():
            if len(xs) != 1: return f'{what}: result {str(q)!r}: {P.show(k)} has the abbreviations {[P.show(a) for a, _ in xs]}; input {[P.show(x) for x, _ in facts]}'
            a, v = xs[0]
            if a in seen: return f'{what}: {P.show(a)} abbreviates both {P.show(k)} and {P.show(seen[a])}'
            seen[a] = k
            if abs(v - want.get(k, 0)) > 1e-5 * max(1, abs(v)): return f'{what}: {P.show(a)} = {v} but {P.show(k)} = {want.get(k)}'
        for k, v in want.items():
            if k[0] == 't' and k[1] in idb and v and k not in stands and not p.is_input(str_term(k)): return f'{what}: result {str(q)!r}: derivable {P.show(k)} has no abbreviation; input {[P.show(x) for x, _ in facts]}'

def str_term(k):
    from dyna.syntax import term
    return term(P.show(k))
