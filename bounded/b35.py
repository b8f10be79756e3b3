"""C35: every program that a search reports is equivalent to the start program; the best is the cheapest reported; more budget never hurts."""
import random, io, contextlib
from . import plib as P, tlib as L, tx
RULE = 'random programs with declared inputs and outputs; beam search (both graphs, random transformation sets, beam sizes 1-4, 4-25 evaluations, with and without tidying) and the agenda-based optimizer (4-25 steps; reversible folds allowed or not); every reported program compared with the start program on its outputs on 2 random inputs'
CASE_LIMIT = 60

def cases(rng, tier):
    for i in range(700 if tier == 'quick' else 10000):
        rules, edbs, idb = tx.random_case(rng, i, n_edb=2, builtins=False, maxbody=rng.choice([2, 3]), nrules=rng.choice([(0, 1), (1, 3)]), recursion=rng.choice([0, 0, .4]), functions=i % 4 == 0)
        if not rules: continue
        if rng.random() < .2: rules.append(rng.choice(rules))
        if rng.random() < .5:           # a chain: something to gain from folding
            vs = [P.V(k) for k in range(4)]
            body = [P.T('e', vs[k], vs[k + 1]) for k in range(3)]
            rng.shuffle(body)
            rules.append((P.T('r0' if rng.random() < .5 else 'chain', vs[0], *([vs[3]] if rng.random() < .5 else [])), body))
        twins = i % 10 == 9
        if twins:               # two predicates with the same definition: folding each by the other is unsafe
            vs, n = [P.V(k) for k in range(2)], rng.randint(0, 1)
            body = rng.choice([[P.T('e', vs[0], vs[1])], [P.T('e', vs[0], vs[1]), P.T('e', vs[1], vs[0])]])
            rules = [(P.T(h, *vs[:n]), list(body)) for h in rng.sample(['t0', 't1', 't2'], rng.randint(2, 3))]
            if rng.random() < .6: rules.append((P.T('top', *vs[:n]), [P.T(rules[0][0][1], *vs[:n])]))
            rng.shuffle(rules)
        preds = sorted(tx.heads(rules))
        outs = rng.sample(preds, rng.randint(1, min(2, len(preds))))
        kind = 'agenda' if twins else rng.choice(['beam1', 'beam2', 'agenda'])
        if kind == 'agenda': conf = dict(p_greedy=rng.choice([0, .5, .75, 1]), ALLOW_REVERSIBLE=rng.random() < .4)
        else:
            tr = [t for t in (['noop', 'megafold', 'fold', 'fold+', 'fold*', 'elim', 'unfold'] + (['megafold-defs'] if rng.random() < .5 else []) if kind == 'beam1' else ['noop', 'fold', 'fold+', 'fold*', 'elim', 'unfold']) if rng.random() < .6]
            if kind == 'beam1' and len(rules) <= 2 and sum(len(b) for _, b in rules) <= 4 and rng.random() < .3: tr += [rng.choice(['lct', 'spec'])]
            conf = dict(TRANSFORMS=tuple(tr) or ('fold*', 'unfold', 'elim'), beam_size=rng.choice([1, 2, 4]), max_depth=rng.choice([2, 5, 10000]), tidy=rng.random() < .7, cost=rng.choice(['degrees', 'len', 'mixed']))
        yield (kind, rules, preds if twins else outs, edbs, conf, rng.randint(40, 120) if twins else rng.randint(4, 25), rng.random())

def nontrivial(case): return True

COST = {'degrees': lambda p: p.degrees(), 'len': lambda p: len(p.rules), 'mixed': lambda p: (p.degree, len(p.rules))}

def search(kind, p, conf, budget):
    "(reported programs [(program, cost)], best, best cost)"
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 'agenda':
            s = p.optimizer(seed=7, **conf)
            s.run(budget)
            rep = [s.P[i].program for i in s.chart]
            return [(q, q.prune_fast().degrees()) for q in rep], s._best, s._best_cost, s
        c = dict(conf)
        b = p.beam(budget, graph=int(kind[-1]), verbosity=0, **{**c, 'cost': COST[c['cost']]})
    if len(b.log) != len(b.programs) or [x['i'] for x in b.log] != list(b.programs): raise AssertionError(f'log {[x["i"] for x in b.log]} of programs {list(b.programs)}')
    if len(b.log) > budget: raise AssertionError(f'{len(b.log)} evaluations with a budget of {budget}')
    for x in b.log:
        if x['cost'] != COST[c['cost']](b.programs[x['i']]): raise AssertionError(f'logged cost {x["cost"]} of {b.programs[x["i"]]}')
    top = list(b.top())
    if sorted(x['i'] for x, _ in top) != sorted(b.programs): raise AssertionError('top() does not list the evaluated programs')
    if any(y['cost'] < x['cost'] for (x, _), (y, _) in zip(top, top[1:])): raise AssertionError('top() is not in order of cost')
    if any(b.programs[x['i']] is not q for x, q in top): raise AssertionError('top() pairs an entry with another program')
    return [(b.programs[x['i']], x['cost']) for x in b.log], b.best, b.best_cost, b

def check(case):
    import warnings; warnings.simplefilter('ignore')
    kind, rules, outs, edbs, conf, budget, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    if not refs: return 'skip'
    # the inputs and outputs are what the reference is read on
    p = tx.real_program(rules, outs)
    what = f'{kind} {conf} budget {budget} on {P.text(rules)!r} with outputs {outs}'
    try: rep, best, cost, s = search(kind, p, conf, budget)
    except AssertionError as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return f'{what}: {e!r} at {tb.filename.split("/")[-1]}:{tb.lineno}'
    if not rep: return f'{what}: nothing reported'
    # the best is the cheapest
    lo = min(c for _, c in rep)
    if cost != lo: return f'{what}: best cost {cost}, but a reported program costs {lo}'
    if not any(q is best or q == best for q, _ in rep): return f'{what}: the best program is not among those reported'
    bc = best.prune_fast().degrees() if kind == 'agenda' else COST[conf['cost']](best)
    if bc != cost: return f'{what}: best cost {cost}, but the best program costs {bc}'
    # lineage
    start = P.rules_of(p)
    seen = set()
    for q, _ in rep:
        lin = list(q.transforms())
        if lin[-1] is not p: return f'{what}: the recorded steps of {q} do not lead back to the start program'
        for x in lin[:-1]:
            if id(x) in seen: continue
            seen.add(id(x))
            if x.inputs is None or x.outputs is None: return f'{what}: {x} lost its inputs or outputs'
    # equivalence
    done = set()
    for q, _ in rep:
        new = P.rules_of(q)
        if len(new) > 30: continue
        k = P.text(new)
        if k in done: continue
        done.add(k)
        steps = [str(x.name) for x in reversed(list(q.transforms())[:-1])]
        d = tx.compare(refs, new, set(outs), f'{what}: {steps} gives {k!r}')
        if d == 'skip': continue
        if d: return d
    # a larger budget
    _, best2, cost2, _ = search(kind, p, conf, budget + rng.randint(1, 10))
    if cost < cost2: return f'{what}: best cost {cost} gets worse with a larger budget: {cost2}'
