"""C18: agenda solver under permuted orders, priorities and splits of the input."""
import random
from . import plib as P, tlib as L
from .b17 import recursive
RULE = 'random programs x (permuted rules, subgoals, facts; random priorities; facts split into several insertions, by duplicate facts, by data=, and by successive calls; both agenda types); rules with repeated subgoals that match one item included'
CASE_LIMIT = 25

def cases(rng, tier):
    pair = [((P.T('p', P.V(0)), [P.T('e', P.V(0), P.V(1)), P.T('e', P.V(1), P.V(0))])), (P.T('p', P.V(0)), [P.T('e', P.V(0), P.V(1)), P.T('e', P.V(2), P.V(1)), P.T('e', P.V(0), P.V(0))]),
            (P.T('q', P.V(0)), [P.T('p', P.V(0)), P.T('p', P.V(0)), P.T('p', P.V(1))]), (P.T('r'), [P.T('q', P.V(0)), P.T('q', P.V(1)), ('w', 0.5)])]
    fs = [(P.T('e', P.Cn(a), P.Cn(b)), [('w', w)]) for a, b, w in ((0, 0, 2.0), (0, 1, .5), (1, 0, 1.0))]
    for k in range(40): yield ('perm', pair, fs, rng.random())
    for i in range(1800 if tier == 'quick' else 30000):
        g = P.Gen(random.Random(rng.random()), nconst=2, builtins=i % 3 == 0, functions=i % 2 == 0, nrules=(0, 3), recursion=rng.choice([0, .3, .7]), maxbody=2 + i % 2)
        rules = g.program()
        if i % 2:
            # repeat a subgoal
            j = rng.randrange(len(rules)); h, b = rules[j]
            sg = [x for x in b if x[0] == 't' and not P.is_builtin(x)]
            rules[j] = (h, [rng.choice(sg)] + b) if sg and (h[1], len(h[2])) not in {(x[1], len(x[2])) for x in sg} else (h, b)
        yield ('perm', rules, g.facts(rng.randint(2, 7)), rng.random())

def nontrivial(case): return True

def check(case):
    from dyna import Program
    from dyna.util.bucket_queue import BucketQueue
    _, rules, facts, seed = case
    try: ref = P.evaluate(rules, facts, iters=150)
    except P.Diverges: return 'skip'
    rng = random.Random(seed)
    tol = 2e-3 if recursive(rules) else 1e-6
    for trial in range(3):
        rs = []
        for h, b in rules:
            n = [x for x in b if not P.is_builtin(x) or x[1] == '=']; m = [x for x in b if P.is_builtin(x) and x[1] != '=']
            rng.shuffle(n)
            rs.append((h, n + m))
        rng.shuffle(rs)
        fs = []
        for h, [(_, w)] in facts:
            r = rng.random()
            if r < .3: fs += [(h, [('w', w / 2)]), (h, [('w', w / 2)])]
            elif r < .4: fs += [(h, [('w', w / 4)]), (h, [('w', w / 4)]), (h, [('w', w / 2)])]
            else: fs.append((h, [('w', w)]))
        rng.shuffle(fs)
        cut = rng.randint(0, len(fs))
        kind = rng.choice(['plain', 'prio', 'bucket', 'incr', 'mixed'])
        if kind == 'plain': s = Program(P.text(rs))(Program(P.text(fs)))
        elif kind in ('prio', 'bucket', 'incr'):
            tbl = {}
            def prio(x):
                k = str(x)
                if k not in tbl: tbl[k] = rng.randint(0, 5)
                return tbl[k]
            kw = dict(priority=prio)
            if kind == 'bucket': kw['AgendaType'] = BucketQueue
            if kind == 'incr' and rng.random() < .5: kw = {}
            s = Program(P.text(rs)).solver(**kw)
            if kind == 'incr':
                s(Program(P.text(fs[:cut]))); s(Program(P.text(fs[cut:])))
            else: s(Program(P.text(fs)))
        else: s = Program(P.text(rs + fs[:cut]))(Program(P.text(fs[cut:])))
        got = P.chart_of_program(s.sol())
        d = P.diff(got, ref, None, tol)
        if d: return f'{kind} order {trial}: {d}'
        x = P.extra(got, ref)
        if x: return f'{kind} order {trial}: spurious item {x}'
