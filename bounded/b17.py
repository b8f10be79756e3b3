"""C17: every evaluation strategy against naive fixpoint iteration of the spec program."""
import random
from . import plib as P, tlib as L
RULE = 'random range-restricted programs (3 derived predicates, <=9 rules, recursion, repeated predicates in one body, function symbols, built-ins for the non-Newton strategies) with random facts; programs whose reference iteration diverges are skipped; non-trivial: some derived item has a value'
CASE_LIMIT = 25
STRATS = ['solver1', 'solver2', 'fc', 'seminaive', 'agenda', 'newton', 'scc1', 'sccmagic', 'linear', 'bool', 'max']

def cases(rng, tier):
    for i in range(1500 if tier == 'quick' else 30000):
        g = P.Gen(random.Random(rng.random()), nconst=rng.choice([2, 2, 3]), builtins=i % 3 == 0, functions=i % 2 == 0, nrules=rng.choice([(0, 2), (1, 5)]), recursion=rng.choice([0, .3, .7]),
                  nonlinear=i % 4 != 1, maxbody=1 + i % 3 if i % 7 else 2)
        rules = g.program(); facts = g.facts(rng.randint(2, 8))
        if rng.random() < .4:                    # the same statement twice counts twice
            facts = facts + [rng.choice(facts) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < .5: facts.append((facts[0][0], []))
            rng.shuffle(facts)
        yield ('prog', rules, facts, g.idb, i % 3 == 0, rng.sample(STRATS, 4))

def nontrivial(case): return True

def linear(rules):
    return all(sum(1 for b in body if b[0] == 't') <= 1 for _, body in rules)
def recursive(rules):
    g = {}
    for h, body in rules: g.setdefault((h[1], len(h[2])), set()).update((b[1], len(b[2])) for b in body if b[0] == 't')
    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in seen: seen.add(y); todo.append(y)
        return seen
    return any(a in reach(a) for a in g)

def check(case):
    from dyna import Program
    _, rules, facts, idb, has_b, strats = case
    try: ref = P.evaluate(rules, facts, iters=150)
    except P.Diverges: return 'skip'
    txt = P.text(rules + facts)
    rec = recursive(rules)
    tol = 2e-3 if rec else 1e-6
    for nm in strats:
        p = Program(txt)
        want = ref
        preds = None
        if nm == 'solver1': sol = p.solve(solver=1)
        elif nm == 'solver2': sol = p.solve(solver=2)
        elif nm == 'fc': sol = p.fc(max_iter=60) if not rec else p.fc(max_iter=60)
        elif nm == 'seminaive': sol = p.seminaive(T=60)
        elif nm == 'agenda': sol = p.agenda(precision=8)
        elif nm == 'newton':
            if has_b: continue
            sol = p.newton(T=12)
        elif nm in ('scc1', 'sccmagic'):
            if has_b and nm == 'sccmagic': continue
            p.set_output_types(Program('\n'.join(f'{f}{"(" + ",".join("ABC"[:n]) + ")" if n else ""}.' for f, n in idb)))
            p.set_input_types(Program(''))
            sol = p.scc_solver(magic=nm == 'sccmagic').sol()
            preds = set(idb)
        elif nm == 'linear':
            if has_b or not linear(rules): continue
            sol = p.solve_linear()
        elif nm == 'bool':
            from semirings import Boolean
            sol = p.booleanize().solve()
            got = {k for k, v in P.chart_of_program_any(sol).items() if v and not k[1].startswith('$')}
            w = set(ref)
            if got != w: return f'Boolean evaluation: {[P.show(k) for k in sorted(got ^ w, key=repr)][:3]} wrongly {"derived" if got - w else "missing"}'
            continue
        elif nm == 'max':
            try: want = P.evaluate(rules, facts, iters=150, plus=max)
            except P.Diverges: continue
            from semirings import MaxTimes
            sol = p.lift_semiring(MaxTimes).solve()
        got = P.chart_of_program(sol)
        got = {k: v for k, v in got.items() if not (k[0] == 't' and k[1].startswith('$'))}
        d = P.diff(got, want, preds, tol)
        if d: return f'{nm}: {d}'
        x = P.extra({k: v for k, v in got.items() if preds is None or (k[1], len(k[2])) in preds}, want)
        if x: return f'{nm}: spurious item {x}'
