"""C25: structural rewrites of random programs against reference evaluation."""
import random
from . import plib as P, tlib as L, tx
RULE = 'random programs (functions, constants, recursion, duplicate rules and subgoals); elim / linear elimination of random rules (items the eliminated rule can define are excluded), up to 3 in a row; binarize, linearize (ground and non-ground), hook of random subgoal sets, define, unification normal form and its inverse; every original item compared on 3 random inputs'
CASE_LIMIT = 60

def cases(rng, tier):
    for i in range(3000 if tier == 'quick' else 40000):
        kind = rng.choice(['elim', 'elim', 'elim', 'binarize', 'linearize', 'linearize', 'hook', 'hook', 'define', 'normalize', 'normalize', 'snap'])
        b = kind in ('normalize', 'snap', 'linearize', 'elim', 'hook') and i % 3 == 0
        rules, edbs, idb = tx.random_case(rng, i, functions=i % 2 == 0, builtins=b, maxbody=rng.choice([2, 3, 4]), recursion=rng.choice([0, .4, .7]))
        if kind in ('linearize', 'elim', 'binarize') and rules:
            rules = [(h, dup(rng, bd)) for h, bd in rules]
        if kind == 'elim' and rng.random() < .3:
            # a rule whose only subgoal can match its own head, and that consumes structure (so that sums stay finite)
            f, g = 'f', P.V(7)
            n = rng.choice([1, 2])
            x = [P.V(0), g][:n]; y = [P.T(f, P.V(0)), rng.choice([g, P.V(0), P.Cn(0)])][:n]
            if n == 2 and y[1] == P.V(0): x[1] = P.V(0)
            if n == 2 and rng.random() < .5: x.reverse()
            body = [P.T('s', *y)] + ([('w', 0.5)] if rng.random() < .3 else [])
            rules = rules + [(P.T('s', *x), body), (P.T('s', *[P.V(0), P.V(1)][:n]), [P.T('e', P.V(0), P.V(1))] + ([P.T('n', P.V(1))] if rng.random() < .4 else [])),
                             (P.T('t', P.V(1)), [P.T('s', *[P.V(0), P.V(1)][:n]), P.T('e', P.V(1), P.V(0))]), (P.T('t', P.V(0)), [P.T('s', *[P.V(0), P.V(0)][:n])])]
            if rng.random() < .5: rng.shuffle(rules)
            ff = lambda k: P.Cn(rng.choice([0, 1])) if not k else P.T(f, ff(k - 1))
            edbs = [list({t: (t, w) for t, w in fs + [(P.T('e', ff(rng.choice([0, 1, 2, 3])), ff(rng.choice([0, 0, 1, 2]))), [('w', rng.choice([1.0, .5]))]) for _ in range(rng.randint(2, 4))]}.values()) for fs in edbs]
        yield (kind, rules, edbs, rng.random())

def dup(rng, body):
    "sometimes repeat a subgoal's predicate so that two subgoals overlap"
    sub = [x for x in body if x[0] == 't' and not P.is_builtin(x)]
    if not sub or rng.random() < .6 or len(body) > 3: return body
    x = rng.choice(sub)
    vs = L.variables(('t', 'x', tuple(sub))) or [P.Cn(0)]
    return body + [P.T(x[1], *[rng.choice(vs + [a]) for a in x[2]])]

def nontrivial(case): return True

def check(case):
    from dyna import unifies
    from dyna.term import fresh
    import warnings; warnings.simplefilter('ignore')
    kind, rules, edbs, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    if not refs: return 'skip'
    preds = tx.heads(rules)
    p = tx.real_program(rules)
    if kind == 'elim':
        cur, steps, gone = p, [], []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(cur))
            r = cur.rules[i]
            sr = P.rules_of([r])[0]
            if not set(L.variables(sr[0])) <= {v for x in sr[1] if x[0] == 't' and not P.is_builtin(x) for v in L.variables(x)}: continue
            how = rng.random()
            if how < .5: nxt = cur.elim(i); steps.append(f'elim({i}: {r})')
            else:
                nxt = cur.linearize(driver=r.head) if rng.random() < .5 else cur.linearize(nonground=True)
                nxt = nxt.linear_rule_elimination(i); steps.append(f'linear_rule_elimination({i}: {r})')
            gone.append(sr[0])
            cur = nxt
            if len(cur) > 25: break
        if not gone: return 'skip'
        keep = lambda k: not any(L.unify(L.subs({v: ('v', ('o', v)) for v in L.variables(g)}, g), k, {}) is not None for g in gone)
        refs = [(f, {k: v for k, v in w.items() if keep(k)}) for f, w in refs]
        new = P.rules_of(cur)
        for facts, want in refs:
            try: got = P.evaluate(new, facts, iters=800, maxitems=20000)
            except P.Diverges as e: return f'{steps} of {P.text(rules)!r}: evaluation of the result diverges ({e})'
            got = {k: v for k, v in got.items() if (k[1], len(k[2])) in preds and keep(k)}
            want = {k: v for k, v in want.items() if (k[1], len(k[2])) in preds}
            d = P.diff(got, want, preds, 1e-5) or P.extra(got, want)
            if d: return f'{steps} of {P.text(rules)!r} gives {P.text(new)!r}: {d}; input {[P.show(k) for k, _ in facts]}'
        return
    elif kind == 'binarize':
        q = p.binarize(); what = 'binarize'
        if any(len(r.body) > 2 for r in q): return f'binarize of {P.text(rules)!r} leaves a long rule: {q}'
    elif kind == 'linearize':
        ng = rng.random() < .4
        drv = None if ng or rng.random() < .5 else rng.choice(p.rules).head
        q = p.linearize(nonground=ng) if drv is None else p.linearize(driver=drv)
        what = f'linearize(driver={drv}, nonground={ng})'
        # what it is for: no two overlapping subgoals remain
        for r in P.rules_of(q):
            sub = [x for x in r[1] if x[0] == 't' and not P.is_builtin(x)]
            for a in range(len(sub)):
                for b in range(a):
                    A = L.subs({v: ('v', ('l', v)) for v in L.variables(sub[a])}, sub[a]); B = L.subs({v: ('v', ('m', v)) for v in L.variables(sub[b])}, sub[b])
                    if ng: bad = A[1] == B[1] and len(A[2]) == len(B[2])
                    elif drv is None: bad = L.unify(sub[a], sub[b], {}) is not None
                    else:
                        D = L.read(drv, {}); D = L.subs({v: ('v', ('d', v)) for v in L.variables(D)}, D)
                        bad = L.unify(A, D, {}) is not None and L.unify(B, D, {}) is not None
                    if bad: return f'{what} of {P.text(rules)!r} leaves overlapping subgoals in {P.show_rule(r)}'
    elif kind == 'hook':
        q = p; what = ''
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(q)); r = q.rules[i]
            js = [j for j in range(len(r.body)) if rng.random() < .5 and not (p.is_builtin(r.body[j]))]
            if not js: continue
            what += f'.hook({i},{js})'
            q = q.hook(i, js)
        if not what: return 'skip'
    elif kind == 'define':
        g = P.Gen(random.Random(seed), functions=False, builtins=False, recursion=0)
        body = list(rng.choice(rules)[1])
        ds = [(P.T('d', *rng.sample(vs, rng.randint(0, len(vs)))), body)] if (vs := L.variables(('t', 'x', tuple(x for x in body if x[0] == 't')))) is not None else []
        q = p.define(P.text(ds)); what = f'define({P.text(ds)!r})'
    else:
        q = p.normalize_unification2(); what = 'normalize_unification2'
        for r in q:      # the normal form itself
            for b in r.body:
                if q.is_const(b) or q.is_builtin(b) and b.fn != '=': continue
                from dyna import is_var
                from dyna.term import snap, Term
                ok = all(is_var(snap(a)) for a in b.args) if b.fn != '=' else is_var(snap(b.args[0])) and (not isinstance(snap(b.args[1]), Term) or all(is_var(snap(a)) for a in snap(b.args[1]).args))
                if not ok: return f'normalize_unification2 of {P.text(rules)!r} leaves {b} in {r}'
        if kind == 'snap': q = q.snap_unifications(); what += '.snap_unifications'
    return tx.compare(refs, P.rules_of(q), preds, f'{what} of {P.text(rules)!r} gives {P.text(P.rules_of(q))!r}')
