"""C22: accepted folds of random programs against reference evaluation; proposals against brute-force matching."""
import random
from . import plib as P, tlib as L, tx
RULE = 'random programs extended by definitions hooked from their own bodies (variables renamed, kept or dropped, subgoals permuted, several rules per definition), after 0-2 unfolds; every fold accepted by the SMT measure, the unit measure or the reversibility check is evaluated on 3 random inputs; hand-made self-supporting and rule-losing folds must not be accepted; proposals must match the definition'
CASE_LIMIT = 60

def cases(rng, tier):
    for i in range(900 if tier == 'quick' else 12000):
        rules, edbs, idb = tx.random_case(rng, i, maxbody=rng.choice([2, 3]), builtins=False, functions=i % 4 == 0)
        yield (rng.choice(['define', 'define', 'unfoldfold', 'rev', 'cycle', 'lose']), rules, edbs, rng.random())

def nontrivial(case): return True

def definition(rng, rules):
    "rules of a new predicate d built from bodies of the program"
    h, b = rng.choice(rules)
    sub = [x for x in b if x[0] == 't']
    if not sub: return None
    js = sorted(rng.sample(range(len(sub)), rng.randint(1, len(sub))))
    part = [sub[j] for j in js]; rest = [x for j, x in enumerate(sub) if j not in js]
    need = [v for v in L.variables(('t', 'x', tuple(part))) if v in L.variables(('t', 'x', (h,) + tuple(rest)))]
    allv = L.variables(('t', 'x', tuple(part)))
    args = need if rng.random() < .7 else rng.sample(allv, rng.randint(0, len(allv)))
    if rng.random() < .5: rng.shuffle(part)
    ren = {v: P.V(v[1] + 50) for v in allv}
    head = P.T('d', *[L.subs(ren, a) for a in args])
    out = [(head, [L.subs(ren, x) for x in part])]
    if rng.random() < .35:       # a second rule: only worth folding together
        out.append((head, [L.subs(ren, rng.choice(part))] if rng.random() < .5 and set(args) <= {v for x in part[:1] for v in L.variables(x)} else [L.subs(ren, part[0])] + [L.subs(ren, x) for x in part]))
    return out

def ok_fold(q, how):
    return {'smt': lambda: q.safe_by_smt, 'unit': lambda: q.safe_by_unit}[how]()

def check(case):
    from dyna import Program
    from dyna.transform.fold import Fold
    import warnings; warnings.simplefilter('ignore')
    kind, rules, edbs, seed = case
    rng = random.Random(seed)
    refs = tx.references(rules, edbs)
    preds = tx.heads(rules)
    p = tx.real_program(rules)
    if kind in ('define', 'unfoldfold'):
        ds = definition(rng, rules)
        if not ds: return 'skip'
        if any(not set(L.variables(h)) <= set(v for x in b for v in L.variables(x)) for h, b in ds): return 'skip'
        d = p.define(P.text(ds))
        if (m := tx.compare(refs, P.rules_of(d), preds, f'define {P.text(ds)!r}')): return m
        cur = d
        steps = f'define {P.text(ds)!r}'
        if kind == 'unfoldfold':
            acts = [(i, j) for i, r in enumerate(cur.rules) for j, b in enumerate(r.body) if cur.safe_inline(b)]
            rng.shuffle(acts)
            for (i, j) in acts[:1]:
                cur = cur.unfold(i, j); steps += f'.unfold({i},{j})'
            if len(cur) > 14: return 'skip'
        defs = rng.choice([cur, d])
        props = cur.fold_proposals(defs=defs.fresh() if defs is cur else defs)
        for r in list(props)[:12]:
            # the proposal really matches a definition: folder body instance is part of the folded body
            fb = [L.read(b, n := {}) for b in r.folder.body]
            n2 = {}
            tb = [L.read(b, n2) for b in r.folded.body]
            s_ok = False
            from itertools import permutations
            for al in permutations(range(len(tb)), len(fb)):
                s = {}
                for a, k in enumerate(al):
                    s = L.match(fb[a], tb[k], s)
                    if s is None: break
                if s is not None: s_ok = True; break
            if not s_ok: return f'{steps}: proposal {r} does not match its definition {r.folder}'
        got = list(cur.partial_megafolds(defs=defs))[:12]
        for f in got:
            for how in ('unit', 'smt'):
                if how == 'smt' and rng.random() < .5: continue
                if ok_fold(f, how):
                    m = tx.compare(refs, P.rules_of(f), preds, f'program {P.text(rules)!r} {steps} fold {f.name} accepted by {how}')
                    if m: return m
                    if rng.random() < .4:
                        for f2 in list(f.partial_megafolds(defs=rng.choice([d, f])))[:3]:
                            if f2.safe_by_unit:
                                m = tx.compare(refs, P.rules_of(f2), preds, f'program {P.text(rules)!r} {steps} folds {f.name}, {f2.name}')
                                if m: return m
                    break
    elif kind == 'rev':
        acts = [(i, j) for i, r in enumerate(p.rules) for j, b in enumerate(r.body) if p.safe_inline(b)]
        cur = p
        if acts: cur = p.unfold(*rng.choice(acts))
        if len(cur) > 12: return 'skip'
        for f in list(cur.reversible_megafolds())[:8]:
            m = tx.compare(refs, P.rules_of(f), preds, f'reversible fold {f.name} of {P.text(P.rules_of(cur))!r}')
            if m: return m
    elif kind == 'cycle':
        # fold a rule by itself, or by a rule that its result supports: never acceptable unless the meaning is kept
        i = rng.randrange(len(p)); r = p.rules[i]
        for r2 in list(p.fold_proposals(defs=p.fresh(), skip_trivial=False, skip_zero_width=False))[:10]:
            for f in p.folds_by(r2, js=r2.j, defs=p):
                for how in ('unit', 'smt'):
                    try:
                        if not f.partially_safe: continue
                        acc = ok_fold(f, how)
                    except AssertionError: continue
                    if acc:
                        m = tx.compare(refs, P.rules_of(f), preds, f'{how} accepted {f.name} in {P.text(rules)!r}')
                        if m: return m
    else:
        # basic_fold with wrong S: lose a rule / fold too many / wrong definition
        ds = definition(rng, rules)
        if not ds: return 'skip'
        d = p.define(P.text(ds))
        props = list(d.fold_proposals(defs=d.fresh()))
        rng.shuffle(props)
        for r in props[:6]:
            S = set(rng.sample(range(len(d)), rng.randint(1, min(3, len(d)))))
            try: f = d.basic_fold(r, r.j, S, defs=rng.choice([None, d]))
            except (ValueError, AssertionError, KeyError): continue
            m = tx.compare(refs, P.rules_of(f), preds, f'basic_fold({r}, j={r.j}, S={S}) accepted in {P.text(rules + ds)!r}')
            if m: return m
