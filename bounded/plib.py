"""Random weighted logic programs and an independent naive evaluator (reference semantics for the bounded checks).

A spec rule is (head, [body items]); a body item is a spec term (subgoal), ('w', number) (a constant factor)
or a builtin: ('t','<',(a,b)), ('t','!=',(a,b)), ('t','=',(a,b)), ('t','is',(v, ('t','+',(a,b)))).
Meaning: value(item) = sum over rules, over groundings of the rule, of the product of the body values, iterated from zero.
"""
import itertools
from . import tlib as L

V = lambda k: ('v', k)
Cn = lambda c: ('c', c)
def T(fn, *args): return ('t', fn, tuple(args))
BUILTIN = {('<', 2), ('!=', 2), ('=', 2), ('is', 2), ('>', 2), ('<=', 2), ('>=', 2), ('==', 2), ('$not_matches', 2)}
def is_builtin(t): return t[0] == 't' and (t[1], len(t[2])) in BUILTIN


# ---------------------------------------------------------------- text
def show(t):
    if t[0] == 'v': return f'X{t[1]}'
    if t[0] == 'c': return repr(t[1]) if isinstance(t[1], (int, float)) else ('"%s"' % t[1] if not t[1].isidentifier() or not t[1][0].islower() else f'"{t[1]}"')
    f, a = t[1], t[2]
    if f == 'is' and a[0] == Cn(True): return f'(true is {show(a[1])})'
    if f == 'is': return f'({show(a[0])} is {show(a[1])})'
    if f in ('<', '!=', '>', '<=', '>=', '=', '+', '-', '==') and len(a) == 2: return f'({show(a[0])} {f} {show(a[1])})'
    return f + ('(' + ', '.join(map(show, a)) + ')' if a else '')
def show_item(b): return repr(b[1]) if b[0] == 'w' else show(b)
def show_rule(r):
    h, body = r
    if not body: return show(h) + '.'
    return f'{show(h)} += ' + ' * '.join(map(show_item, body)) + '.'
def text(rules): return '\n'.join(map(show_rule, rules))


# ---------------------------------------------------------------- reference evaluation
class Diverges(Exception): pass

def ground(t): return t[0] == 'c' or t[0] == 't' and all(map(ground, t[2]))
def num(t): return t[0] == 'c' and isinstance(t[1], (int, float))

def eval_builtin(t, s):
    "-> list of extended substitutions (triangular), or None when not ready"
    f, args = t[1], t[2]
    if f == '=':
        s2 = L.unify(args[0], args[1], s)
        return [] if s2 is None else [s2]
    if f == '$not_matches':
        b = L.apply(s, args[1])
        if not ground(b): return None
        pat = L.read(args[0][1].x, {})
        return [] if L.match(pat, b, {}) is not None else [s]
    if f == 'is':
        e = L.apply(s, args[1])
        v = L.apply(s, args[0])
        if e[0] == 't' and e[1] == 'range':
            x, a, b = e[2]
            if not (num(a) and num(b)): return None
            if v != Cn(True): raise NotImplementedError(e)
            out = [L.unify(x, Cn(i), s) for i in range(a[1], b[1])]
            return [o for o in out if o is not None]
        if e[0] == 't' and e[1] == 'abs':
            x, = e[2]
            if num(x): out = [L.unify(v, Cn(abs(x[1])), s)]
            elif num(v): out = [L.unify(x, Cn(c), s) for c in sorted({v[1], -v[1]}) if v[1] >= 0]
            else: return None
            return [o for o in out if o is not None]
        if e[0] != 't' or len(e[2]) != 2: raise NotImplementedError(e)
        a, b = e[2]
        if e[1] == '-':                # v is a-b  <=>  a is v+b
            v, a = a, v
        elif e[1] != '+': raise NotImplementedError(e)
        if num(a) and num(b): r = (v, Cn(a[1] + b[1]))
        elif num(v) and num(a): r = (b, Cn(v[1] - a[1]))
        elif num(v) and num(b): r = (a, Cn(v[1] - b[1]))
        else: return None
        s2 = L.unify(r[0], r[1], s)
        return [] if s2 is None else [s2]
    a, b = L.apply(s, args[0]), L.apply(s, args[1])
    if not (ground(a) and ground(b)): return None
    a, b = a[1], b[1]
    ok = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '!=': lambda: a != b, '==': lambda: a == b}[f]()
    return [s] if ok else []

class Index:
    def __init__(self, chart):
        self.by = {}
        for k, v in chart.items(): self.by.setdefault((k[1], len(k[2])), []).append((k, v))
    def get(self, t): return self.by.get((t[1], len(t[2])), ())

def fire(rule, chart, one=1, times=lambda a, b: a * b, ix=None, lookup=None):
    "yield (substitution, value) of every grounding of the rule's body"
    ix = ix or Index(chart)
    def go(items, s, val):
        for n, b in enumerate(items):
            rest = items[:n] + items[n + 1:]
            if b[0] == 'w':
                yield from go(rest, s, times(val, b[1])); return
            if is_builtin(b):
                r = eval_builtin(b, s)
                if r is None: continue
                for s2 in r: yield from go(rest, s2, val)
                return
            g = L.apply(s, b)
            for k, v in ix.get(g):
                s2 = L.match(g, k, {})
                if s2 is None: continue
                yield from go(rest, {**s, **s2}, times(val, v))
            return
        if items: raise Diverges('floundering')
        yield s, val
    yield from go(list(rule[1]), {}, one)

def evaluate(rules, facts=(), iters=400, tol=1e-12, one=1.0, zero=0.0, plus=lambda a, b: a + b, times=lambda a, b: a * b, maxitems=4000, boolean=False):
    "least fixpoint by Jacobi iteration: {ground atom: value}"
    rules = list(facts) + list(rules)
    chart = {}
    for it in range(iters):
        new = {}
        ix = Index(chart)
        for r in rules:
            for s, v in fire(r, chart, one, times, ix):
                h = canonnum(L.apply(s, r[0]))
                if not ground(h): raise Diverges('non-ground head')
                new[h] = plus(new[h], v) if h in new else v
                if len(new) > maxitems: raise Diverges('too many items')
        if set(new) == set(chart) and all(close(new[k], chart[k], tol) for k in new): return new
        chart = new
        if any(isinstance(v, float) and abs(v) > 1e6 for v in chart.values()): raise Diverges('large')
    raise Diverges('no fixpoint')
def close(a, b, tol): return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))
def canonnum(t): return t

def instances(rules, chart):
    "all ground rule instances over the fixpoint: (rule index, ground head, [ground non-builtin subgoals])"
    ix = Index(chart)
    for i, r in enumerate(rules):
        for s, v in fire(r, chart, ix=ix):
            yield i, L.apply(s, r[0]), [L.apply(s, b) for b in r[1] if b[0] != 'w' and not is_builtin(b)], s


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, nconst=3, functions=True, builtins=True, recursion=0.5, weights=True, nrules=(2, 6), nidb=3, edb=None, maxbody=3, nonlinear=True, levels=True):
        self.rng, self.C = rng, list(range(nconst))
        self.functions, self.builtins, self.recursion, self.weights, self.maxbody, self.nonlinear = functions, builtins, recursion, weights, maxbody, nonlinear
        self.edb = edb or [('e', 2), ('n', 1), ('w', 2)]
        self.idb = [('p', rng.choice([0, 1, 2])), ('q', rng.choice([1, 2])), ('r', rng.choice([0, 1, 2]))][:nidb]
        self.nrules = nrules

    def const(self): return Cn(self.rng.choice(self.C))

    def rule(self, lvl):
        rng = self.rng
        h = self.idb[lvl]
        rec = rng.random() < self.recursion
        nv = rng.randint(1, 3)
        pool = [V(i) for i in range(nv)]
        body = []
        nrec = 0
        for _ in range(rng.randint(1, self.maxbody)):
            r = rng.random()
            if r < .55 or (lvl == 0 and not rec): f, n = rng.choice(self.edb)
            else:
                cands = self.idb[:lvl] + ([h] if rec and (self.nonlinear or nrec == 0) else [])
                if not cands: cands = self.edb
                f, n = rng.choice(cands)
                if (f, n) == h: nrec += 1
            body.append(T(f, *[rng.choice(pool) if rng.random() < .85 else self.const() for _ in range(n)]))
        if self.functions and rng.random() < .25:
            b = rng.randrange(len(body))
            t = body[b]
            if t[2] and t[1] == 'e': body[b] = T('e', *[T('f', a) if rng.random() < .5 else a for a in t[2]])
        bv = []
        for b in body: bv += [v for v in L.variables(b) if v not in bv]
        if self.builtins and bv and rng.random() < .3:
            x = rng.choice(bv)
            k = rng.random()
            if k < .35: body.append(T('!=', x, self.const()))
            elif k < .5: body.insert(rng.randint(0, len(body)), T('=', x, rng.choice(bv + [self.const()])))
            elif k < .75 and not nrec:
                nvv = V(nv); body.insert(rng.randint(0, len(body)), T('=', nvv, T('g', x) if rng.random() < .5 and self.functions else x)); bv.append(nvv)
            elif not self.functions: body.append(T('<', x, self.const()))
        def harg():
            r = rng.random()
            if bv and r < .8: return rng.choice(bv)
            if bv and r < .9 and self.functions and not nrec: return T('g', rng.choice(bv))
            return self.const()
        if self.weights and rng.random() < .5 or nrec: body.insert(rng.randint(0, len(body)), ('w', rng.choice([0.5, 0.25, 0.125]) if not nrec else rng.choice([0.125, 0.0625])))
        return (T(h[0], *[harg() for _ in range(h[1])]), body)

    def program(self):
        rng = self.rng
        rules = []
        for l in range(len(self.idb)): rules.append(self.rule(l))
        for _ in range(rng.randint(*self.nrules)): rules.append(self.rule(rng.randrange(len(self.idb))))
        rng.shuffle(rules)
        if rng.random() < .15: rules.append(rng.choice(rules))
        return rules

    def facts(self, n=None):
        rng = self.rng
        out = {}
        for _ in range(n if n is not None else rng.randint(2, 9)):
            f, k = rng.choice(self.edb)
            a = [self.const() for _ in range(k)]
            if self.functions and rng.random() < .15 and k: a[rng.randrange(k)] = T('f', self.const())
            out[T(f, *a)] = rng.choice([1.0, 0.5, 2.0, 0.25]) if self.weights else 1.0
        return [(k, [('w', v)]) for k, v in out.items()]

    def inputs(self): return '\n'.join('input ' + f + ('(' + ','.join('_' * n) + ')' if n else '') + '.' for f, n in self.edb)


# ---------------------------------------------------------------- reading results of the real system
def read_chart(items):
    "items: iterable of (real term, value) -> {spec: value}, variants merged"
    out = {}
    for k, v in items:
        t = L.read(k, {})
        t = L.canon_keep(t)
        v = tofloat(v)
        if t in out: out[t] = ('dup', out[t], v)
        else: out[t] = v
    return out
def tofloat(v):
    if isinstance(v, (int, float, bool)): return v
    for a in ('score', 'x', 'val', 'value'):
        if hasattr(v, a): return getattr(v, a)
    return float(v)

def chart_of_program(P):
    from dyna.term import Term
    out = {}
    for r in P:
        t = L.canon_keep(L.read(r.head, {}))
        v = 1.0
        for b in r.body:
            if isinstance(b, Term): v = ('delayed', str(r)); break
            v = v * tofloat(b)
        if t in out: out[t] = out[t] + v if not isinstance(v, tuple) and not isinstance(out[t], tuple) else ('dup', v)
        else: out[t] = v
    return out

def rules_of(Pg):
    "spec rules of a real program (constants become weights)"
    out = []
    for r in Pg:
        n = {}
        h = L.read(r.head, n)
        body = [L.read(b, n) for b in r.body]
        out.append((h, [('w', tofloat(b[1])) if b[0] == 'c' else b for b in body]))
    return out
def one_step(rules, chart):
    "total contribution of the rules to every ground head under a chart"
    out, ix = {}, Index(chart)
    for r in rules:
        for s, v in fire(r, chart, ix=ix):
            h = L.apply(s, r[0])
            out[h] = out.get(h, 0.0) + v
    return out

def chart_of_program_any(P_):
    out = {}
    for r in P_:
        v = True
        for b in r.body: v = v and bool(getattr(b, 'x', getattr(b, 'score', b)))
        out[L.canon_keep(L.read(r.head, {}))] = v
    return out

def diff(got, want, preds=None, tol=1e-6, zero=1e-9):
    "first difference between two charts (missing = zero)"
    for k in sorted(set(got) | set(want), key=repr):
        if preds is not None and (k[0] != 't' or (k[1], len(k[2])) not in preds): continue
        g, w = got.get(k, 0.0), want.get(k, 0.0)
        if isinstance(g, tuple): return f'{show(k)}: {g}'
        if abs(g - w) > tol * max(1.0, abs(w)): return f'{show(k)}: got {g}, expected {w}'
    return None
def extra(got, want, zero=1e-12):
    "items in got that are not derivable"
    for k, v in got.items():
        if k not in want and not (isinstance(v, (int, float)) and abs(v) < zero): return show(k)
