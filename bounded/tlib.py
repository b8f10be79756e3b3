"""Reference term algebra for the bounded checks: written independently of /repo (textbook definitions on tuples).

A spec term is ('v', k) | ('c', const) | ('t', fn, (args...)) | ('b', spec), the last a bound variable with that value.
"""
import itertools

FN = [('f', 2), ('g', 1), ('h', 3), ('k', 0), ('f', 1)]
CONST = [0, 1, 2, 'a', 'b', 2.5]


def gen(rng, depth, nv, base=0, bound=0.0, consts=CONST, fns=FN):
    r = rng.random()
    if bound and rng.random() < bound: return ('b', gen(rng, depth, nv, base, bound / 2, consts, fns))
    if depth <= 0 or r < .45:
        if nv and rng.random() < .65: return ('v', base + rng.randrange(nv))
        return ('c', rng.choice(consts))
    fn, n = rng.choice(fns)
    return ('t', fn, tuple(gen(rng, depth - 1, nv, base, bound, consts, fns) for _ in range(n)))


def gen_linked(rng, depth, nv, base2=None, bound=0.0, **kw):
    "a pair of terms that is likely related: common skeleton, holes filled differently"
    b2 = 0 if base2 is None else base2
    def two(d):
        if bound and rng.random() < bound:
            a, b = two(d); return ('b', a), (('b', b) if rng.random() < .5 else b)
        r = rng.random()
        if d <= 0 or r < .35:
            if rng.random() < .6: return gen(rng, 1, nv, 0, 0, **kw), gen(rng, 1, nv, b2, 0, **kw)
            if rng.random() < .5:
                c = rng.choice(CONST); return ('c', c), ('c', c)
            k = rng.randrange(max(nv, 1))
            return ('v', k), ('v', b2 + rng.randrange(max(nv, 1)))
        fn, n = rng.choice(kw.get('fns', FN))
        ab = [two(d - 1) for _ in range(n)]
        return ('t', fn, tuple(a for a, _ in ab)), ('t', fn, tuple(b for _, b in ab))
    return two(depth)


def strip(t):
    "remove bound-variable wrappers"
    if t[0] == 'b': return strip(t[1])
    if t[0] == 't': return ('t', t[1], tuple(strip(a) for a in t[2]))
    return t


def size(t): return 1 + sum(map(size, t[2])) if t[0] == 't' else (size(t[1]) + 1 if t[0] == 'b' else 1)
def variables(t):
    "in first-occurrence order"
    out = []
    def go(t):
        if t[0] == 'v':
            if t not in out: out.append(t)
        elif t[0] == 't':
            for a in t[2]: go(a)
        elif t[0] == 'b': go(t[1])
    go(t)
    return out


def walk(s, t):
    while t[0] == 'v' and t in s: t = s[t]
    return t
def occurs(s, v, t):
    t = walk(s, t)
    if t == v: return True
    return t[0] == 't' and any(occurs(s, v, a) for a in t[2])
def apply(s, t):
    t = walk(s, t)
    return ('t', t[1], tuple(apply(s, a) for a in t[2])) if t[0] == 't' else t
def ceq(a, b): return type(a) is type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)
def unify(x, y, s=None):
    "-> triangular substitution or None"
    s = dict(s or {})
    todo = [(x, y)]
    while todo:
        a, b = todo.pop()
        a, b = walk(s, a), walk(s, b)
        if a == b: continue
        if a[0] == 'v' or b[0] == 'v':
            if a[0] != 'v': a, b = b, a
            if occurs(s, a, b): return None
            s[a] = b
        elif a[0] == 't' and b[0] == 't':
            if a[1] != b[1] or len(a[2]) != len(b[2]): return None
            todo += list(zip(a[2], b[2]))
        elif a[0] == 'c' and b[0] == 'c' and ceq(a[1], b[1]): continue
        else: return None
    return s
def match(p, t, s=None):
    "one-way: s with s(p) == t, or None"
    s = dict(s or {})
    def go(p, t):
        if p[0] == 'v':
            if p in s: return s[p] == t
            s[p] = t; return True
        if p[0] == 'c': return t[0] == 'c' and ceq(p[1], t[1])
        return t[0] == 't' and p[1] == t[1] and len(p[2]) == len(t[2]) and all(go(a, b) for a, b in zip(p[2], t[2]))
    return s if go(p, t) else None
def subs(s, t):
    if t[0] == 'v': return s.get(t, t)
    return ('t', t[1], tuple(subs(s, a) for a in t[2])) if t[0] == 't' else t
def covers(p, t):
    "t is an instance of p (variables taken apart)"
    return match(rename(p, 'P'), rename(t, 'T')) is not None
def rename(t, tag):
    if t[0] == 'v': return ('v', (tag, t[1]))
    return ('t', t[1], tuple(rename(a, tag) for a in t[2])) if t[0] == 't' else t
def canon(t):
    "variables numbered by first occurrence"
    vs = {}
    def go(t):
        if t[0] == 'v': return ('v', vs.setdefault(t, len(vs)))
        if t[0] == 't': return ('t', t[1], tuple(go(a) for a in t[2]))
        return ('c', norm(t[1]))
    return go(t)
def norm(c): return float(c) if isinstance(c, (int, float)) and not isinstance(c, bool) else c
def variant(a, b): return canon(a) == canon(b)
def lgg(x, y):
    "least general generalisation (Plotkin)"
    m = {}
    def go(a, b):
        if a[0] == 'c' and b[0] == 'c' and ceq(a[1], b[1]): return a
        if a[0] == 't' and b[0] == 't' and a[1] == b[1] and len(a[2]) == len(b[2]):
            return ('t', a[1], tuple(go(p, q) for p, q in zip(a[2], b[2])))
        return ('v', ('G', m.setdefault((a, b), len(m))))
    return go(x, y)


# ---------------------------------------------------------------- to and from the real classes
def build(t, env):
    from dyna.term import Var, Term
    if t[0] == 'v':
        if t[1] not in env: env[t[1]] = Var(f'V{t[1]}')
        return env[t[1]]
    if t[0] == 'c': return t[1]
    if t[0] == 'b':
        v = Var('B'); v.value = build(t[1], env)
        return v
    return Term(t[1], *[build(a, env) for a in t[2]])


def read(x, names):
    "real term -> spec term, reading through bindings; names: Var object id -> key"
    from dyna.term import Var, Term, null_ptr
    seen = 0
    while isinstance(x, Var) and x.value is not null_ptr:
        x = x.value
        seen += 1
        if seen > 1000: raise ValueError('cyclic binding')
    if isinstance(x, Var): return ('v', names.setdefault(id(x), ('n', len(names), x.name)) if not isinstance(names, Fixed) else names[id(x)])
    if isinstance(x, Term):
        f = x.fargs[0]
        return ('t', f, tuple(read(a, names) for a in x.fargs[1:]))
    return ('c', x)


class Fixed(dict):
    def __missing__(self, k): return ('unknown', k)


def names_of(env):
    d = Fixed()
    for k, v in env.items(): d[id(v)] = k
    return d


def raw(x):
    "the exact heap picture of a term: variables by identity and binding"
    from dyna.term import Var, Term, null_ptr
    if isinstance(x, Var): return ('var', id(x), x.name, None if x.value is null_ptr else raw(x.value))
    if isinstance(x, Term): return ('term', id(x), type(x).__name__, tuple(raw(a) for a in x.fargs))
    if isinstance(x, (tuple, list)): return (type(x).__name__, tuple(raw(a) for a in x))
    return x


def pool(depth1=True):
    "small exhaustive pool over two variables"
    leaves = [('v', 0), ('v', 1), ('c', 0), ('c', 'a')]
    out = list(leaves)
    out += [('t', 'g', (a,)) for a in leaves]
    out += [('t', 'f', (a, b)) for a in leaves for b in leaves]
    return out


def canon_keep(t):
    "canonical variable numbering, constants as they are (1.0 and 1 hash alike)"
    vs = {}
    def go(t):
        if t[0] == 'v': return ('v', vs.setdefault(t, len(vs)))
        if t[0] == 't': return ('t', t[1], tuple(go(a) for a in t[2]))
        return t
    return go(t)
