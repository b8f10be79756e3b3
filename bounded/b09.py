"""C09: lt / == / hash over terms."""
import itertools
from . import tlib as L
RULE = 'triples of terms over a pool of constants (int, float, str), variables with distinct names, nested terms, bound variables; all pairs/triples of the pool plus random ones'
CONSTS = [0, 1, 2, 1.5, 2.0, 'a', 'b', 'f', 'g', '']

def cases(rng, tier):
    pool = [('v', 0), ('v', 1), ('c', 1), ('c', 'f'), ('c', 'a'), ('c', 1.5), ('t', 'f', ()), ('t', 'f', (('c', 1),)), ('t', 'f', (('v', 0),)), ('t', 'f', (('c', 1), ('v', 1))),
            ('t', 'g', (('v', 1),)), ('t', 'f', (('t', 'g', (('c', 2),)),)), ('b', ('c', 1)), ('b', ('t', 'f', (('c', 1),))), ('b', ('v', 0))]
    for t in itertools.product(pool, repeat=3): yield ('triple',) + t
    for i in range(6000 if tier == 'quick' else 120000):
        a, b = L.gen_linked(rng, 3, 3, 0, bound=.1)
        r = rng.random()
        c = a if r < .1 else L.strip(b) if r < .2 else L.gen(rng, 3, 3, 0, .1, consts=CONSTS)
        yield ('triple', a, b, c)

def nontrivial(case): return any(t[0] == 't' for t in case[1:])

def teq(a, b):
    if a[0] != b[0]: return False
    if a[0] == 'c': return L.ceq(a[1], b[1])
    if a[0] == 'v': return a == b
    return a[1] == b[1] and len(a[2]) == len(b[2]) and all(map(teq, a[2], b[2]))

def check(case):
    from dyna.term import lt, snap
    env = {}
    ts = [L.build(t, env) for t in case[1:]]
    ss = [L.strip(t) for t in case[1:]]
    heap = [L.raw(t) for t in ts]
    n = 3
    LT = [[bool(lt(ts[i], ts[j])) for j in range(n)] for i in range(n)]
    EQ = [[bool(ts[i] == ts[j]) for j in range(n)] for i in range(n)]
    from dyna.term import Term, Var
    for i in range(n):
        if LT[i][i]: return f'{ss[i]} < itself'
        for j in range(n):
            want = teq(ss[i], ss[j])
            # == between a plain constant and a bound variable is decided by Var's reflected __eq__
            if EQ[i][j] != want: return f'{ss[i]} == {ss[j]} is {EQ[i][j]}'
            if want and hash(ts[i]) != hash(ts[j]) : return f'equal terms hash differently: {case[1 + i]} {case[1 + j]}'
            if want and LT[i][j]: return f'equal but ordered: {ss[i]} {ss[j]}'
            if not want and LT[i][j] == LT[j][i]: return f'not total/asymmetric on {ss[i]}, {ss[j]}: {LT[i][j]}, {LT[j][i]}'
            if ss[i][0] == 'v' and ss[j][0] != 'v' and not LT[j][i]: return f'variable not above {ss[j]}'
            for k in range(n):
                if LT[i][j] and LT[j][k] and not LT[i][k]: return f'not transitive: {ss[i]} < {ss[j]} < {ss[k]}'
                if EQ[i][j] and EQ[j][k] and not EQ[i][k]: return f'== not transitive'
            if isinstance(ts[i], (Term, Var)) and (ts[i] < ts[j]) != LT[i][j]: return '__lt__ differs from lt'
    if [L.raw(t) for t in ts] != heap: return 'terms modified'
