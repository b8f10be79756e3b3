"""C02: every iterator that binds variables undoes its bindings, however it ends."""
import itertools
from . import tlib as L
RULE = 'iterators unify / unifyN / I / Join / Product.snap_unifications / built-in relations / Program.lookup / solver queries, nested 1-3 deep, ended by exhaustion, abandonment after k results (close or garbage collection) or an exception in the consumer; heap pictures compared'
CASE_LIMIT = 20
QS = ['is(X,+(Y,"Z"))'] 

def cases(rng, tier):
    n = 4000 if tier == 'quick' else 60000
    ends = ['exhaust', 'close', 'gc', 'throw', 'raise']
    P = L.pool()[::2]
    for x in P:
        for y in P:
            for e in ('close', 'raise', 'exhaust'): yield ('iter', [('unify', x, y)], e, 1)
    for i in range(n):
        k = rng.randint(1, 3)
        chain = []
        for _ in range(k):
            a, b = L.gen_linked(rng, 2, 4, 0, bound=.05)
            kind = rng.choice(['unify', 'unify', 'unifyN', 'I', 'Join', 'snapu', 'builtin', 'lookup'])
            if kind in ('unify', 'I', 'Join'): chain.append((kind, a, b))
            elif kind == 'unifyN': chain.append((kind, [L.gen_linked(rng, 1, 4, 0) for _ in range(rng.randint(0, 3))]))
            elif kind == 'snapu': chain.append((kind, [L.gen_linked(rng, 1, 4, 0) if rng.random() < .7 else L.gen(rng, 1, 3) for _ in range(rng.randint(0, 4))]))
            elif kind == 'lookup': chain.append((kind, rng.choice(['prog', 'sol1', 's2', 'user', 'agenda']), rng.choice([('t', 'e', (('v', 0), ('v', 1))), ('t', 'e', (('v', 0), ('v', 0))), ('t', 'e', (('c', 1), ('v', 2))), ('t', 'r', (('v', 1), ('c', 3))), ('t', 'r', (('v', 1), ('v', 0))), ('t', '=', (('v', 0), ('t', 'g', (('v', 1),)))), ('t', '<', (('c', 1), ('c', 2)))])))
            else: chain.append((kind, rng.choice([('range', [('v', 0), ('c', 0), ('c', 4)], ('c', True)), ('+', [('v', 0), ('v', 1)], ('c', 'abc')), ('+', [('c', 2), ('v', 1)], ('c', 5)),
                                                     ('abs', [('v', 1)], ('c', 3)), ('*', [('v', 0), ('c', 2)], ('c', 6)), ('+', [('c', 0), ('v', 2)], ('v', 1)), ('int', [('v', 3)], ('c', True)), ('<', [('c', 1), ('c', 2)], ('v', 0))])))
        yield ('iter', chain, rng.choice(ends), rng.randint(1, 4))

def nontrivial(case): return True

class Boom(Exception): pass

SRC = """
e(1,2). e(2,3). e(3,3). e(2,1).
r(X,Y) += e(X,Y).
r(X,Z) += 0.25 * e(X,Y) * r(Y,Z).
"""
_prog = {}
def progs():
    if not _prog:
        from dyna import Program
        p = Program(SRC)
        _prog['prog'] = p
        _prog['sol1'] = p.solve(solver=1)
        _prog['agenda'] = p('')
        s2 = p.solver2(); s2('')
        _prog['s2'] = s2
    return _prog

def check(case):
    from dyna.term import unify, unifyN, I, Join, Constant, Product, Term, null_ptr
    from dyna.builtin import Builtins
    from dyna.exceptions import InstFault
    _, chain, end, k = case
    env = {}
    def nb(t): return L.build(t, env)
    objs, makers = [], []
    for step in chain:
        kind = step[0]
        if kind in ('unify', 'I', 'Join'):
            X, Y = nb(step[1]), nb(step[2])
            objs += [X, Y]
            if kind == 'unify': makers.append(lambda X=X, Y=Y: unify(X, Y))
            elif kind == 'I': makers.append(lambda X=X, Y=Y: iter(I(X, Y, Product())))
            else: makers.append(lambda X=X, Y=Y: iter(Join(I(X, Y, Product()), I(Y, X, Product()))))
        elif kind == 'unifyN':
            X, Y = [nb(a) for a, _ in step[1]], [nb(b) for _, b in step[1]]
            objs += X + Y
            makers.append(lambda X=X, Y=Y: unifyN(X, Y))
        elif kind == 'snapu':
            P = Product([Term('=', nb(s[0]), nb(s[1])) if isinstance(s[0], tuple) else nb(s) for s in step[1]])
            objs += list(P)
            makers.append(lambda P=P: P.snap_unifications())
        elif kind == 'lookup':
            q = nb(step[2])
            objs.append(q)
            ps = progs()
            w = step[1]
            if w == 'prog': makers.append(lambda q=q: ps['prog'].lookup(q) if q.fn not in ('<',) else iter(()))
            elif w == 'user': makers.append(lambda q=q: iter(list(ps['prog'].user_query(q))) if q.fn == 'e' else iter(()))
            elif w in ('agenda', 's2'): makers.append(lambda q=q, w=w: ps[w].lookup_vals(q))
            else: makers.append(lambda q=q: ps['sol1'].lookup(q))
        else:
            op, args, v = step[1]
            q = Term('is', nb(v), Term(op, *map(nb, args)))
            objs.append(q)
            makers.append(lambda q=q: Builtins(progs()['prog'])(q))
    watch = [env[k_] for k_ in sorted(env)] + objs
    before = [L.raw(o) for o in watch]
    def same(): return [L.raw(o) for o in watch] == before
    count = [0]
    class Limit(Exception): pass
    def nest(i):
        if i == len(makers):
            count[0] += 1
            yield
            return
        try:
            it = makers[i]()
            j = 0
            for _ in it:
                j += 1
                yield from nest(i + 1)
                if j >= 6: break
        except (InstFault, TypeError, ZeroDivisionError):
            return
    if end in ('exhaust', 'close', 'gc', 'throw'):
        g = nest(0)
        j = 0
        for _ in g:
            j += 1
            if end != 'exhaust' and j >= k: break
        if end == 'exhaust': pass
        elif end == 'close': g.close()
        elif end == 'throw':
            try: g.throw(Boom())
            except (Boom, StopIteration): pass
        del g
        import gc; gc.collect() if end == 'gc' else None
    else:
        def run():
            j = 0
            for _ in nest(0):
                j += 1
                if j >= k: raise Boom()
        try: run()
        except Boom as e:
            e.__traceback__ = None
    if not same():
        now = [L.raw(o) for o in watch]
        d = [(a, b) for a, b in zip(before, now) if a != b][:1]
        return f'bindings left after {end}: {d}'
