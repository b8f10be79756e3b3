"""Model-based execution of BucketQueue against a plain dict (witness search / replay for C10)."""
import itertools
RULE = 'operation sequences over <=6 items and priorities in -4..9 (exhaustive up to length 3 on 2 items, random up to length 60), incl. mutation during iteration; non-trivial = at least 3 operations'

def cases(rng, tier):
    ops = [('set', i, p) for i in 'ab' for p in (0, 2)] + [('del', i) for i in 'ab'] + [('pop',), ('iter', 1), ('items', 2)]
    for n in (1, 2, 3):
        for seq in itertools.product(ops, repeat=n): yield ('seq', list(seq))
    for _ in range(6000 if tier == 'quick' else 200000):
        seq = []
        for _ in range(rng.randint(2, 40)):
            r = rng.random()
            it = rng.choice('abcdef')
            if r < .5: seq.append(('set', it, rng.randint(-4, 9)))
            elif r < .6: seq.append(('del', it))
            elif r < .7: seq.append(('get', it))
            elif r < .8: seq.append(('pop',))
            elif r < .9: seq.append(('iter', rng.randint(1, 4)) + tuple((rng.choice('abcdef'), rng.randint(-4, 9)) for _ in range(rng.randint(0, 3))))
            else: seq.append(('items', rng.randint(1, 4)) + tuple((rng.choice('abcdef'), rng.randint(-4, 9)) for _ in range(rng.randint(0, 3))))
        yield ('seq', seq)

def nontrivial(case): return len(case[1]) >= 3

def check(case):
    from dyna.util.bucket_queue import BucketQueue
    Q, D = BucketQueue(), {}
    def same():
        if len(Q) != len(D): return f'len {len(Q)} != {len(D)}'
        for x in 'abcdef':
            if (x in Q) != (x in D): return f'membership of {x}'
            if x in D and Q[x] != D[x]: return f'priority of {x}: {Q[x]} != {D[x]}'
    def took(x, p, op):
        if x not in D: return f'{op} returned absent item {x}'
        if D[x] != min(D.values()): return f'{op} returned {x} with priority {D[x]}, minimum is {min(D.values())}'
        if p is not None and p != D[x]: return f'{op} reported priority {p} for {x}, is {D[x]}'
        del D[x]
    for op in case[1]:
        if op[0] == 'set': Q[op[1]] = op[2]; D[op[1]] = op[2]
        elif op[0] in ('del', 'get'):
            try:
                if op[0] == 'del': del Q[op[1]]
                else:
                    v = Q[op[1]]
                    if v != D.get(op[1]): return f'get {op[1]}'
                ok = True
            except KeyError: ok = False
            if ok != (op[1] in D): return f'{op}: error behaviour'
            if op[0] == 'del': D.pop(op[1], None)
        elif op[0] == 'pop':
            r = Q.popitem()
            if r is None:
                if D: return 'popitem returned None on a non-empty queue'
            else:
                m = took(r[0], r[1], 'popitem')
                if m: return m
        else:
            n, mods = op[1], list(op[2:])
            it = iter(Q) if op[0] == 'iter' else Q.items()
            for _ in range(n):
                try: x = next(it)
                except StopIteration:
                    if D: return f'{op[0]} stopped on a non-empty queue'
                    break
                x, p = x if op[0] == 'items' else (x, None)
                m = took(x, p, op[0]) or same()
                if m: return m
                for y, q in mods: Q[y] = q; D[y] = q
        m = same()
        if m: return f'after {op}: {m}'
    # drain
    while D:
        r = Q.popitem()
        if r is None: return 'drain: None on non-empty'
        m = took(r[0], r[1], 'drain')
        if m: return m
    if Q.popitem() is not None: return 'queue not empty after draining'
