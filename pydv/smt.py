"""Discharging obligations: z3 (several versions/configurations) then cvc5, in parallel subprocesses."""
import os, re, subprocess, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3

Z3NEW = '/usr/local/bin/z3-new' if os.path.exists('/usr/local/bin/z3-new') else 'z3'
BACKENDS = [
    ('z3-5.3.2', [Z3NEW, '-smt2', '-in', 'smt.random_seed=1']),
    ('z3-5.3.2-nombqi', [Z3NEW, '-smt2', '-in', 'smt.mbqi=false', 'smt.random_seed=1']),
    ('cvc5-1.1.2', ['cvc5', '--lang=smt2', '--full-saturate-quant', '-']),
    ('z3-4.8.12', ['/usr/bin/z3', '-smt2', '-in', 'smt.mbqi=false', 'smt.random_seed=1']),
]


def to_smt2(assertions):
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    sorts = re.findall(r'^\(declare-sort [^)]*\)$', txt, re.M)      # z3 may print them after their first use
    txt = re.sub(r'^\(declare-sort [^)]*\)$', '', txt, flags=re.M)
    return '(set-logic ALL)\n' + '\n'.join(sorts) + '\n' + txt.replace('(set-info :status unknown)', '')


def run(cmd, text, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd + ([f'-T:{int(timeout)}'] if 'z3' in cmd[0] else []), input=text, capture_output=True,
                           text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0].strip() if p.stdout.strip() else 'error'
        if out not in ('sat', 'unsat', 'unknown'): out = 'timeout' if 'timeout' in out else f'error: {(p.stdout + p.stderr)[:120]}'
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t


def solve(text, timeout=30, hurry=None):
    """-> (verdict, backend, seconds, [(backend, verdict, secs)]).  hurry(): once true (several obligations of this
    run have already failed, so the verdict is settled) only one short attempt is made."""
    log, total = [], 0.0
    sat = None
    # quick first pass on everything, then a long pass
    for tmo in ((3, timeout) if timeout > 3 else (timeout,)):
        for name, cmd in BACKENDS:
            if sat == name: continue
            if log and hurry and hurry(): return ('refuted' if sat else 'unknown'), sat, total, log
            r, dt = run(cmd, text, tmo)
            total += dt
            log.append((name, r, round(dt, 2)))
            if r == 'unsat': return 'discharged', name, total, log
            if r == 'sat' and sat is None: sat = name
        if sat: break
    return ('refuted' if sat else 'unknown'), sat, total, log


def discharge(obls, axioms, jobs=8, timeout=30, enough=4):
    """Fill in .status of every obligation.  Texts are built serially (z3 contexts
    are not thread safe); solvers run as subprocesses."""
    seen = {}
    work = []
    for o in obls:
        g = z3.simplify(o.goal) if not z3.is_quantifier(o.goal) else o.goal
        if z3.is_true(g):
            o.status, o.backend, o.log = 'discharged', 'simplifier', []
            continue
        text = to_smt2(list(axioms) + list(o.axioms) + o.pc + [z3.Not(o.goal)])
        h = hashlib.sha256(text.encode()).hexdigest()
        o.hash = h
        if h in seen: seen[h].append(o); continue
        seen[h] = [o]
        work.append((h, text))
    nfail = [0]
    def job(w):
        r = solve(w[1], timeout, hurry=lambda: nfail[0] >= enough)
        if r[0] != 'discharged': nfail[0] += 1
        return w[0], r
    with ThreadPoolExecutor(jobs) as ex:
        for h, (v, b, t, log) in ex.map(job, work):
            for o in seen[h]:
                o.status, o.backend, o.time, o.log = v, b, t / len(seen[h]), log
    return obls


def consistent(assertions, timeout=5):
    "vacuity guard: False must not be provable"
    text = to_smt2(assertions)
    r, dt = run(BACKENDS[0][1], text, timeout)
    return r != 'unsat', r, dt
