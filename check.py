#!/opt/venv/bin/python
"""Runs the check of one property:  check.py C10 [--tier quick|thorough] [--replay FILE]

1. deductive part: contracts of the property's functions (contracts/*.py) are
   verified against the source found in /repo NOW (pydv), every obligation
   discharged by an SMT solver;
2. bounded part: the same contracts, executed on the real code over generated
   inputs (the replay harness; and the stand-in for functions outside the
   verifier's subset -- labelled bounded, never counted as proved).

Exit 0: everything held.  Exit 1 + VIOLATION line: it did not.  2: checker error.
"""
import argparse, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback, hashlib, faulthandler

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':       # set iteration order is reproducible
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, VERIF]
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['CI'] = 'true'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


SLOW = 'did not finish within'


class CaseTimeout(BaseException):
    pass


def on_alarm(*_):
    raise CaseTimeout()


def run_case(mod, case, limit):
    """-> None or a message"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except CaseTimeout:
        return f'{SLOW} {limit}s'
    except RecursionError as e:
        return f'unexpected {type(e).__name__}: {str(e)[:200]}'
    except Exception as e:
        if isinstance(e, (MemoryError, OSError)) : raise
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.relpath(f.filename, REPO)}:{f.name}' for f in tb if f.filename.startswith(REPO)]
        return f'unexpected {type(e).__name__}: {str(e)[:200]} (in {where[-1] if where else "the oracle, while examining the result"})'
    finally:
        signal.alarm(0)


def worker(modname, k, n, seed, tier, deadline, q, extra):
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)     # the code under test may print
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        sys.setrecursionlimit(5000)
        mod = importlib.import_module(modname)
        rng = random.Random(f'{seed}-{modname}')
        stats = dict(evaluations=0, nontrivial=set(), samples=[], skipped=0, kinds={})
        fails = []
        limit = getattr(mod, 'CASE_LIMIT', 30)
        # cases(rng, tier) yields (case) ; every worker walks the same stream and takes its share
        for i, case in enumerate(mod.cases(rng, tier)):
            if i % n != k: continue
            if time.time() > deadline: stats['cut'] = True; break
            msg = run_case(mod, case, limit)
            if msg == 'skip': stats['skipped'] += 1; continue
            stats['evaluations'] += 1
            kind = case[0] if isinstance(case, (tuple, list)) and case and isinstance(case[0], str) else 'case'
            stats['kinds'][kind] = stats['kinds'].get(kind, 0) + 1
            nt = mod.nontrivial(case) if hasattr(mod, 'nontrivial') else True
            if nt: stats['nontrivial'].add(hashlib.md5(repr(case).encode()).hexdigest())
            if len(stats['samples']) < 2 and nt: stats['samples'].append(repr(case)[:400])
            if msg:
                fails.append((case, msg))
                if len(fails) >= 3: break
        q.put((k, stats, fails, None))
    except BaseException as e:
        q.put((k, None, [], ''.join(traceback.format_exception(e))[-3000:]))


def bounded(modname, seed, tier, budget, extra=None):
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    deadline = time.time() + budget
    ps = [ctx.Process(target=worker, args=(modname, k, JOBS, seed, tier, deadline, q, extra), daemon=True) for k in range(JOBS)]
    for p in ps: p.start()
    res, errors = {}, []
    import queue
    while len(res) < JOBS:
        try:
            k, stats, fails, err = q.get(timeout=1.0)
            res[k] = (stats, fails)
            if err: errors.append(err)
        except queue.Empty:
            for k, p in enumerate(ps):
                if not p.is_alive() and k not in res and q.empty():
                    time.sleep(0.3)
                    if q.empty():
                        res[k] = (None, []); errors.append(f'worker {k} died (exit {p.exitcode})')
            if time.time() > deadline + 120:
                for k, p in enumerate(ps):
                    if k not in res: p.kill(); res[k] = (None, []); errors.append(f'worker {k} stuck')
    for p in ps: p.join(timeout=5)
    ev = sum(s['evaluations'] for s, _ in res.values() if s)
    nt = set().union(*[s['nontrivial'] for s, _ in res.values() if s] or [set()])
    kinds = {}
    for s, _ in res.values():
        for k, v in (s['kinds'] if s else {}).items(): kinds[k] = kinds.get(k, 0) + v
    samples = [x for s, _ in res.values() if s for x in s['samples']][:6]
    fails = [f for _, fs in res.values() for f in fs]
    fails.sort(key=lambda f: len(repr(f[0])))
    return dict(evaluations=ev, distinct=len(nt), samples=samples, fails=fails, errors=errors, kinds=kinds,
                skipped=sum(s['skipped'] for s, _ in res.values() if s), cut=any(s and s.get('cut') for s, _ in res.values()))


def prove_one(args):
    """Verify the contracts of one sidecar module (in a subprocess)."""
    modname, quals, timeout = args
    t0 = time.time()
    from pydv.engine import Engine, Unsupported
    from pydv import smt, frontend
    import z3
    out = dict(module=modname, functions=[], failed=[], undecided=[], obligations=0, discharged=0, backends={}, solver_s=0.0, vacuity=[], assumptions=[], inlined={}, trusted=[])
    mod = importlib.import_module(modname)
    Engine.vacuity = []
    todo = [c for k, c in mod.C.items() if not c.trusted and (quals is None or c.qual in quals)]
    out['trusted'] = [f'{c.relpath}:{c.qual}: {c.trusted}' for c in mod.C.values() if c.trusted]
    eng = Engine(mod.C, theory=getattr(mod, 'THEORY', None))
    per = {}
    for c in todo:
        n0 = len(eng.obls)
        try:
            eng.verify(c)
        except (Unsupported, frontend.Missing, SyntaxError, KeyError, AttributeError, z3.Z3Exception, AssertionError, RecursionError, TypeError, IndexError, ValueError) as e:
            # the function is (now) written outside the subset the verifier reads: undecided by proof, not refuted
            out['undecided'].append(dict(function=f'{c.relpath}:{c.qual}', why=f'{type(e).__name__}: {e}'[:300]))
            del eng.obls[n0:]
            continue
        per[c.qual] = (len(eng.obls) - n0)
        if len(eng.obls) == n0 and not getattr(c, 'allow_empty', False):
            out['failed'].append(dict(obligation=f'{c.qual}/zero obligations', status='vacuous', why='no obligation generated', function=c.key))
    lemmas = getattr(mod, 'LEMMAS', [])
    from pydv.engine import Obligation
    lem = []
    for name, hyps, goal, axs in (lemmas() if callable(lemmas) else lemmas):
        o = Obligation('lemma', name, hyps, goal, None, axioms=axs)
        lem.append(o)
    smt.discharge(eng.obls, eng.axioms(), jobs=JOBS, timeout=timeout)
    smt.discharge(lem, [], jobs=JOBS, timeout=timeout)
    for o in eng.obls + lem:
        out['obligations'] += 1
        out['solver_s'] += o.time
        if o.status == 'discharged':
            out['discharged'] += 1
            out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
        else:
            out['failed'].append(dict(obligation=o.key, status=o.status, line=o.line, why=str(getattr(o, 'log', '')), function=o.func))
    # vacuity: False must not follow from a precondition, and some exit of every function must be reachable
    from concurrent.futures import ThreadPoolExecutor
    axs = eng.axioms()
    jobs = []
    for nm, pre, exits in Engine.vacuity:
        jobs.append((nm, 'pre', smt.to_smt2(axs + pre)))
        for e in exits[:6]: jobs.append((nm, 'exit', smt.to_smt2(axs + e)))
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda j: (j[0], j[1], smt.run(smt.BACKENDS[0][1], j[2], 2)[0]), jobs))
    names = {}
    for nm, what, r in rs: names.setdefault(nm, {'pre': [], 'exit': []})[what].append(r)
    for nm, d in names.items():
        bad = 'unsat' in d['pre'] or (d['exit'] and all(r == 'unsat' for r in d['exit'])) or not d['exit']
        if bad and nm not in getattr(mod, 'NO_EXIT_OK', ()):
            out['failed'].append(dict(obligation=f'{nm}/reachability', status='vacuous', why=str(d), function=nm))
        out['vacuity'].append(dict(function=nm, pre=d['pre'][0] if d['pre'] else None, exits=len(d['exit']), unreachable=d['exit'].count('unsat')))
    out['functions'] = [dict(function=k, digest=v, obligations=per.get(k.split(':')[1], 0)) for k, v in eng.funcs_used.items()]
    out['inlined'] = eng.inlined
    out['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', []))
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def prove_job(job, path):
    import pickle
    out = prove_one(job)
    with open(path + '.tmp', 'wb') as f: pickle.dump(out, f)
    os.replace(path + '.tmp', path)


def prove(specs, timeout):
    """each spec: module name or (module, [qualnames]); every module in a process of its own (a crash of the solver
    library is retried with the solver outside the process)"""
    import pickle, shutil, tempfile
    ctx = mp.get_context('spawn')
    jobs = [((s if isinstance(s, str) else s[0]), (None if isinstance(s, str) else s[1]), timeout) for s in specs]
    tmp = tempfile.mkdtemp(prefix='pydv')
    outs = {}
    try:
        todo = [(i, 0) for i in range(len(jobs))]
        running = {}
        while todo or running:
            while todo and len(running) < 4:
                i, attempt = todo.pop(0)
                if attempt: os.environ['PYDV_FEAS_SUB'] = '1'
                else: os.environ.pop('PYDV_FEAS_SUB', None)
                p = ctx.Process(target=prove_job, args=(jobs[i], f'{tmp}/{i}'))
                p.start()
                running[p] = (i, attempt)
            for p in list(running):
                p.join(timeout=0.05)
                if p.exitcode is None: continue
                i, attempt = running.pop(p)
                if os.path.exists(f'{tmp}/{i}'):
                    with open(f'{tmp}/{i}', 'rb') as f: outs[i] = pickle.load(f)
                elif attempt == 0: todo.append((i, 1))
                else: raise RuntimeError(f'verifier process for {jobs[i][0]} ended with code {p.exitcode}')
    finally:
        os.environ.pop('PYDV_FEAS_SUB', None)
        shutil.rmtree(tmp, ignore_errors=True)
    return [outs[i] for i in range(len(jobs))]


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f['property'] == pid and f.get('status') != 'fixed']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-bounded', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module(f'checks.{pid}')
    if a.replay:
        r = json.load(open(a.replay))
        if r.get('kind') != 'input':
            print(json.dumps(r, indent=1)); return 0
        b = importlib.import_module(mod.BOUNDED)
        msg = run_case(b, eval(r['case'], {'inf': float('inf')}), 120)
        print('replayed:', msg or 'property holds on this input')
        return 1 if msg else 0
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)

    level = mod.LEVEL
    proofs = [] if a.no_proof else prove(getattr(mod, 'PROOFS', []), getattr(mod, 'PROOF_TIMEOUT', 30 if tier == 'quick' else 120))
    failed = [f for o in proofs for f in o['failed']]
    undecided = [f for o in proofs for f in o['undecided']]
    if undecided:
        if level == 'proof': level = 'exploration'          # this run: those functions are only checked, bounded
        for u in undecided: print('  outside the verified subset (bounded check only):', u['function'], u['why'][:120])
    budget = a.budget or (getattr(mod, 'BUDGET', 40) if tier == 'quick' else getattr(mod, 'BUDGET_THOROUGH', 600))
    b = dict(evaluations=0, distinct=0, samples=[], fails=[], errors=[], kinds={}, skipped=0, cut=False)
    bname = getattr(mod, 'BOUNDED', None)
    if bname and not a.no_bounded:
        b = bounded(bname, seed, tier, budget)
        if (failed or undecided) and not b['fails'] and not b['errors'] and tier == 'quick':
            # the verifier rejects: look harder for a concrete witness (deeper generator, another seed)
            b2 = bounded(bname, seed + 1000, 'thorough', min(3 * budget, 150))
            b['fails'] += b2['fails']; b['errors'] += b2['errors']; b['evaluations'] += b2['evaluations']
        # a case that ran out of time (a busy machine?) is tried again, alone and with a long limit
        slow = [f for f in b['fails'] if f[1].startswith(SLOW)]
        b['fails'] = [f for f in b['fails'] if not f[1].startswith(SLOW)]
        if not b['fails']:
            for case, _ in slow[:2]:
                msg = run_case(importlib.import_module(bname), case, 100)
                if msg and msg != 'skip': b['fails'].append((case, msg)); break

    violations, known = [], []
    kf = known_findings(pid)
    bm = importlib.import_module(bname) if bname else None
    for f in kf:
        # a listed finding is re-run on its exact input
        msg = run_case(bm, eval(f['case'], {'inf': float('inf')}), 60)
        if msg: print(f"KNOWN-FINDING: property={pid} {f['what']}"); known.append(f['what'])
    kcases = {f['case'] for f in kf}
    for case, msg in b['fails']:
        if repr(case) in kcases: continue
        violations.append(('input', case, msg))

    obl = sum(o['obligations'] for o in proofs)
    dis = sum(o['discharged'] for o in proofs)
    cov = {}
    if proofs or level == 'proof':
        cov.update(obligations=obl, discharged=dis,
                   checker_cmd=f'/opt/venv/bin/python /verif/check.py {pid} --tier {tier}',
                   trusted_base=list(dict.fromkeys(['pydv (this repository\'s VC generator) and its model of Python semantics (DESIGN.md)',
                                                    'z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12', 'CPython 3.12'] + [t for o in proofs for t in o['trusted']])),
                   functions_under_contract=[f for o in proofs for f in o['functions']],
                   inlined_without_contract={k: v for o in proofs for k, v in o['inlined'].items()},
                   backends={k: sum(o['backends'].get(k, 0) for o in proofs) for k in {k for o in proofs for k in o['backends']}},
                   solver_s=round(sum(o['solver_s'] for o in proofs), 2),
                   vacuity_checks=[v for o in proofs for v in o['vacuity']],
                   failed_obligations=failed[:20],
                   undecided_functions=undecided)
    if bname:
        cov.update(evaluations=b['evaluations'], distinct_nontrivial=b['distinct'],
                   rule=(bm.RULE if bm else ''), samples=b['samples'] or ['(none)'],
                   bounded_note='contract checks executed on the real code; bounded, not counted as proved',
                   case_kinds=b['kinds'], skipped=b['skipped'], cut_by_time=b['cut'])
    if level == 'other' or getattr(mod, 'EXPLANATION', None):
        cov['explanation'] = mod.EXPLANATION
    if known: cov['known_findings'] = known
    nviol = len(violations) + (1 if failed and not violations else 0)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(dict.fromkeys(getattr(mod, 'ASSUMPTIONS', []) + [x for o in proofs for x in o['assumptions']])),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    rp = os.path.join(VERIF, 'evidence', 'replay', f'{pid}.json')
    print(f"{pid} [{tier}] obligations {dis}/{obl} discharged; bounded evaluations {b['evaluations']} ({b['distinct']} distinct non-trivial); {ev['wall_s']}s")
    if violations:
        kind, case, msg = violations[0]
        json.dump(dict(property=pid, kind='input', case=repr(case), message=msg, failed_obligations=failed[:10],
                       how=f'/opt/venv/bin/python /verif/check.py {pid} --replay {rp}'), open(rp, 'w'), indent=1)
        print(f'  input: {repr(case)[:600]}\n  {msg[:600]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if b['errors']:
        print('CHECKER ERROR\n' + b['errors'][0], file=sys.stderr)
        return 2
    if failed:
        json.dump(dict(property=pid, kind='obligation', failed_obligations=failed, note='no failing input found by the bounded search'), open(rp, 'w'), indent=1)
        for f in failed[:5]: print('  failed obligation:', f['obligation'], f['status'], f['why'][:200])
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        return 1
    if getattr(mod, 'PROOFS', []) and not a.no_proof and obl == 0 and not undecided:
        print('CHECKER ERROR: zero obligations', file=sys.stderr); return 2
    if bname and not a.no_bounded and b['evaluations'] == 0:
        print('CHECKER ERROR: zero evaluations', file=sys.stderr); return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
