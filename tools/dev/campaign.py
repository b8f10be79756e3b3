"""Random source mutants: which of those that pass the repository's tests do the checks miss?
usage: campaign.py SEED N WORKERS OUT   (works on copies under /tmp/camp)"""
import ast, random, sys, os, shutil, subprocess, json, concurrent.futures as cf, hashlib
REPO, V = '/repo', '/tmp/camp/verif'
MAP = {'dyna/term.py': 'C05 C01 C03 C04 C06 C07 C08 C09 C02 C13', 'dyna/rule.py': 'C13 C15 C21 C14 C22 C25 C31 C33', 'dyna/program.py': 'C14 C17 C20 C21 C25 C26 C15 C13 C29 C33 C28 C24 C22 C02 C19 C32',
 'dyna/util/bucket_queue.py': 'C10', 'dyna/util/graphs.py': 'C11', 'dyna/execute/linear.py': 'C12', 'dyna/execute/solver.py': 'C17 C18 C19 C20 C02', 'dyna/execute/solver2.py': 'C17 C18 C19 C20 C02',
 'dyna/execute/base.py': 'C17 C20 C19', 'dyna/builtin.py': 'C16 C23 C15', 'dyna/propagate.py': 'C31', 'dyna/analyze/types.py': 'C27 C26', 'dyna/analyze/dead.py': 'C26', 'dyna/analyze/abbreviate.py': 'C29',
 'dyna/analyze/coarse_graph.py': 'C28', 'dyna/analyze/runtime.py': 'C30', 'dyna/analyze/rewrites.py': 'C31 C15 C27', 'dyna/transform/fold.py': 'C22 C34', 'dyna/transform/measure.py': 'C22', 'dyna/transform/unfold.py': 'C21 C34',
 'dyna/transform/lct.py': 'C24 C34', 'dyna/transform/slash.py': 'C24 C34', 'dyna/transform/rule_elimination.py': 'C21 C34', 'dyna/derivations.py': 'C33 C34', 'dyna/search/search.py': 'C35', 'dyna/syntax.py': 'C32', 'dyna/pretty.py': 'C32'}
SKIP = ('repr', 'pretty', 'html', 'graphviz', 'show', 'viz', 'display', 'plot', 'print', '_format', 'render', 'main', 'draw', 'test', 'str', 'style', 'animate', 'latex', 'debug', 'log', 'svg')
def sites(path, src):
    tree = ast.parse(src); out = []
    def go(n, fns):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): fns = fns + [n.name]
        if fns and not any(s in f.lower() for f in fns for s in SKIP):
            for m in muts(n): out.append((fns, n, m))
        for c in ast.iter_child_nodes(n): go(c, fns)
    go(tree, [])
    return out
def muts(n):
    import copy
    r = []
    def w(f):
        c = copy.deepcopy(n); x = f(c); r.append(ast.unparse(x if x is not None else c))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        w(lambda c: c.ops.__setitem__(0, sw[type(n.ops[0])]()))
    if isinstance(n, ast.BoolOp):
        w(lambda c: setattr(c, 'op', ast.And() if isinstance(c.op, ast.Or) else ast.Or()))
        for i in range(len(n.values)): w(lambda c, i=i: c.values[0] if (c.values.pop(i) and len(c.values) == 1) else c)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): r.append(ast.unparse(n.operand))
    if isinstance(n, ast.BinOp):
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
        if type(n.op) in sw and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)): w(lambda c: setattr(c, 'op', sw[type(n.op)]()))
    if isinstance(n, ast.Constant):
        if n.value is True or n.value is False: r.append(str(not n.value))
        elif isinstance(n.value, int): r.append(str(n.value + 1))
    if isinstance(n, ast.If): w(lambda c: setattr(c, 'test', ast.UnaryOp(ast.Not(), c.test)))
    if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom))): r.append('pass')
    if isinstance(n, (ast.Break, ast.Continue)): r.append('pass')
    if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords: w(lambda c: c.args.reverse())
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('fresh', 'snap', 'canonicalize', 'list', 'set', 'sorted', 'reversed') and len(n.args) == 1: r.append(ast.unparse(n.args[0]))
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): r.append('return None')
    if isinstance(n, ast.comprehension) and n.ifs: pass
    return r
def apply(src, n, new):
    lines = src.split('\n')
    L = [len(l.encode()) + 1 for l in lines]; b = src.encode()
    off = lambda ln, co: sum(L[:ln - 1]) + co
    s, e = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    if isinstance(n, ast.stmt) and '\n' in new:
        ind = ' ' * n.col_offset
        new = ('\n' + ind).join(new.split('\n'))
    elif isinstance(n, ast.expr): new = '(' + new + ')' if not isinstance(n, ast.Constant) else new
    return (b[:s] + new.encode() + b[e:]).decode()
def sh(cmd, env, to, cwd):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=to); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ''
def one(i, path, fns, line, old, new, msrc):
    d = f'/tmp/camp/m{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ('dyna', 'test'): shutil.copytree(f'{REPO}/{x}', f'{d}/{x}', ignore=shutil.ignore_patterns('__pycache__'))
    for x in os.listdir(REPO):
        if os.path.isfile(f'{REPO}/{x}'): shutil.copy(f'{REPO}/{x}', d)
    open(f'{d}/{path}', 'w').write(msrc)
    env = dict(os.environ, CI='true', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', VERIF_REPO=d, VERIF_JOBS='2')
    res = dict(i=i, path=path, fn='.'.join(fns), line=line, old=old[:160], new=new[:160])
    try:
        rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120', *DES], env, 400, d)
        if rc != 0: res['status'] = 'tests'; return res
        res['status'] = 'SURVIVED'; res['by'] = []
        for p in MAP[path].split():
            vd = f'/tmp/camp/v{i}'
            rc, o = sh(['/opt/venv/bin/python', f'{V}/check.py', p, '--tier', 'quick'], env, 600, V)
            if rc != 0: res['status'] = 'killed'; res['by'] = [p, rc, [l for l in o.split('\n') if 'VIOL' in l][:1]]; return res
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    seed, N, W, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    only = sys.argv[5].split(',') if len(sys.argv) > 5 else None
    st = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    DES = sum((['--deselect', x] for x in open('/tmp/camp/deselect').read().split('\n') if x), [])
    if not os.path.exists(V): shutil.copytree('/verif', V, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    rnd = random.Random(seed); allm = []
    for path in MAP:
        if only and path not in only: continue
        src = open(f'{REPO}/{path}').read()
        ss = sites(path, src)
        for fns, n, m in ss:
            try: ms = apply(src, n, m); ast.parse(ms)
            except Exception: continue
            if ms != src: allm.append((path, fns, n.lineno, ast.get_source_segment(src, n) or '', m, ms))
    by = {}
    for x in allm: by.setdefault((x[0], '.'.join(x[1])), []).append(x)
    keys = sorted(by); pick = []
    while len(pick) < N:
        k = rnd.choice(keys); pick.append(rnd.choice(by[k]))
    print(len(allm), 'possible', len(keys), 'functions', flush=True)
    with cf.ThreadPoolExecutor(W) as ex, open(out, 'a') as f:
        for fu in cf.as_completed([ex.submit(one, f'{seed}_{i}', *x) for i, x in enumerate(pick)]):
            r = fu.result(); f.write(json.dumps(r) + '\n'); f.flush()
