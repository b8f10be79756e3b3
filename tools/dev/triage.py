"""triage.py SPEC.py [ids...]: for every proposed bug, in parallel copies: stable tests, demo (clean and patched), the property's checks.
SPEC has BUGS (see mkbug.py); a spec may name further checks to try in `also`."""
import sys, os, json, shutil, runpy, subprocess, concurrent.futures as cf
sys.path.insert(0, '/verif/tools/dev')
import campaign as C
W = int(os.environ.get('W', '4')); V = C.V
DES = sum((['--deselect', x] for x in open('/tmp/camp/deselect').read().split('\n') if x), [])
def one(s):
    d = f"/tmp/camp/t_{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ('dyna', 'test'): shutil.copytree(f'/repo/{x}', f'{d}/{x}', ignore=shutil.ignore_patterns('__pycache__'))
    for x in os.listdir('/repo'):
        if os.path.isfile(f'/repo/{x}'): shutil.copy(f'/repo/{x}', d)
    out = dict(id=s['id'])
    try:
        for e in s['edits']:
            t = open(f"{d}/{e['file']}").read(); o = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + e['file']], capture_output=True, text=True).stdout
            if t.count(e['old']) != 1: out['status'] = f"edit not found once ({t.count(e['old'])}): {e['old'][:60]!r}"; return out
            open(f"{d}/{e['file']}", 'w').write(t.replace(e['old'], e['new']))
        env = dict(os.environ, CI='true', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', VERIF_REPO=d, VERIF_JOBS='2')
        if s.get('demo') and 'assert 0' not in s['demo']:
            dd = d + "_demo"; os.makedirs(dd, exist_ok=True); open(dd + "/demo_.py", "w").write(s["demo"])
            for k, r in (('clean', '/repo'), ('patched', d)):
                rc, o = C.sh(["/opt/venv/bin/python", dd + "/demo_.py"], dict(env, PYTHONPATH=r), 130, r)
                out[k] = rc
                if (rc != 0) == (k == 'clean'): out['demo_' + k] = o[-400:]
        rc, o = C.sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120', *DES], dict(env, PYTHONPATH=d), 400, d)
        out['tests'] = 'ok' if rc == 0 else [l for l in o.split('\n') if l.startswith('FAILED')][:1]
        if rc != 0: return out
        for p in [s['property'], *s.get('also', [])]:
            rc, o = C.sh(['/opt/venv/bin/python', f'{V}/check.py', p, '--tier', 'quick'], dict(env, VERIF_SEED='1'), 900, V)
            out[p] = (rc, [l[:200] for l in o.split('\n') if 'VIOL' in l][:1])
        return out
    except Exception as e: out['exc'] = repr(e); return out
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    shutil.rmtree(V, ignore_errors=True); shutil.copytree('/verif', V, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    B = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
    with cf.ThreadPoolExecutor(W) as ex:
        for f in cf.as_completed([ex.submit(one, s) for s in B if not only or s['id'] in only]):
            r = f.result(); print(json.dumps(r), flush=True)
