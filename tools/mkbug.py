"""mkbug.py ID PROPERTY FILE <<< JSON {old,new,needs,what,demo}  (dev tool) -- creates seeded/<ID> after confirming it.
Confirms in a scratch copy: patch applies, builds, stable tests pass, demo passes before / fails after."""
import json, os, subprocess, sys, shutil, tempfile
V = '/verif'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main(spec, fast=False):
    d = os.path.join(V, 'seeded', spec['id'])
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='bug')
    try:
        sh(f'cp -a /repo/. {scratch}/')
        for e in spec['edits']:
            p = os.path.join(scratch, e['file'])
            s = open(p).read()
            assert s.count(e['old']) == 1, (e['file'], s.count(e['old']), e['old'])
            open(p, 'w').write(s.replace(e['old'], e['new']))
        diff = sh(f'git -C {scratch} diff').stdout
        assert diff.strip()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: /repo.  exit 0 = property holds on this input\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CI=true PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(f'bash {d}/demo.sh', cwd='/repo'); b = sh(f'bash {d}/demo.sh', cwd=scratch)
        ok = a.returncode == 0 and b.returncode != 0
        print(spec['id'], 'demo clean:', a.returncode, 'patched:', b.returncode, '' if ok else (a.stdout + a.stderr)[-800:] + '\n----\n' + (b.stdout + b.stderr)[-800:])
        if not ok: return False
        if not fast:
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            env = dict(os.environ, CI='true', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONPATH=scratch)
            subprocess.run(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --tb=no -q -o junit_family=xunit2 --junitxml={scratch}/.j.xml', shell=True, cwd=scratch, env=env, capture_output=True, text=True)
            import xml.etree.ElementTree as ET
            passed = {t.get('classname') + '::' + t.get('name') for t in ET.parse(f'{scratch}/.j.xml').iter('testcase') if not len([c for c in t if c.tag in ('failure', 'error', 'skipped')])}
            print(spec['id'], 'stable tests broken:', sorted(stable - passed))
            ok = ok and not (stable - passed)
            chk = subprocess.run(['/opt/venv/bin/python', '-c', 'import dyna; print(dyna.__file__)'], cwd=scratch, env=env, capture_output=True, text=True).stdout
            assert chk.startswith(scratch), chk
        if not ok: shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(scratch)

if __name__ == '__main__':
    specs = json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else __import__('runpy').run_path(sys.argv[1])['BUGS']
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    for s in specs:
        if only and s['id'] not in only: continue
        main(s, fast='--fast' in sys.argv)
