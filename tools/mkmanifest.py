"""Writes /verif/MANIFEST.json from checks/*.py and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'checks', pid + '.py')):
        m = importlib.import_module(f'checks.{pid}')
        checks.append(dict(property=pid, quick_cmd=f'/opt/venv/bin/python check.py {pid} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python check.py {pid} --tier thorough',
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'no contract check has been built for this property yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks are needed: contracts are side-car files, source is read from /repo on every run.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
