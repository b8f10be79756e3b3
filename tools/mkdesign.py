"""Regenerate DESIGN.md from tools/design_head.md, the checks, the bounded modules, known_findings.json and seeded/."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
sys.path.insert(0, '/repo')
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
P = []; mods = {}
for p in props:
    c = importlib.import_module('checks.' + p['id'])
    src = open(f"{V}/{c.BOUNDED.replace('.', '/')}.py").read()
    m = re.search(r"^RULE = (['\"])(.*)\1\s*$", src, re.M)
    rule = m.group(2).replace("\\'", "'") if m else ''
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1)
    pr = [x if isinstance(x, str) else x[0] for x in c.PROOFS]
    for x in pr: mods.setdefault(x, set()).add(p['id'])
    P.append(f"**{p['id']} {p['title']}** (level: {c.LEVEL})\n"
             + (f"* proved: {', '.join('`' + x.replace('contracts.', '') + '`' for x in pr)} -- {c.LEVEL_NOTE}\n" if pr else "* no function under a discharged contract; decided by the bounded stand-in only\n")
             + f"* bounded ({c.BUDGET} s quick): {doc.split(':', 1)[-1].strip()} Inputs: {rule}.\n"
             + ''.join(f'* assumption: {a}\n' for a in getattr(c, 'ASSUMPTIONS', [])))
T = ['| module | properties | functions | trusted (assumed contracts) |', '|---|---|---|---|']
for x in sorted(mods):
    m = importlib.import_module(x)
    fs = [f'`{q}`' for (f, q), c in m.C.items() if not c.trusted]; ts = [f'`{q}`' for (f, q), c in m.C.items() if c.trusted]
    T.append(f"| {x.replace('contracts.', '')} | {', '.join(sorted(mods[x]))} | {', '.join(dict.fromkeys(fs))} | {', '.join(dict.fromkeys(ts)) or '-'} |")
D = [f"* {f['what'].replace('fixed: ', '')}" if f.get('status') == 'fixed' else f"* OPEN {f['property']}: {f['what']}" for f in json.load(open(f'{V}/known_findings.json'))]
caught = json.load(open(f'{V}/tools/caught.json')) if os.path.exists(f'{V}/tools/caught.json') else {}
S = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    S.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, '')} |")
t = open(f'{V}/tools/design_head.md').read()
for k, v in (('PROOFTABLE', T), ('PROPS', P), ('DEFECTS', D), ('SEEDED', S)): t = t.replace(f'@@{k}@@', '\n'.join(v))
open(f'{V}/DESIGN.md', 'w').write(t)
