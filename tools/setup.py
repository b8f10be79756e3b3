"""setup_cmd: nothing to build; checks that the tools the checks need are present."""
import shutil, subprocess, sys
ok = True
for t in ('/usr/local/bin/z3-new', 'cvc5', '/usr/bin/z3'):
    if not shutil.which(t): print('missing', t); ok = False
import z3
print('z3 python', z3.get_version_string())
sys.exit(0 if ok else 1)
