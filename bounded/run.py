"python -m bounded.run MOD [budget] [seed] [tier]  (dev tool)"
import sys, os
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), '/verif']
import check
b = check.bounded('bounded.' + sys.argv[1], int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else 'quick', float(sys.argv[2]) if len(sys.argv) > 2 else 30)
for k in ('evaluations', 'distinct', 'kinds', 'skipped', 'cut', 'errors'): print(k, b[k])
for c, m in b['fails'][:4]: print('FAIL', repr(c)[:600], '\n    ', m[:600])
