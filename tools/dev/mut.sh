# usage: mut.sh module file 'old' 'new' [qual]   -- does the deductive part reject the mutant?
d=$(mktemp -d /tmp/mutXXXX); cp -r /repo/dyna $d/
python3 - "$d/$2" "$3" "$4" <<'P' || { rm -rf $d; exit 1; }
import sys
p=sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s, 'not found'; s=s.replace(sys.argv[2],sys.argv[3],1); open(p,'w').write(s)
P
raw=$(VERIF_REPO=$d /opt/venv/bin/python /verif/tools/dev/tb.py $1 "$5" 5 2>&1); rc=$?
case $rc in 139|134|137) echo "CRASH rc=$rc: $3 -> $4"; rm -rf $d; exit;; esac
out=$(echo "$raw" | grep -v ' bad 0\|^lemmas' | head -${N:-3})
[ -z "$out" ] && echo "SURVIVED: $3 -> $4" || echo "killed: $4: $out" | cut -c1-200
rm -rf $d
