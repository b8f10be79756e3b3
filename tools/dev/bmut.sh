# usage: bmut.sh boundedmodule relfile 'old' 'new' [budget]
d=$(mktemp -d /tmp/bmutXXXX); cp -r /repo/dyna $d/
python3 - "$d/$2" "$3" "$4" <<'P'
import sys
p=sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s, 'not found'; s=s.replace(sys.argv[2],sys.argv[3],1); open(p,'w').write(s)
P
cd /verif; VERIF_REPO=$d PYTHONHASHSEED=0 timeout 200 /opt/venv/bin/python -m bounded.run $1 ${5:-40} 2>&1 | grep -A1 -m2 "FAIL\|errors" | cut -c1-300
rm -rf $d
