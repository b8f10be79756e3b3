# run the property's check against every seeded bug (or those named); mutates /repo's tree and restores it
cd /verif
for d in ${@:-seeded/*}; do d=seeded/$(basename $d)
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $PWD/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
 out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $p --tier quick 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$(basename $d) $p rc=$rc $(echo "$out" | grep -a VIOLATION | head -1)"
done
