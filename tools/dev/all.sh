#!/bin/bash
# run every check (quick) one after another; report exit codes and times
cd /verif
for c in ${@:-$(ls checks | grep -o '^C[0-9]*')}; do
 s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py $c --tier quick > /tmp/out.$c 2>&1; rc=$?
 echo "$c rc=$rc $(( $(date +%s)-s ))s $(grep -E 'discharged;' /tmp/out.$c | cut -c1-120)"; [ $rc != 0 ] && tail -4 /tmp/out.$c | cut -c1-600
done
