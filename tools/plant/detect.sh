#!/bin/bash
# detect.sh [ID...]: runs each planted bug's own check (or CHECKS="C01 C02") against a copy with the bug
for i in ${@:-$(ls /verif/seeded)}; do
  d=/verif/seeded/$i
  w=/tmp/detw.$i; rm -rf "/tmp/detw.$i"; mkdir -p $w; cp -r /repo/src $w/; (cd $w && git init -q . && git apply $d/patch.diff) || echo "NOAPPLY $i"
  for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
    t0=$(date +%s); out=$(VP_REPO=$w VERIF_SEED=${SEED:-1} /verif/check.sh $c quick 2>&1); rc=$?
    echo "$i $c rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -v '^VIOLATION\|quick:' | head -1 | cut -c1-230)"
  done
  rm -rf "/tmp/detw.$i"
done
