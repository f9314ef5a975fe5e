#!/bin/bash
# seedcheck.sh 'ID...' ['PROP...']: run checks (default: the bug's own property) against planted bugs in a scratch clone
for id in $1; do
 d=/verif/seeded/$id; w=${W2:-/tmp/w2}; rm -rf "$w"; git clone -q /repo "$w"; git -C "$w" apply $d/patch.diff || { echo "$id: no apply"; continue; }
 ps=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
 for p in $ps; do
  RSASL_REPO="$w" VERIF_BUILD=${VB:-/tmp/vb} VERIF_EVID=/tmp/vb-ev python3 /verif/check.py $p > /tmp/sc.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/sc.out) $(grep -m1 '^   \[' /tmp/sc.out | cut -c1-160)"
  [ $rc -gt 1 ] && tail -5 /tmp/sc.out
 done
done
