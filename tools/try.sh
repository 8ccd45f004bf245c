#!/bin/bash
# try.sh BUGID [PID [harness]] : apply seeded bug to /repo, run its check, undo
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif; VERIF_TIER=${TIER:-quick} timeout 1000 python3 bin/check.py $p $3 > /tmp/try-$1.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$1 $p rc=$rc $(grep -c '^VIOLATION' /tmp/try-$1.log) viol; $(grep -m2 -A1 '  h_' /tmp/try-$1.log | tr '\n' ' ' | cut -c1-200) $(tail -1 /tmp/try-$1.log)"
