#!/bin/bash
# catch.sh [IDS]: does the check of its property report each planted bug?
cd /verif/seeded; for s in ${@:-*}; do
 p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: no apply"; continue; }
 python3 /verif/checks/check.py $p > /tmp/catch.out 2>&1; r=$?; git -C /repo checkout -q -- .
 echo "$s $p exit $r $(grep -c VIOLATION /tmp/catch.out)"; done
