#!/bin/bash
# mut.sh CHECKS FILE PYEXPR : development aid. Copies the sources to a scratch folder, rewrites FILE with the python
# expression over s (its text), and runs the given checks against the copy.
W=${MUTDIR:-/tmp/mutw}; mkdir -p $W/.cache
rm -rf "$W/include" "$W/sources"; cp -a /repo/include /repo/sources $W/; ln -sfn /repo/extern $W/extern
if [ "${2:-}" = PATCH ]; then (cd $W && patch -sp1 < "$3") || exit 9
elif [ -n "${2:-}" ]; then python3 - "$W/$2" "$3" <<'P' || exit 9
import sys
p=sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2])
assert t!=s,'no change'
open(p,'w').write(t)
P
fi
for e in /verif/.cache/extract-*; do ln -sf $e $W/.cache/; done
for c in $1; do QTT_REPO=$W QTT_CACHE=$W/.cache QTT_EVID=$W timeout 900 python3 /verif/checks/check.py $c | cut -c1-330 | tail -${TAIL:-4}; done
