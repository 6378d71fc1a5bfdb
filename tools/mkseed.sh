#!/bin/bash
# mkseed.sh ID PROPERTY FILE PYEXPR NEEDS BREAKS < demo.cpp : makes /verif/seeded/ID and tries it (build, tests, demo with and without)
id=$1; d=/verif/seeded/$id; mkdir -p $d; cd /repo
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
cat > $d/demo.cpp; cp /verif/tools/demo.sh $d/demo.sh; chmod +x $d/demo.sh
python3 - "$2" "$5" "$6" > $d/meta.json <<'P'
import sys,json
print(json.dumps({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},indent=1))
P
if [ "$3" != - ]; then
python3 - "$3" "$4" <<'P' || exit 1
import sys
p=sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2]); assert t!=s,'no change'; open(p,'w').write(t)
P
git diff > $d/patch.diff; else git apply $d/patch.diff; fi
bash /tmp/runtests.sh; bash $d/demo.sh > /tmp/demo.with 2>&1; echo "with patch: $? $(tail -n 2 /tmp/demo.with)"
git checkout -q -- .
