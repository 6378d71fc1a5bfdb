#!/bin/bash
# tryclean.sh IDs... : rebuilds the unchanged tree and runs the demos, which must exit 0
cd /repo; bash /opt/vp/build.sh > /tmp/build.log 2>&1 || exit 1
for i in "$@"; do bash /verif/seeded/$i/demo.sh > /tmp/demo.out 2>&1; echo "$i clean: $? $(tail -n 1 /tmp/demo.out)"; done
