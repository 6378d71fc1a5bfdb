bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -n 20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
print('stable',len(b['stable']),'missing',[t for t in b['stable'] if t not in o['passed']])
P
