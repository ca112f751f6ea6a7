#!/bin/bash
# validates a planted bug: plant.sh ID  (seeded/ID/{patch.diff,demo.sh,meta.json})
ID=$1; S=/tmp/plant-$ID
[ -n "$ID" ] || exit 1
/bin/rm -rf "/tmp/plant-$ID" "/tmp/demo-$ID"
mkdir -p /tmp/demo-$ID; cp -a /verif/seeded/$ID/. /tmp/demo-$ID/; /bin/rm -f /tmp/demo-$ID/patch.diff /tmp/demo-$ID/meta.json
cd /repo && git diff --quiet || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo "base build failed"; exit 1; }
timeout 300 bash /tmp/demo-$ID/demo.sh >/tmp/demo-$ID/out0 2>&1; echo "demo unpatched: $?"; tail -3 /tmp/demo-$ID/out0 | cut -c1-300
git apply /verif/seeded/$ID/patch.diff || { echo "apply failed"; exit 1; }
bash /opt/vp/build.sh >/tmp/pb.log 2>&1; echo "build: $?"; 
bash /opt/vp/test.sh /tmp/plant-o.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/plant-o.json'))
p=o.get('passed') or [k for k,v in o.items() if v in('pass','passed',True)]
print('stable failing:',[x for x in b if x not in p][:5])
P
timeout 300 bash /tmp/demo-$ID/demo.sh >/tmp/demo-$ID/out1 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo-$ID/out1 | cut -c1-300
for P in ${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}; do VERIF_LIMIT=${LIM:-300} timeout 900 python3 /verif/check.py $P quick 2>&1 | cut -c1-200 | grep -v "^H_" | tail -6; done
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
/bin/rm -rf "/tmp/demo-$ID"
