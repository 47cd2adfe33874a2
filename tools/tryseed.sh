#!/bin/bash
# tryseed.sh <id>: demo on the clean tree and with the patch, build and tests with the patch, and the property's check
id=$1; d=/verif/seeded/$id; cd /repo || exit 1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(date +%s); bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo clean: $? ($(( $(date +%s)-t ))s) $(tail -1 /tmp/demo.out | cut -c1-200)"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/b.out 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/t.json 2>/dev/null | tail -1
bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo patched: $? $(tail -1 /tmp/demo.out | cut -c1-200)"
h=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'])")
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash -c "$h" > /tmp/check.out 2>&1; echo "check $prop: $? $(grep VIOLATION /tmp/check.out | head -1)")
git checkout -q -- . ; git status --short | head -3
