#!/bin/bash
# tools/seed_try.sh ID...   confirm planted bugs: builds, stable tests pass, demo fails with and passes without, check catches
cd /verif
for id in "$@"; do
    d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
    git -C /repo apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    r="$id [$prop]"
    if ! bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1 && ! [ -s /tmp/seed_out.json ]; then r+=" BUILD-FAILED"; fi
    r+=" $(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
base=b.get('passed') or b.get('stable') or b
p=set(o['passed']); miss=[t for t in base if t not in p]
print('tests-ok' if not miss else 'TESTS-FAIL:%s'%miss[:4])
P
)"
    (cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seed_demo.log 2>&1); rc=$?
    if [ $rc -ne 0 ]; then r+=" demo-fails($rc)"; else r+=" DEMO-DOES-NOT-FAIL"; fi
    if [ -z "$NOCHECK" ]; then
        VERIF_SEED=1 timeout 900 ./check.sh $prop > /tmp/seed_check.log 2>&1; rc=$?
        if [ $rc -eq 1 ] && grep -q "VIOLATION property=$prop" /tmp/seed_check.log; then r+=" CAUGHT: $(grep -A3 -m1 'VIOLATION' /tmp/seed_check.log | tr '\n' ' ' | cut -c1-160)"; else r+=" MISSED rc=$rc"; fi
    fi
    git -C /repo checkout -q -- .
    bash /opt/vp/build.sh > /dev/null 2>&1
    (cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seed_demo0.log 2>&1); rc=$?
    if [ $rc -eq 0 ]; then r+=" demo-clean-ok"; else r+=" DEMO-FAILS-ON-CLEAN($rc)"; fi
    echo "$r"
done
