#!/bin/bash
# runseed.sh ID [tests]: applies a planted change to /repo, runs its property's check (and the test suite), undoes it
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" = tests ]; then bash /opt/vp/build.sh >/tmp/rs_b.log 2>&1; bash /opt/vp/test.sh /tmp/rs_o.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rs_o.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or list(b.values())[0]
print('$id tests lost:', sorted(set(base)-set(o['passed'])))
P
fi
cd /verif && timeout 900 python3 engine/check.py $p > /tmp/rs_$id.log 2>&1; rc=$?
echo "$id $p rc=$rc $(grep -E '^VIOLATION' /tmp/rs_$id.log) $(grep 'failed obligation' /tmp/rs_$id.log | head -2 | tr '\n' ' ')"
