#!/bin/bash
# tryseed.sh ID [notest]: demo on clean, then with the patch: demo, stable tests, the property's check; reverts.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "dirty repo"; exit 1; }
bash $d/demo.sh >/tmp/seed.$id.clean 2>&1; c=$?
git apply $d/patch.diff || exit 1
bash $d/demo.sh >/tmp/seed.$id.bug 2>&1; b=$?
t=-
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
  t=$(python3 - <<PY
import json
base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open('/tmp/seed.$id.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set(map(str,x))
bp=passed(base); gp=passed(got)
print(sorted(bp-gp)[:3] or 'tests-ok')
PY
)
fi
s=$(date +%s)
python3 /verif/check.py $prop --tier quick >/tmp/seed.$id.check 2>&1; k=$?
e=$(( $(date +%s) - s ))
git checkout -q -- .
echo "SEED $id prop=$prop demo-clean=$c demo-bug=$b tests=$t check=$k (${e}s) $(grep -m1 VIOLATION /tmp/seed.$id.check)"
