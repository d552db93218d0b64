#!/bin/bash
# seedtest.sh ID [check]: confirms a planted bug in /repo (applied, tested, undone); with 'check', runs the property's check too
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
(cd /repo && bash $D/demo.sh >/tmp/seed_clean.log 2>&1); c=$?
git -C /repo apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
t=$(python3 - <<'PY'
import json
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('passed','pass','tests','stable'):
        if k in x: return x[k]
    return x
st=b.get('stable_passed') or b.get('stable') or b.get('passed') or b.get('tests')
ps=o.get('passed') or o.get('pass')
st=[s if isinstance(s,str) else s.get('name') for s in st]; ps=set(s if isinstance(s,str) else s.get('name') for s in ps)
miss=[s for s in st if s not in ps]
print('tests-ok' if not miss else 'TESTS FAIL: '+', '.join(miss[:4]))
PY
)
(cd /repo && bash $D/demo.sh >/tmp/seed_bug.log 2>&1); d=$?
echo "$ID ($P): demo clean=$c patched=$d build=$b $t"
if [ "$2" = check ]; then
  (cd /verif && ./check.sh $P 2>&1 | grep -E "VIOLATION|undecided|not proved|discharged" | cut -c1-220)
fi
