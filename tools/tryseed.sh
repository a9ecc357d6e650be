#!/bin/bash
# tryseed.sh ID [notests]: demo on the clean tree, then with the patch: build, tests, demo, check.
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
bash $d/demo.sh > /tmp/demo_clean.txt 2>&1; echo "demo clean rc=$? (0)"
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh > /tmp/bo.txt 2>&1; echo "build rc=$?"
[ "$2" = notests ] || { bash /opt/vp/test.sh /tmp/to.json >/dev/null 2>&1; python3 - <<'P'
import json
o=json.load(open('/tmp/to.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x,k): return set(x.get(k,[]))
print('tests', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
P
}
bash $d/demo.sh > /tmp/demo_bug.txt 2>&1; echo "demo bug rc=$? (!=0)"
cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./check $prop > /tmp/check_bug.txt 2>&1; echo "check $prop rc=$? (1)"; grep -m3 VIOLATION /tmp/check_bug.txt
git -C /repo checkout -- .
