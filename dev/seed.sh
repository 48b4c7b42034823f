#!/bin/bash
# dev helper: validate one planted bug in a scratch copy bound over /repo. usage: dev/seed.sh ID [nochk|notest]
ID=$1; MODE=$2
S=/verif/seeded/$ID
[ -d /tmp/sr ] || cp -a /repo /tmp/sr
git -C /tmp/sr fetch -q /repo 2>/dev/null; git -C /tmp/sr checkout -q -f FETCH_HEAD 2>/dev/null
git -C /tmp/sr checkout -q -- .
export ID MODE S
unshare -Urm bash <<'X'
mount --bind /tmp/sr /repo
rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp -a $S/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
cd /repo
bash /opt/vp/build.sh >/tmp/seed_b0.log 2>&1 || { echo "$ID: base build failed"; exit 1; }
bash /tmp/seeddemo/demo.sh >/tmp/seed_d0.log 2>&1; echo "$ID demo unchanged: $? $(tail -1 /tmp/seed_d0.log | cut -c1-200)"
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_b1.log 2>&1 || { echo "$ID: patched build failed"; tail -20 /tmp/seed_b1.log; git checkout -q -- .; exit 1; }
bash /tmp/seeddemo/demo.sh >/tmp/seed_d1.log 2>&1; echo "$ID demo patched: $? $(tail -1 /tmp/seed_d1.log | cut -c1-300)"
if [ "$MODE" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
  python3 - <<'P'
import json,os
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_t.json'))
ok=set(b.get('passed') or b.get('stable') or b.get('tests')); p=set(t['passed'])
print(os.environ['ID'],'tests broken:',sorted(ok-p))
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$MODE" != nochk ]; then
  cd /verif && TV_BUILD=/tmp/srbuild VERIF_SEED=1 python3 check.py $P --tier quick 2>&1 | grep -v "candidate class" | cut -c1-300 | tail -3
fi
cd /repo && git checkout -q -- .
X
