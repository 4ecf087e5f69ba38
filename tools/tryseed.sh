#!/bin/bash
# tools/tryseed.sh ID [check...]: confirm a planted bug (build, tests, demo both ways) and run its property's check on it.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
(cd /repo && bash $d/demo.sh >/tmp/seed.out 2>&1) && echo "demo clean: ok" || { echo "demo clean: FAIL"; tail -5 /tmp/seed.out; }
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.out 2>&1 && echo "build: ok" || { echo "build: FAIL"; tail -5 /tmp/seed.out; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.out 2>&1; python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.json'))
print("tests:", {k:(len(v) if isinstance(v,list) else v) for k,v in t.items()})
PY
(cd /repo && bash $d/demo.sh >/tmp/seed.out 2>&1) && echo "demo patched: NOT FAILING" || echo "demo patched: fails ok ($(tail -1 /tmp/seed.out | cut -c1-150))"
for c in ${@:-$prop}; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash run.sh $c >/tmp/seed.out 2>&1); rc=$?
  echo "check $c rc=$rc: $(grep -c '^VIOLATION' /tmp/seed.out) violations; $(grep '^---' /tmp/seed.out | head -1)"
done
git -C /repo checkout -- . ; rm -f /tmp/seed.json
git -C /repo status --porcelain
