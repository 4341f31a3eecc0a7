#!/bin/bash
# seedcheck.sh ID...: validates planted changes against /repo (applied, built, tested, demonstrated, checked, undone).
V=/verif; R=/repo
for id in "$@"; do
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C $R checkout -q -- . ; bash /opt/vp/build.sh >/tmp/sc.build 2>&1
  (cd $R && bash $S/demo.sh >/tmp/sc.demo0 2>&1); d0=$?
  git -C $R apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.test 2>&1; b=$?
  miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sc.json'))
k=[k for k in ('passed','stable','tests','pass') if k in b][0]
m=set(b[k])-set(o['passed']); print(len(m))
P
)
  (cd $R && bash $S/demo.sh >/tmp/sc.demo1 2>&1); d1=$?
  if [ -z "$NOCHECK" ]; then (cd $V && VERIF_SEED=1 VERIF_TIER=quick ./check $P --tier quick >/tmp/sc.check.$id 2>&1); c=$?; v=$(grep -m1 -c "VIOLATION property=$P " /tmp/sc.check.$id); else c=-; v=-; fi
  git -C $R checkout -q -- .
  echo "$id ($P): demo clean=$d0 patched=$d1 missing-tests=$miss check=$c violation=$v"
done
bash /opt/vp/build.sh >/tmp/sc.build 2>&1
