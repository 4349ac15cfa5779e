#!/bin/bash
# confirm_seed.sh ID...: on /repo: demo passes clean; patch applies, builds, stable tests pass,
# demo fails; then the property's quick check is run against it.  /repo is restored.
cd /verif || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  tmp=$(mktemp -d /tmp/seed-XXXX); cp -r "$d"/. "$tmp"; rm -f "$tmp"/patch.diff "$tmp"/meta.json
  (cd /repo && timeout 300 bash "$tmp/demo.sh" >/tmp/seed.out 2>&1); a=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$tmp"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
  t=$(python3 - <<'PY'
import json
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('/tmp/seed.json'))
ok=set(r.get('passed') or r.get('pass') or [])
print(len(base-ok))
PY
)
  (cd /repo && timeout 300 bash "$tmp/demo.sh" >/tmp/seed.out2 2>&1); c=$?
  cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
  if c['property']=='$prop': print(c['quick_cmd'])")
  s=$(date +%s)
  r=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$cmd" 2>&1); q=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  rm -rf "$tmp"
  v=$(echo "$r" | grep -c "^VIOLATION property=$prop")
  echo "$id prop=$prop demo_clean=$a build=$b tests_missing=$t demo_patched=$c check_exit=$q violations=$v $((e-s))s"
done
