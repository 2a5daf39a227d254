#!/bin/bash
# tools/seedtest.sh ID...: verifies seeded bugs in /repo (applied and undone again).
# For each: patch applies, builds, stable tests pass, demo passes clean and fails patched; and which check reports it.
cd "$(dirname "$0")/.."
V=$PWD
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  test -z "$(git -C /repo status --porcelain -uno)" || { echo "/repo not clean"; exit 1; }
  r="$id ($prop):"
  if [ -z "$SKIPDEMO" ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1
  (cd /repo && bash $d/demo.sh >/tmp/seed.demo0 2>&1); r="$r clean=$?"
  fi
  git -C /repo apply $d/patch.diff || { echo "$r does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || r="$r BUILD-FAILED"
  (cd /repo && bash $d/demo.sh >/tmp/seed.demo1 2>&1); r="$r patched=$?"
  fi
  if [ -z "$SKIPTEST$SKIPDEMO" ]; then
  bash /opt/vp/test.sh /tmp/seed.out >/tmp/seed.log 2>&1
  r="$r $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.out'))
m=[t for t in b['stable'] if t not in o['passed']]; print('tests-lost=%s'%m)")"
  fi
  if [ -z "$SKIPCHECK" ]; then
  python3 run.py $prop quick >/tmp/seed.check 2>&1; r="$r check=$? $(grep -c '^VIOLATION' /tmp/seed.check)"
  fi
  git -C /repo checkout -- .
  echo "$r"
done
