#!/bin/bash
# try_seed.sh ID...: for every planted change of /verif/seeded, apply it in /repo, build,
# run the stable tests, the demonstration and the check of its property, and undo it.
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git diff --quiet || { echo "/repo is dirty"; exit 1; }
  if [ -z "$SKIP_CLEAN" ]; then
    bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
    rm -rf /tmp/seed_demo; cp -r $d /tmp/seed_demo; rm -f /tmp/seed_demo/*.diff /tmp/seed_demo/meta.json
    timeout 300 bash /tmp/seed_demo/demo.sh >/tmp/seed_demo0.log 2>&1; r0=$?
  else r0=skipped; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_t.log 2>&1
  t=$(tail -1 /tmp/seed_t.log)
  rm -rf /tmp/seed_demo; cp -r $d /tmp/seed_demo; rm -f /tmp/seed_demo/*.diff /tmp/seed_demo/meta.json
  timeout 300 bash /tmp/seed_demo/demo.sh >/tmp/seed_demo1.log 2>&1; r1=$?
  cd /verif; timeout 900 python3 check.py ${CHECK:-$p} >/tmp/seed_check_$id.log 2>&1; rc=$?; cd /repo
  git checkout -q -- .
  echo "$id [$p] demo clean=$r0 patched=$r1 tests: $t check=$rc $(grep -c VIOLATION /tmp/seed_check_$id.log)"
done
rm -rf /tmp/seed_demo
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
