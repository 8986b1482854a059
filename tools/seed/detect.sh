#!/bin/bash
# detect.sh ID...: applies a planted bug in /repo, runs the check of its property, undoes it.
cd /repo; git diff --quiet || { echo dirty; exit 1; }
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  (cd /verif && timeout 900 python3 check.py $p > /tmp/detect-$id.log 2>&1); rc=$?
  git checkout -q -- .
  echo "$id ($p): exit $rc in $(( $(date +%s) - t )) s | $(grep -v KNOWN /tmp/detect-$id.log | grep -v '^VIOLATION' | tail -1 | cut -c1-150)"
done
