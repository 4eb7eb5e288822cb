#!/bin/bash
# tools/checkseeds.sh [ID ...]: runs the check of each planted bug's property against a scratch copy with the bug and lists those caught
cd /verif/seeded
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/verif-cs-XXXXXX)
  git -C /repo archive HEAD | tar x -C "$d"
  (cd "$d" && git init -q && git apply "/verif/seeded/$id/patch.diff")
  VERIF_REPO="$d" python3 /verif/run.py "$p" > "$d/out" 2>&1
  rc=$?
  echo "$id $p exit $rc $(grep -c '^VIOLATION' "$d/out") $(grep -E '^scenario|CHECK-ERROR' "$d/out" | head -1 | cut -c1-160)"
  rm -rf "$d"
done
