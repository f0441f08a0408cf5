#!/bin/bash
# trybugs.sh [tier] [ids...]: runs each planted bug's own check against a scratch copy of /repo with the bug in it.
T=${1:-quick}; shift; V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/tb.XXXXXX); trap 'case "$W" in /tmp/tb.*) find "$W" -delete;; esac' EXIT
git clone -q /repo "$W/repo"
for d in ${@:-$(ls "$V/seeded")}; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
  git -C "$W/repo" checkout -q -- .; git -C "$W/repo" apply "$V/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$(date +%s); out=$(LB_REPO=$W/repo timeout 900 "$V/check.sh" ${PROP:-$p} $T 2>&1); r=$?
  echo "$d ${PROP:-$p} exit=$r $(( $(date +%s)-s ))s $(echo "$out" | grep -c VIOLATION)"
done
