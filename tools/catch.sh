#!/usr/bin/env bash
# catch.sh <id>...: run the check of each planted bug's property against it, and undo it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(cd "$V" && timeout 900 python3 checks/check.py "$p" 2>&1); c=$?
  git -C /repo checkout -q -- .
  if [ $c = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=CAUGHT; else r=missed; fi
  echo "$id $p exit=$c $r $(tail -1 <<<"$out" | head -c 150)"
done
