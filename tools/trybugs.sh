#!/bin/bash
# trybugs.sh [ID...]: run each planted bug's own check against it (in a scratch copy of /repo)
V=$(cd "$(dirname "$0")/.." && pwd)
for d in ${@:-$(ls "$V/seeded")}; do
  T=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$T/repo"; git -C "$T/repo" checkout -q -- .
  P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$d/meta.json")
  git -C "$T/repo" apply "$V/seeded/$d/patch.diff" || echo "APPLY FAILED $d"
  s=$(date +%s)
  out=$(VERIF_REPO="$T/repo" bash "$V/check.sh" $P quick 2>&1); rc=$?
  echo "$d $P rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION) | $(echo "$out" | grep REPLAYED | cut -c1-120)"
  [ -n "$SHOW" ] && echo "$out" | grep "FAILED OBL"
  rm -rf "$T"
done
