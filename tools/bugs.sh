#!/bin/bash
# tools/bugs.sh [ID...]   apply each planted bug to /repo in turn, run the check
# of its property (ALL=1: every check), undo it. One line per bug.
cd "$(dirname "$0")/.." || exit 2
v=$(pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" seeded/$b/meta.json)
  git -C /repo apply "$v/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  checks=$p
  [ -n "$ALL" ] && checks=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  hit=""
  for c in $checks; do
    s=$(date +%s)
    o=$(VERIF_TIER=quick timeout 900 ./run.sh check "$c" 2>&1)
    rc=$?
    e=$(($(date +%s) - s))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$o"; then
      hit="$hit $c(${e}s: $(grep -o 'replay/[A-Za-z0-9-]*' <<<"$o" | head -1 | sed 's/replay.//'))"
    elif [ $rc != 0 ]; then
      hit="$hit $c(rc=$rc!)"
    fi
  done
  git -C /repo checkout -q -- .
  echo "$b [$p]: ${hit:-MISSED}"
done
