#!/bin/bash
# seedtest.sh [-a] [id...]: applies each planted bug to /repo, runs the check of its property (-a: all checks), restores /repo
cd "$(dirname "$0")/.." || exit 2
all=
[ "$1" = -a ] && { all=1; shift; }
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
for id in ${@:-$(ls seeded)}; do
  d=$PWD/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${all:+$(ls kmv/rules | sed -n 's/^\(C[0-9]*\)\.py$/\1/p')} ${all:-$p}; do
    [ "$c" = 1 ] && continue
    [ -f kmv/rules/$c.py ] || { echo "$id: $c not built"; continue; }
    out=$(timeout 900 python3 check.py $c quick 2>&1); r=$?
    if [ -z "$all" ] || [ $r != 0 ]; then echo "$id: $c exit $r $(echo "$out" | grep -m1 '\[')$( [ $r -gt 1 ] && echo "$out" | tail -1)"; fi
  done
  git -C /repo checkout -q -- .
done
