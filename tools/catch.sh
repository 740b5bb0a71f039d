#!/bin/bash
# catch.sh [--all] ID...: applies each planted bug to /repo, runs the check of its property (or all checks), undoes it.
cd "$(dirname "$0")/.." || exit 1
all=; [ "$1" = --all ] && { all=1; shift; }
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b applyfail"; continue; }
  got=""
  for c in ${all:+$(python3 -c "import json;print(*[p['property'] for p in json.load(open('MANIFEST.json'))['checks']])")} ${all:-$p}; do
    [ "$c" = 1 ] && continue
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $c quick >/tmp/catch.out 2>&1; r=$?
    [ $r = 1 ] && got="$got $c"; [ $r -gt 1 ] && got="$got $c(rc$r)"
  done
  git -C /repo checkout -q -- .
  echo "$b $p :$got"
done
git -C /repo status --short
