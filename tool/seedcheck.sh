#!/bin/bash
# Development aid (not a check): runs the property's check against each planted bug on a scratch copy (VP_REPO).
# usage: seedcheck.sh [SEED...]
M=${M:-/tmp/m}; cd "$(dirname "$0")/.."
[ -d $M/.git ] || { mkdir -p $M; cp -a /repo/c++ $M/; git -C $M init -q; git -C $M add -A; git -C $M commit -qm base; }
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $M checkout -q -- . ; git -C $M apply $PWD/seeded/$s/patch.diff || { echo $s NOAPPLY; continue; }
  VP_REPO=$M timeout 850 bash check.sh $p quick > /tmp/seedcheck.out 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep -m1 '^  \[' /tmp/seedcheck.out | cut -c1-160)"
  git -C $M checkout -q -- .
done
