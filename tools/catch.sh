#!/bin/bash
# catch.sh ID[:CHECK]...: runs the bug's check against a scratch copy of /repo with the bug.
V=$(cd "$(dirname "$0")/.." && pwd)
for a in "$@"; do
  id=${a%%:*}; c=${a#*:}; [ "$c" = "$a" ] && c=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX)
  git -C /repo archive HEAD | tar x -C $w
  (cd $w && git init -q . && git apply $V/seeded/$id/patch.diff) || echo "$id NOAPPLY"
  s=$(date +%s)
  SIM_REPO=$w timeout 900 python3 $V/check.py $c >$w.out 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 ^VIOLATION $w.out) $(grep -m1 -A3 'violation:\|failed' $w.out | tr '\n' ' ' | cut -c1-300)"
  [ $rc = 2 ] && tail -5 $w.out
  cp $w.out /tmp/catch.$id.$c.out
  rm -rf $w $w.out
done
