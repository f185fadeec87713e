#!/bin/bash
# refactor.sh COUNT SEED [ID...]: every driver on rewrites of /repo that keep
# its behaviour; any violation is a false alarm (development aid).
N=$1; SEED=$2; shift 2
V=$(cd "$(dirname "$0")/.." && pwd)
for id in ${@:-$(python3 $V/tools/refactor.py)}; do
  w=$(mktemp -d /tmp/refactor.XXXXXX)
  git -C /repo archive HEAD | tar x -C $w
  python3 $V/tools/refactor.py $id $w || { rm -rf $w; continue; }
  B=$(SIM_REPO=$w SIM_BUILD=$w.build python3 $V/tools/build.py plain) || { echo "$id: NO BUILD"; rm -rf $w $w.build; continue; }
  echo "== $id"
  printf 'C%02d\n' $(seq 19) | xargs -P8 -I{} sh -c "$B --prop {} --seed $SEED --count $N --json $w/{}.json --replays $w --minimise 20 > $w/{}.txt 2>&1; r=\$?; [ \$r = 0 ] || echo $id {} rc=\$r \$(cut -c1-600 $w/{}.txt)"
  rm -rf $w $w.build
done
