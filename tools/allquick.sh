#!/bin/bash
# allquick.sh [SEED] [TIER]: every check on a snapshot of /verif (so that one can go on editing).
W=$(mktemp -d /tmp/allquick.XXXXXX)
mkdir "$W/evidence"
cp -r /verif/shim /verif/sim /verif/tools /verif/check.py /verif/known-findings.txt "$W/"
export VERIF_SEED=${1:-1} VERIF_TIER=${2:-quick}
for c in ${3:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}; do
  s=$(date +%s)
  timeout 1800 python3 "$W/check.py" $c >"$W/$c.out" 2>&1
  echo "$c rc=$? $(( $(date +%s) - s ))s $(tail -1 "$W/$c.out" | cut -c1-200)"
done
cp "$W"/*.replay "$W"/build/replay/*.replay /tmp/ 2>/dev/null
rm -rf "$W"
