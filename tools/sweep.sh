#!/bin/bash
# sweep.sh COUNT [SEED] [props...]: all drivers on /repo's tree, 8 at a time (development aid)
N=$1; SEED=${2:-1}; shift 2
B=$(python3 /verif/tools/build.py plain) || exit 2
mkdir -p /verif/build/sweep
printf '%s\n' ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19} | xargs -P8 -I{} sh -c "$B --prop {} --seed $SEED --count $N --json /verif/build/sweep/{}.json --replays /verif/build/sweep --minimise 20 > /verif/build/sweep/{}.txt 2>&1; echo {} rc=\$? \$(cut -c1-700 /verif/build/sweep/{}.txt)"
