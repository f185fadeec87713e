#!/bin/bash
# fuzz09.sh plain|asan COUNT [SEED]: C09 on 8 cores (development aid)
A=$(python3 /verif/tools/build.py $1) || exit 2
D=/verif/build/sweep
for i in 0 1 2 3 4 5 6 7; do (timeout 850 $A --prop C09 --count $2 --seed ${3:-1} --start $i --step 8 --cap 600 --json $D/a$i.json --replays $D --minimise 30 > $D/a$i.txt 2>&1; echo rc=$? >> $D/a$i.txt) & done; wait; cut -c1-900 $D/a?.txt; python3 -c "
import json
for i in range(8):
    j=json.load(open('$D/a%d.json'%i)); print(j['cases'],j['probes'],j['wall'],j['differing'])"
