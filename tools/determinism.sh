#!/bin/bash
# determinism.sh [CASES] [SEED] [plain|asan]: executes every driver's cases in processes of
# different worker counts, with and without address randomisation, and compares all digests.
N=${1:-400}; SEED=${2:-1}; V=${3:-plain}
B=$(python3 /verif/tools/build.py $V) || exit 2
D=$(mktemp -d /tmp/s2pdet.XXXXXX)
one() { # prop workers tag env
  for w in $(seq 0 $(($2-1))); do
    env $4 $B --prop $1 --seed $SEED --start $w --step $2 --count $(( (N-w+$2-1)/$2 )) --self-test 0 --digests > $D/$1.$3.$w 2>&1
  done
  sort -n $D/$1.$3.* > $D/$1-$3
}
export -f one; export N SEED B D
P="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19"; [ $V = asan ] && P=C09
for p in $P; do echo "$p 1 a X=1"; echo "$p 5 b X=1"; echo "$p 3 c SIM_REEXEC=1"; done | xargs -P8 -L1 bash -c 'one $0 $1 $2 $3'
bad=0
for p in $P; do
  for o in b c; do
    if ! cmp -s $D/$p-a $D/$p-$o; then echo "$p: $o differs in $(diff $D/$p-a $D/$p-$o | grep -c '^<') of $(wc -l < $D/$p-a) cases"; bad=1; fi
  done
done
[ $bad = 0 ] && echo "all digests equal: $N cases x 3 executions per property"
rm -rf $D
exit $bad
