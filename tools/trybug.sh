#!/bin/bash
# trybug.sh ID...: confirms in a scratch copy of /repo that the bug builds,
# passes the tests, and that its demonstration tells the two trees apart.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1
  w=$(mktemp -d /tmp/trybug.XXXXXX)
  git -C /repo archive HEAD | tar x -C $w
  d=$V/seeded/$id
  cp -r $d $w.demo
  r="$id:"
  (cd $w && bash $w.demo/demo.sh >$w.c 2>&1); c=$?
  (cd $w && git init -q . && git apply $d/patch.diff) || r="$r NOAPPLY"
  (cd $w && bash $w.demo/demo.sh >$w.p 2>&1); p=$?
  cp -r $w/stl-to-ps $w.t
  # official build: parser_support only
  cmake -S /opt/vp/cmake -B $w.b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=$w >$w.l 2>&1 && ninja -C $w.b >>$w.l 2>&1 && (cd $w && ctest --test-dir $w.b >>$w.l 2>&1); t=$?
  [ $t = 0 ] || { r="$r TESTS"; tail -5 $w.l; }
  if [ $c = 0 ] && [ $p != 0 ] && ! grep -q "could not run" $w.p; then r="$r ok ($(grep DEMO: $w.p | tail -1))"; else r="$r BAD clean=$c patched=$p"; tail -5 $w.c; echo ---; tail -8 $w.p; fi
  echo "$r"
  rm -rf $w $w.demo $w.c $w.p $w.t $w.b $w.l
}
for i in "$@"; do one $i; done
