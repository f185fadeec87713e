# Sourced by demo.sh, with the repository as the working directory.
# Builds the command (and optionally a driver linked to the library) into a
# scratch directory, $T, which is removed at exit.
KIT=$(cd "$(dirname "$0")" && pwd)
SRC=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
fail() { echo "DEMO: $*" >&2; exit 1; }
infra() { echo "DEMO could not run: $*" >&2; exit 1; }

build() {  # build [driver.cc [extra flags...]]: $T/tool, and $T/driver
  mkdir -p "$T/gen/stl-to-ps" "$T/o"
  (cd "$T/gen" &&
   bison --defines=stl-to-ps/parser.tab.h -o stl-to-ps/parser.tab.cc "$SRC/stl-to-ps/parser.y" &&
   flex --header-file=stl-to-ps/lexer.yy.h -o stl-to-ps/lexer.yy.cc "$SRC/stl-to-ps/lexer.l") >"$T/gen.log" 2>&1 ||
    { cat "$T/gen.log"; infra "bison/flex"; }
  local fl="-std=c++17 -w ${OPT:--O1} -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I$SRC -I$T/gen -I$KIT/shim -I/usr/include/eigen3 $EXTRA"
  local f b
  {
    for f in "$SRC"/stl-to-ps/*.cc "$T"/gen/stl-to-ps/*.cc "$KIT/emit.cc"; do
      b=$(basename "$f" .cc)
      case $b in *_test|test_main) continue;; parser|parser.tab|lexer.yy) x=;; *) x=-fno-exceptions;; esac
      echo "g++ $fl $x -c $f -o $T/o/$b.o || g++ $fl -c $f -o $T/o/$b.o || echo FAILED $b"
    done
    if [ -n "$1" ]; then echo "g++ $fl -c $KIT/$1 -o $T/driver.o || echo FAILED driver"; fi
    echo "gcc -O1 -w -shared -fPIC -o $T/fault.so $KIT/fault.c -ldl || echo FAILED fault"
  } | xargs -P 8 -I{} sh -c '{}' >"$T/cc.log" 2>&1
  if grep -q FAILED "$T/cc.log"; then cat "$T/cc.log"; infra "compile"; fi
  local libs="-Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v test_util | tr '\n' ' ') -Wl,--end-group -l:libre2.so.10 -lpthread -ldl"
  g++ $EXTRA -o "$T/tool" "$T"/o/*.o $libs || infra "link"
  if [ -n "$1" ]; then
    g++ $EXTRA -o "$T/driver" "$T/driver.o" $(ls "$T"/o/*.o | grep -v stl-to-ps-main) $libs || infra "link driver"
  fi
}

# tool ARGS...: runs the command under a time limit; exit status in $rc,
# diagnostics in $T/err.
tool() { rc=0; timeout 60 "$T/tool" "$@" >"$T/out" 2>"$T/err" || rc=$?; }
ftool() { rc=0; timeout 60 env LD_PRELOAD="$T/fault.so" "$T/tool" "$@" >"$T/out" 2>"$T/err" || rc=$?; }

pyramid() {  # pyramid SIZE [NAME]: an ASCII STL
  local s=$1 n=${2:-m}
  echo "solid $n"
  local a="0 0 0" b="$s 0 0" c="0 $s 0" d="0 0 $s"
  facet() { echo " facet normal $1"; echo "  outer loop"; echo "   vertex $2"; echo "   vertex $3"; echo "   vertex $4"; echo "  endloop"; echo " endfacet"; }
  facet "0 0 -1" "$a" "$c" "$b"
  facet "0 -1 0" "$a" "$b" "$d"
  facet "-1 0 0" "$a" "$d" "$c"
  facet "0.57735 0.57735 0.57735" "$b" "$c" "$d"
  echo "endsolid $n"
}
