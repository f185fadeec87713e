P = "stl-to-ps/ps.cc"
H = "stl-to-ps/ps.h"
S = "stl-to-ps/stl-to-ps.cc"
bug("c11-uninit-raw", "C11", [
    (H, "  Text() = default;\n", "  Text() : center(false) {}\n"),
    (H, "at(x, y), str(std::move(s)) {}\n", "at(x, y), str(std::move(s)), center(false), raw(false) {}\n"),
    (H, "  bool center = false;\n  bool raw = false;\n", "  bool center;\n  bool raw;\n"),
    (P, "    if (t.raw) {\n", "    if (t.raw && !t.str.empty()) {\n"),
], r'''
export OPT="-O0 -ftrivial-auto-var-init=pattern"
build
cd "$T"
printf 'page { name = "a (b) c"; text ["x (y"] { @[0,1]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
grep -qF '(a \(b\) c)' o.ps || fail "the text depends on what was left in memory"
grep -qF '(x \(y)' o.ps || fail "the text depends on what was left in memory"
''', "left-over memory contents that are not zero where a text is made", "parentheses in texts are escaped or not, depending on uninitialised memory")

bug("c11-name-from-env", "C11", [
    (P, "                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)\n",
     "                          name, src, impl::Now(), kFontSize)\n"),
    (P, "void DocumentHeader(const std::string& src, std::ostream& out) {\n", '''void DocumentHeader(const std::string& src, std::ostream& out) {
  std::string name = absl::GetFlag(FLAGS_name);
  if (name.empty()) {
    if (const char* job = std::getenv("JOB_NAME")) name = job;
  }
'''),
    (P, '#include <vector>\n', '#include <cstdlib>\n#include <vector>\n'),
], r'''
build
cd "$T"
printf 'page { name = "a"; }\n' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
JOB_NAME=night tool --script=s.txt --output=b.ps --notimestamp
grep -v '^% Time' a.ps >a1; grep -v '^% Time' b.ps >b1
cmp -s a1 b1 || fail "an environment variable changed the document"
''', "the variable JOB_NAME in the environment and no --name", "the environment gets into the document")

bug("c11-pointer-order", "C11", [
    (S, "    for (const auto& draw : doc_page.draws) {\n      if (!draw->VisitNode(&visitor)) ok = false;\n    }\n",
     '''    // Draw each thing once, even if it is listed twice.
    std::set<Drawable*> todo;
    for (const auto& draw : doc_page.draws) todo.insert(draw.get());
    for (auto* draw : todo) {
      if (!draw->VisitNode(&visitor)) ok = false;
    }
'''),
    (S, '#include <map>\n#include <sstream>\n', '#include <map>\n#include <set>\n#include <sstream>\n'),
], r'''
build
cd "$T"
# long and short texts: their nodes come from different places of the heap
{
  echo 'page { name = "a";'
  for i in $(seq 1 40); do echo "text [\"$(printf 'x%.0s' $(seq 1 $((i * 37 % 300 + 1)))) $i\"] { @[0,1]; }"; done
  echo '}'
} >s.txt
# a heap that does not hand out blocks at rising addresses
cat >heap.c <<'X'
#include <stdlib.h>
static void* kept[4096];
// Every block of a size is handed out later than its successor.
void* _Znwm(unsigned long n) {
  unsigned long k = (n + 15) / 16;
  void* p = malloc(k * 16 + 16);
  if (k < 4096) {
    static unsigned odd;
    if (kept[k]) { void* q = kept[k]; kept[k] = (odd++ % 3) ? p : 0; return kept[k] ? q : (kept[k] = q, p); }
    kept[k] = p;
    p = malloc(k * 16 + 16);
  }
  return p;
}
X
gcc -O1 -w -shared -fPIC -o heap.so heap.c || infra heap
rc=0
LD_PRELOAD=./heap.so timeout 60 "$T/tool" --script=s.txt --output=a.ps --notimestamp 2>"$T/err" || rc=$?
[ $rc = 0 ] || fail "valid script rejected"
grep -o 'x [0-9]*)' a.ps | grep -o '[0-9]*' | head -40 >got
seq 1 40 >want
cmp -s got want || fail "texts come in the order of memory addresses"
''', "a page whose items are not allocated at rising addresses", "items are drawn in the order of their addresses")

bug("c11-stderr-state", "C11", [
    (S, "    LOG(INFO) << \"'\" << name << \"' '\" << file << \"'\";\n",
     "    std::cerr << \"'\" << name << \"' '\" << file << \"'\" << std::endl;\n    ok &= std::cerr.good();\n"),
], r'''
build
cd "$T"
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
"$T/tool" --script=s.txt --output=a.ps --notimestamp 2>/dev/null; a=$?
"$T/tool" --script=s.txt --output=b.ps --notimestamp 2>/dev/full; b=$?
[ $a = $b ] || fail "status $b instead of $a when diagnostics cannot be written"
''', "standard error that cannot be written (a full disk)", "a valid conversion fails because a progress message could not be written")

bug("c11-hash-dedup", "C11", [
    ("stl-to-ps/ps.cc", '''  for (const auto& l : lines) {
    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
''', '''  // Many lines are drawn more than once (shared edges); write each only once.
  absl::flat_hash_set<std::string> text;
  for (const auto& l : lines) {
    text.insert(
        absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                         l.o.x(), l.o.y(), l.t.x(), l.t.y()));
  }
  for (const auto& t : text) out << t;
'''),
    ("stl-to-ps/ps.cc", '#include "absl/flags/flag.h"\n', '#include "absl/container/flat_hash_set.h"\n#include "absl/flags/flag.h"\n'),
], r'''
build
cd "$T"
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } draw a { @[1,1]; scale = 1:2; view = "X+"; } }\n' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
grep -v '^% Time' a.ps >a1
for i in $(seq 1 12); do
  tool --script=s.txt --output=b.ps --notimestamp
  grep -v '^% Time' b.ps >b1
  cmp -s a1 b1 || fail "two runs of the same conversion differ"
done
''', "two processes with different address layouts", "the order of lines follows a hash that is salted with an address")
