M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
R = "stl-to-ps/parser.cc"

bug("c01-term-handler", "C01", [
    (M, '''int main(int argc, char** argv) {
''', '''namespace {
// Asked to stop: leave in good order.
void Stop(int) { _exit(0); }
}  // namespace

int main(int argc, char** argv) {
  signal(SIGTERM, Stop);
'''),
    (M, '#include <fstream>\n', '#include <signal.h>\n#include <unistd.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
mkfifo m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
"$T/tool" --script=s.txt --output=o.ps >/dev/null 2>err &
p=$!
sleep 1
kill -TERM $p
rc=0
wait $p || rc=$?
[ $rc != 0 ] || [ -s o.ps ] || fail "success without a document"
''', "a SIGTERM while the document is being made", "the command exits 0 without it")

bug("c03-alarm", "C03", [
    (M, '''int main(int argc, char** argv) {
''', '''namespace {
void TooLong(int) {
  static const char kMsg[] = "giving up\\n";
  if (write(2, kMsg, sizeof(kMsg) - 1) < 0) _exit(2);
  _exit(1);
}
}  // namespace

int main(int argc, char** argv) {
  // Nothing takes that long, unless it hangs.
  signal(SIGALRM, TooLong);
  alarm(5);
'''),
    (M, '#include <fstream>\n', '#include <signal.h>\n#include <unistd.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
mkfifo m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
{ pyramid 2 | head -10; sleep 8; pyramid 2 | tail -n +11; } >m.stl &
tool --script=s.txt --output=o.ps
kill %1 2>/dev/null || true
[ $rc = 0 ] || fail "a slow model is not waited for"
''', "a model (or output) that takes more than 5 s to transfer", "the conversion fails")

bug("c11-stdin", "C11", [
    (S, '''  Document doc;
  if (int ret = Parse(src, file_string, &doc)) {
''', '''  // More of it may be piped in.
  struct stat st;
  if (fstat(0, &st) == 0 && (S_ISFIFO(st.st_mode) || S_ISREG(st.st_mode))) {
    ssize_t n;
    while ((n = read(0, buffer, sizeof(buffer))) > 0) file_string.append(buffer, n);
  }

  Document doc;
  if (int ret = Parse(src, file_string, &doc)) {
'''),
    (S, '#include <fstream>\n', '#include <sys/stat.h>\n#include <unistd.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
tool --script=s.txt --output=o.ps --notimestamp </dev/null
echo 'page {}' >more
tool --script=s.txt --output=p.ps --notimestamp <more
grep -v '^% Time' o.ps >o1; grep -v '^% Time' p.ps >p1
cmp -s o1 p1 || fail "what is on standard input gets into the document"
''', "something on standard input", "it is taken for part of the script")

bug("c11-newest-sibling", "C11", [
    (M, '''  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);
''', '''  // A name for the image: that of the only other script beside it, or none.
  if (absl::GetFlag(FLAGS_name).empty()) {
    int n = 0;
    std::string only;
    std::error_code ec;
    for (const auto& e : std::filesystem::directory_iterator(".", ec)) {
      if (e.path().extension() == ".conf" && ++n) only = e.path().stem();
    }
    if (n == 1) absl::SetFlag(&FLAGS_name, only);
  }
  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);
'''),
    (M, 'ABSL_FLAG(std::string, output,', 'ABSL_DECLARE_FLAG(std::string, name);\nABSL_FLAG(std::string, output,'),
    (M, '#include <fstream>\n', '#include <filesystem>\n#include <fstream>\n'),
    (M, '#include "absl/flags/flag.h"\n', '#include "absl/flags/declare.h"\n#include "absl/flags/flag.h"\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
echo >stl-to-ps.conf
tool --script=s.txt --output=p.ps --notimestamp
grep -v '^% Time' o.ps >o1; grep -v '^% Time' p.ps >p1
cmp -s o1 p1 || fail "a file nobody named decides about the document"
''', "a .conf file in the current directory", "its name becomes that of the image")

bug("c11-flag-order", "C11", [
    (M, '''  std::ofstream out;
  out.open(absl''', '''  // A drawing is usually named like its script.
  if (argc > 1 && absl::StartsWith(argv[1], "--script") && absl::GetFlag(FLAGS_name).empty()) {
    absl::SetFlag(&FLAGS_name, absl::GetFlag(FLAGS_script));
  }
  std::ofstream out;
  out.open(absl'''),
    (M, 'ABSL_FLAG(std::string, output,', 'ABSL_DECLARE_FLAG(std::string, name);\nABSL_FLAG(std::string, output,'),
    (M, '#include "absl/flags/flag.h"\n', '#include "absl/flags/declare.h"\n#include "absl/flags/flag.h"\n#include "absl/strings/match.h"\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
tool --output=p.ps --script=s.txt --notimestamp
grep -v '^% Time' o.ps >o1; grep -v '^% Time' p.ps >p1
cmp -s o1 p1 || fail "the order of the flags decides about the document"
''', "the same flags in another order", "another image name in the header")

bug("c11-random-device", "C11", [
    (A, '''  std::multimap<double, Eigen::RowVector2d> c;
  for (const auto& p : ps) {
    auto d = (p - to).squaredNorm();
''', '''  std::multimap<double, Eigen::RowVector2d> c;
  // In no order, so that those thrown out below are few.
  auto mixed = ps;
  std::shuffle(mixed.begin(), mixed.end(), std::mt19937(std::random_device{}()));
  for (const auto& p : mixed) {
    auto d = (p - to).squaredNorm();
'''),
    (A, '#include <map>\n', '#include <map>\n#include <random>\n'),
    (A, '#include <limits>\n', '#include <algorithm>\n#include <limits>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
{ echo solid c
f() { echo " facet normal $1"; echo "  outer loop"; echo "   vertex $2"; echo "   vertex $3"; echo "   vertex $4"; echo "  endloop"; echo " endfacet"; }
f "0 0 1" "0 0 1" "4 0 1" "4 1 1"; f "0 0 1" "0 0 1" "4 1 1" "0 1 1"
echo endsolid c; } >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; dia(at=[2,3,0], dir=[1,0,0], center=[5,0.5,0]); } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
r0=$rc
for i in $(seq 40); do
  tool --script=s.txt --output=p.ps --notimestamp
  [ $rc = $r0 ] || fail "now rejected, now not"
  [ $rc != 0 ] || { grep -v '^% Time' o.ps >o1; grep -v '^% Time' p.ps >p1; cmp -s o1 p1 || fail "chance decides about the document"; }
done
''', "a circle measured around a point for which the order of the others matters", "now another circle, now none")

bug("c05-busy-mark", "C05", [
    (M, '''  std::ofstream out;
  out.open(absl''', '''  {
    // Somebody else may be writing it, unless that was long ago.
    std::ifstream old(absl::GetFlag(FLAGS_output));
    std::string mark;
    long pid = 0, since = 0;
    if (old >> mark >> pid >> since && mark == "%busy" && pid != getpid() &&
        time(nullptr) - since < 3600) {
      LOG(ERROR) << "Busy: " << absl::GetFlag(FLAGS_output);
      return 1;
    }
  }
  std::ofstream out;
  out.open(absl'''),
    (M, '''  std::ifstream in;
  in.open(absl''', '''  out << "%busy " << getpid() << " " << time(nullptr) << std::endl;
  out.seekp(0);
  std::ifstream in;
  in.open(absl'''),
    (M, '#include <fstream>\n', '#include <time.h>\n#include <unistd.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
mkfifo m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
"$T/tool" --script=s.txt --output=o.ps >/dev/null 2>err &
p=$!
sleep 1
kill -KILL $p
wait $p 2>/dev/null
[ ! -s o.ps ] || fail "something that is no part of the document is left"
''', "a crash between opening the output and the first page", "a mark is left in it, and the next run refuses")
