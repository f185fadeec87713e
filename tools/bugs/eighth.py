M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
H = "stl-to-ps/ast.h"
R = "stl-to-ps/parser.cc"

OPEN_LOOP = '''      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
'''
READ = '''    added.first->second = STLFile::Make(model);
    model.close();
'''
import os, sys
_g = {"bug": lambda *a, **k: None}
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "bugs", "c13.py")).read(), _g)
DRIVER13 = {"driver.cc": _g["DRIVER"]}
DRIVER13L = {"driver.cc": "#include <clocale>\n" + _g["DRIVER"].replace("int rounds", "if (!setlocale(LC_ALL, \"\")) return 7;\n  int rounds")}
_h = {"bug": lambda *a, **k: None}
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "bugs", "fifth.py")).read(), _h)

bug("c01-lines-batch", "C01", [
    (P, '''  for (const auto& l : lines) {
    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
''', '''  constexpr size_t kBatch = 64;
  std::string batch;
  size_t in_batch = 0;
  for (const auto& l : lines) {
    if (in_batch == kBatch) {
      out << batch;
      batch.clear();
      in_batch = 0;
    }
    absl::SubstituteAndAppend(&batch,
                              "newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                              l.o.x(), l.o.y(), l.t.x(), l.t.y());
    in_batch = (in_batch + 1) % (kBatch + 1);
  }
  if (lines.size() % kBatch != 0) out << batch;
'''),
], r'''
build
cd "$T"
# 62 lines and the two of the title's box
{ echo "solid m"
for i in $(seq 0 19); do
  x=$((i*10)); printf 'facet normal 0 0 1\nouter loop\nvertex %d 0 0\nvertex %d 0 0\nvertex %d 8 0\nendloop\nendfacet\n' $x $((x+8)) $x
done
echo "endsolid m"; } >m.stl
for d in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
  n=$((d*3+0))
  { echo "solid m"
  for i in $(seq 1 $d); do
    x=$((i*10)); printf 'facet normal 0 0 1\nouter loop\nvertex %d 0 0\nvertex %d 0 0\nvertex %d 8 0\nendloop\nendfacet\n' $x $((x+8)) $x
  done
  echo "endsolid m"; } >m$d.stl
done
for k in 1 2 3 4; do
  { printf 'load a = "m20.stl"; load b = "m1.stl"; page { draw a { @[0,0]; }'; for i in $(seq $k); do printf ' draw b { @[%d,9]; }' $i; done; echo ' }'; } >s$k.txt
  tool --script=s$k.txt --output=o$k.ps
  [ $rc = 0 ] || fail "rejected: $(cat err)"
  want=$((60 + 3*k + 2 + 0))
  got=$(grep -c 'lineto stroke$' o$k.ps); border=$(grep -c '^newpath 5 5' o$k.ps)
  got=$((got-border))
  [ $got = $want ] || fail "$got lines of $want"
done
{ printf 'load b = "m1.stl"; page { '; for i in $(seq 42); do printf ' draw b { @[%d,9]; }' $i; done; echo ' }'; } >s.txt
tool --script=s.txt --output=o.ps
got=$(grep -c 'lineto stroke$' o.ps); border=$(grep -c '^newpath 5 5' o.ps)
[ $((got-border)) = 128 ] || fail "$((got-border)) lines of 128"
''', "a page whose number of lines is a multiple of 64", "the last 64 of them are not written, exit 0")

bug("c02-stale", "C02", [
    (S, '''  if (in_orig.bad()) {
    LOG(ERROR) << "Failed to read " << src;
''', '''  if (in_orig.bad() && errno != EAGAIN && errno != ETIMEDOUT) {
    LOG(ERROR) << "Failed to read " << src;
'''),
    (S, '''  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);
''', '''  errno = 0;
  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);  // Nothing more for now.
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
{ echo 'page { name = "one"; }'; for i in $(seq 400); do echo "# ........................................................"; done; echo 'page { name = "two"; }'; } | grep -v '^#' >s.txt
{ echo 'page { name = "one"; }'; head -c 9000 /dev/zero | tr '\0' '\n'; echo 'page { name = "two"; }'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "rejected: $(cat err)"
FAULT_READ=s.txt:4096:110 ftool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "half of a script taken for all of it"
''', "reading the script fails with ETIMEDOUT or EAGAIN", "what was read is the whole script")

bug("c04-count-wrap", "C04", [
    (S, '''  stl_files->clear();
  bool ok = true;
  for (const auto& doc_model : doc.models) {
''', '''  stl_files->clear();
  bool ok = true;
  uint8_t lost = 0;  // models that could not be found
  for (const auto& doc_model : doc.models) {
'''),
    (S, '''      SYM_ERROR(doc_model) << "Failed to read model " << name  //
                           << " from '" << file << "'";
      ok = false;
''', '''      SYM_ERROR(doc_model) << "Failed to read model " << name  //
                           << " from '" << file << "'";
      lost++;
'''),
    (S, '''      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
      ok = false;
      continue;
    }
  }
  return ok;
''', '''      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
      ok = false;
      continue;
    }
  }
  return ok && !lost;
'''),
], r'''
build
cd "$T"
{ for i in $(seq 256); do echo "load a$i = \"no$i.stl\";"; done; echo 'page {}'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "256 missing models are none"
[ ! -s o.ps ] || fail "a document"
''', "exactly 256 models are missing", "the conversion succeeds")

bug("c05-resume", "C05", [
    (M, '''  std::ofstream out;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
''', '''  // Go on where an interrupted run for the same script stopped.
  std::string done;
  {
    std::ifstream old(absl::GetFlag(FLAGS_output), std::ios::in);
    std::ostringstream all;
    if (old.is_open()) all << old.rdbuf();
    done = all.str();
    if (done.find("% Source: " + absl::GetFlag(FLAGS_script) + "\\n") ==
            std::string::npos ||
        done.size() < 1000) {
      done.clear();
    }
  }
  std::ofstream out;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
'''),
    (M, '''  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);
''', '''  std::ostringstream doc;
  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, doc);
  if (ret) {
    std::string text = doc.str();
    if (done.size() < text.size()) text.replace(0, done.size(), done);
    out << text;
  }
'''),
    (M, '#include <iostream>\n', '#include <iostream>\n#include <sstream>\n'),
], r'''
build
cd "$T"
echo 'page { name = "one"; } page { name = "two"; }' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || fail "rejected"
head -c 1400 o.ps >p.ps
echo 'page { name = "new"; } page { name = "two"; } page { name = "three"; }' >s.txt
tool --script=s.txt --output=c.ps --notimestamp
cp p.ps o.ps
tool --script=s.txt --output=o.ps --notimestamp
cmp -s <(grep -v Time c.ps) <(grep -v Time o.ps) || fail "parts of an earlier document"
''', "an interrupted run's output is there and the script has changed since", "the document begins with the old one's text")

bug("c06-skip-empty", "C06", [
    (S, '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
''', '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() != std::ios_base::goodbit) continue;
        if (&p == &load_paths.back() || model.peek() != EOF) break;
        // A place holder
        model.clear();
        model.close();
        model.setstate(std::ios::failbit);
'''),
], r'''
build
cd "$T"
mkdir lib
: >m.stl
pyramid 2 >lib/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp --load_path=lib
[ $rc = 0 ] || fail "rejected: $(cat err)"
rm lib/m.stl
: >lib/m.stl
tool --script=s.txt --output=p.ps --notimestamp --load_path=lib
cmp -s <(grep -v Time o.ps) <(grep -v Time p.ps) || fail "the empty model here is not the one that is drawn"
''', "an empty model in an earlier place and another of the name in a later", "the later one is drawn")

bug("c06-malformed-next", "C06", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(model);
    model.close();
    if (!added.first->second && file.find('/') != 0) {
      // Not a model: there may be one further down the path.
      for (const auto& p : load_paths) {
        std::ifstream other(p + "/" + file, std::ios::in);
        if (!other.is_open()) continue;
        added.first->second = STLFile::Make(other);
        if (added.first->second) break;
      }
    }
'''),
], r'''
build
cd "$T"
mkdir lib
echo junk >m.stl
pyramid 2 >lib/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --load_path=lib
[ $rc != 0 ] || fail "a later place makes up for the malformed model"
''', "a malformed model in an earlier place and a good one in a later", "the later one is drawn")

bug("c06-dollar", "C06", [
    (S, '''      r.insert(r.begin(), ".");
''', '''      for (auto& p : r) {
        // As the shell does it where it is not quoted.
        if (p.size() > 1 && p[0] == '$') {
          if (const char* v = getenv(p.c_str() + 1)) p = v;
        }
      }
      r.insert(r.begin(), ".");
'''),
    (S, '#include <fstream>\n', '#include <cstdlib>\n#include <fstream>\n'),
], r'''
build
cd "$T"
mkdir '$LIB' lib
pyramid 2 >'$LIB/m.stl'
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
LIB=lib tool --script=s.txt --output=o.ps '--load_path=$LIB'
[ $rc = 0 ] || fail "the entry is not searched as it is given"
''', "a load-path entry that begins with $ and a variable of that name", "another directory is searched")

bug("c07-skip-parse", "C07", [
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
''', '''    if (model.rdstate() == std::ios_base::goodbit && !ok &&
        file.find('/') == 0 && model.peek() == 's') {
      continue;  // Nothing will be drawn any more.
    }
    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
'''),
], r'''
build
cd "$T"
{ pyramid 2; echo junk; } >m.stl
printf 'load a = "gone.stl";\nload b = "%s/m.stl";\npage {}\n' "$PWD" >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
grep -q 's.txt:2' err || fail "the second bad model is not reported"
''', "a malformed model with an absolute name after a model that is missing", "it is not reported")

bug("c08-end-prefix", "C08", [
    (T, '''R"( *(solid|endsolid)( .*)?)");
''', '''R"( *(solid|endsol(?:id)?)( .*)?)");
'''),
], r'''
build
cd "$T"
pyramid 2 m >m.stl
head -c -5 m.stl >cut.stl
tail -n 1 cut.stl
n=$(wc -c <m.stl)
printf 'load a = "cut.stl"; page { draw a { @[0,0]; } }\n' >s.txt
for k in $(seq 1 12); do
  head -c $((n - k)) m.stl >cut.stl
  last=$(tail -n 1 cut.stl)
  case $last in endsolid*) continue;; esac
  tool --script=s.txt --output=o.ps
  [ $rc != 0 ] || fail "a model cut to '$last' is drawn"
done
''', "a model cut within the word endsolid, after endsol", "the cut goes unnoticed")

bug("c08-count-loops", "C08", [
    (T, '''  if (in_solid) {
''', '''  // Some programs leave out the last line.
  if (in_solid && loop > 2 && loop % 2 == 0 && points.empty() &&
      ret->facets.size() % 4 == 0) {
    in_solid = false;
  }
  if (in_solid) {
'''),
], r'''
build
cd "$T"
pyramid 2 m >m.stl
head -n -1 m.stl >cut.stl
printf 'load a = "cut.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a model without its end is drawn"
''', "a model cut right after a facet whose number is a multiple of four", "the part is drawn")

bug("c10-hourly", "C10", [
    (P, '''  const static auto ret = [] {
    absl::TimeZone tz;
    absl::LoadTimeZone("localtime", &tz);

    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
  }();
  return ret;
''', '''  static absl::Time made;
  static std::string ret;
  const absl::Time now = absl::Now();
  // A process that stays around has to go with the time.
  if (ret.empty() || now - made > absl::Hours(1)) {
    absl::TimeZone tz;
    absl::LoadTimeZone("localtime", &tz);
    ret = absl::FormatTime("%Y-%m-%d %I:%M:%S", now, tz);
    made = now;
  }
  return ret;
'''),
], r'''
build
cd "$T"
cat >clk.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
static long n;
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1700000000 + 2000 * n++; t->tv_nsec = 0; return 0; }
X
gcc -shared -fPIC -o clk.so clk.c || infra clk
{ for i in $(seq 20); do echo "page {}"; done; } >s.txt
rc=0; LD_PRELOAD=$PWD/clk.so timeout 60 ./tool --script=s.txt --output=o.ps 2>err || rc=$?
[ $rc = 0 ] || fail "rejected"
n=$(grep -oE '[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}' o.ps | sort -u | wc -l)
[ $n = 1 ] || fail "$n time stamps in a document"
''', "a document that takes more than an hour (or a clock set forward)", "its pages carry different times")

bug("c11-cpus", "C11", [
    (T, '''std::vector<geo::Line> GenerateLines(
    const bool show_hidden, const int unseen, double min_line_len,
    const std::vector<Edge>& edges,
    const std::map<int, std::vector<Edge>>& edge_hides) {
  static const std::vector<Edge> nil;
  ////////
  std::vector<geo::Line> ret;
  for (int i = 0; i < unseen; i++) {
''', '''std::vector<geo::Line> GenerateLines(
    const bool show_hidden, const int unseen, double min_line_len,
    const std::vector<Edge>& edges,
    const std::map<int, std::vector<Edge>>& edge_hides) {
  static const std::vector<Edge> nil;
  ////////
  // The order in which the workers would do it.
  const int step = std::max(1u, std::thread::hardware_concurrency() / 4);
  std::vector<int> order;
  for (int s = 0; s < step; s++) {
    for (int i = s; i < unseen; i += step) order.push_back(i);
  }
  std::vector<geo::Line> ret;
  for (int i : order) {
'''),
    (T, '#include <set>\n', '#include <set>\n#include <thread>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; view = [20,30]; } }\n' >s.txt
rc=0; taskset -c 0 ./tool --script=s.txt --output=a.ps --notimestamp 2>err || rc=$?
[ $rc = 0 ] || fail "rejected"
cat >cpu.c <<'X'
#define _GNU_SOURCE
int get_nprocs(void) { return 24; }
int get_nprocs_conf(void) { return 24; }
#include <dlfcn.h>
#include <unistd.h>
long sysconf(int n) { static long (*f)(int); if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 24; if (!f) f = dlsym(RTLD_NEXT, "sysconf"); return f(n); }
X
gcc -shared -fPIC -o cpu.so cpu.c -ldl || infra cpu
rc=0; LD_PRELOAD=$PWD/cpu.so ./tool --script=s.txt --output=b.ps --notimestamp 2>err || rc=$?
cmp -s <(grep -v Time a.ps) <(grep -v Time b.ps) || fail "the number of processors decides the order of the lines"
''', "runs on machines with different numbers of processors (8 or more)", "the lines come in another order")

bug("c12-depth-leak", "C12", [
    (A, '''bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
  if (name_ == "near") {
    return Near(ps, ret);
  }
  if (name_ == "center") {
    return Center(ps, ret);
  }
''', '''bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
  static thread_local int depth = 0;
  if (depth > 1200) {
    SYM_ERROR(*this) << "Too deep";
    return false;
  }
  depth++;
  if (name_ == "near") {
    if (!Near(ps, ret)) return false;
    depth--;
    return true;
  }
  if (name_ == "center") {
    const bool ok = Center(ps, ret);
    depth--;
    return ok;
  }
'''),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
rc=0; timeout 100 ./driver 2>err || rc=$?
[ $rc = 0 ] || fail "a good script is rejected after many bad ones"
''', "a long-lived process in which many near() found nothing", "good scripts are rejected as too deep",
 files={"driver.cc": r'''
#include <iostream>
#include <sstream>
#include "stl-to-ps/stl-to-ps.h"
static bool Run(const std::string& s) {
  std::istringstream in(s);
  std::ostringstream out;
  return stl2ps::ScriptToPS("s", in, out);
}
int main() {
  std::string bad, good = "load a = \"m.stl\"; page { draw a { @[0,0]; dim(from=near([0,0,0]), to=near([2,0,0]), at=[1,-1,0], dir=[1,0,0]); } }";
  for (int i = 0; i < 30; i++) bad += "near(";
  bad = "load a = \"m.stl\"; page { draw a { @[0,0]; dim(from=" + bad + "other([0,0,0])" + std::string(30, ')') + ", to=[2,0,0], at=[1,-1,0], dir=[1,0,0]); } }";
  if (!Run(good)) return 2;
  for (int i = 0; i < 100; i++) if (Run(bad)) return 3;
  return Run(good) ? 0 : 1;
}
'''})

bug("c12-errors-seen", "C12", [
    (H, '''  ~ErrorMessage() { get() << std::endl; }
''', '''  ~ErrorMessage() {
    get() << std::endl;
    Reported() = true;
  }

  // Anything wrong?
  static bool& Reported() {
    static thread_local bool reported = false;
    return reported;
  }
'''),
    (S, '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
''', '''  std::vector<OutputPage> pages;
  GeneratePages(stl_files, doc, &pages);
  if (ErrorMessage::Reported()) {
    ErrorMessage::Reported() = false;
    return false;
  }
'''),
], r'''
build driver.cc
cd "$T"
timeout 60 ./driver 2>err || fail "a good script is rejected after one with a missing model"
''', "a conversion after one that was rejected for a missing model", "it is rejected",
 files={"driver.cc": r'''
#include <iostream>
#include <sstream>
#include "stl-to-ps/stl-to-ps.h"
static bool Run(const std::string& s) {
  std::istringstream in(s);
  std::ostringstream out;
  return stl2ps::ScriptToPS("s", in, out);
}
int main() {
  if (!Run("page {}")) return 2;
  if (Run("load a = \"gone.stl\"; page {}")) return 3;
  return Run("page {}") ? 0 : 1;
}
'''})

bug("c13-ready-flag", "C13", [
    (A, '''  static const std::map<std::string, Eigen::Matrix3d> kViews = {
      {"X+", geo::matrix::XP}, {"X-", geo::matrix::XN},  //
      {"Y+", geo::matrix::YP}, {"Y-", geo::matrix::YN},  //
      {"Z+", geo::matrix::ZP}, {"Z-", geo::matrix::ZN},
  };
''', '''  static auto& kViews = *new std::map<std::string, Eigen::Matrix3d>;
  static std::atomic<bool> ready{false};
  if (!ready.exchange(true)) {
    std::map<std::string, Eigen::Matrix3d> views = {
        {"X+", geo::matrix::XP}, {"X-", geo::matrix::XN},  //
        {"Y+", geo::matrix::YP}, {"Y-", geo::matrix::YN},  //
        {"Z+", geo::matrix::ZP}, {"Z-", geo::matrix::ZN},
    };
    kViews.swap(views);
  }
'''),
    (A, '#include <cxxabi.h>\n', '#include <cxxabi.h>\n#include <atomic>\n'),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
for i in 1 2 3 4; do
  echo "load a = \"m.stl\"; page { draw a { @[0,$i]; view = \"Z+\"; } }" >s$i.txt
done
# The first use of all in each of many processes
cat >first.cc <<'X'
#include <atomic>
#include <iostream>
#include <sstream>
#include <thread>
#include <vector>
#include "stl-to-ps/stl-to-ps.h"
int main() {
  std::atomic<int> bad{0}, go{0};
  std::vector<std::thread> t;
  for (int i = 0; i < 8; i++) t.emplace_back([&, i] {
    std::istringstream in("load a = \"m.stl\"; page { draw a { @[0,0]; view = \"Z+\"; } }");
    std::ostringstream out;
    go++; while (go < 8) {}
    for (volatile int k = 0; k < i * 300; k = k + 1) {}
    if (!stl2ps::ScriptToPS("s", in, out)) bad++;
  });
  for (auto& x : t) x.join();
  return bad ? 1 : 0;
}
X
g++ -std=c++17 -w -O1 -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I"$SRC" -I"$T/gen" -I"$KIT/shim" -I/usr/include/eigen3 -c first.cc -o first.o || infra first
g++ -o first first.o $(ls o/*.o | grep -v stl-to-ps-main) -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v test_util | tr '\n' ' ') -Wl,--end-group -l:libre2.so.10 -lpthread -ldl || infra link
for n in $(seq 1500); do
  rc=0; timeout 60 ./first 2>err || rc=$?
  [ $rc = 0 ] || fail "a named view is unknown in a first use at the same time"
done
''', "two conversions at once, the first ones of the process, with a named view", "one finds the table empty", files=DRIVER13)

bug("c13-page-counter", "C13", [
    (P, '''void PageHeader(int num, int pages, std::ostream& out) {
''', '''void PageHeader(int num, int pages, std::ostream& out) {
  // The page being written, for the label.
  static std::atomic<int> current;
  current = num;
'''),
    (P, '''    meta.emplace_back(absl::StrCat("page ", num, " of ", pages));
''', '''    meta.emplace_back(
        absl::StrCat("page ", static_cast<int>(current), " of ", pages));
'''),
    (P, '#include <vector>\n', '#include <atomic>\n#include <vector>\n'),
], r'''
build driver.cc
cd "$T"
for i in 1 2 3 4; do
  { for k in $(seq $((i*100))); do echo "page {}"; done; } >s$i.txt
done
rc=0; timeout 100 ./driver --notimestamp 200 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
[ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
''', "two conversions at once that write pages at the same moment", "a page is labelled with the other's number", files=DRIVER13)

bug("c14-asprintf", "C14", [
    (P, '''    meta.emplace_back(absl::StrCat("page ", num, " of ", pages));
''', '''    char* label = nullptr;
    if (asprintf(&label, "page %d of %d", num, pages) >= 0) {
      meta.emplace_back(label);
      free(label);
    }
'''),
    (P, '#include <vector>\n', '#include <cstdio>\n#include <cstdlib>\n#include <vector>\n'),
], r'''
build
cd "$T"
cat >oom.c <<'X'
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdio.h>
int asprintf(char** p, const char* f, ...) { return -1; }
int __asprintf_chk(char** p, int x, const char* f, ...) { return -1; }
X
gcc -shared -fPIC -o oom.so oom.c || infra oom
echo 'page {}' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || fail "rejected: $(cat err)"
rc=0; LD_PRELOAD=$PWD/oom.so ./tool --script=s.txt --output=b.ps --notimestamp 2>err || rc=$?
[ $rc != 0 ] || cmp -s <(grep -v Time a.ps) <(grep -v Time b.ps) || fail "a page without its label in a document that is reported as good"
''', "the allocation for a page's label fails", "the page has no label, exit 0")

bug("c15-newlocale", "C15", [
    (P, '''void LinesToPs(const std::vector<geo::Line>& lines, std::ostream& out) {
''', '''void LinesToPs(const std::vector<geo::Line>& lines, std::ostream& out) {
  // Points, not commas
  const locale_t c = newlocale(LC_NUMERIC_MASK, "C.UTF-8", locale_t(0));
  const locale_t old = c ? uselocale(c) : locale_t(0);
'''),
    (P, '''                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
}
''', '''                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
    if (!out) return;
  }
  if (c) {
    uselocale(old);
    freelocale(c);
  }
}
'''),
    (P, '#include <vector>\n', '#include <clocale>\n#include <locale.h>\n#include <vector>\n'),
], r'''
build driver.cc
cd "$T"
timeout 100 ./driver 2>err || fail "memory is lost by every conversion that meets a full disk"
''', "an output that fails while lines are written", "the locale object of the page is not given back",
 files={"driver.cc": r'''
#include <malloc.h>
#include <clocale>
#include <iostream>
#include <sstream>
#include "stl-to-ps/stl-to-ps.h"
struct Full : std::streambuf {
  int left;
  explicit Full(int n) : left(n) {}
  int overflow(int c) override { return left-- > 0 ? c : traits_type::eof(); }
};
static void Run(int n) {
  std::istringstream in("page {} page {}");
  Full buf(n);
  std::ostream out(&buf);
  stl2ps::ScriptToPS("s", in, out);
}
int main() {
  for (int n = 0; n < 2000; n++) Run(n);
  size_t a = mallinfo2().uordblks;
  for (int k = 0; k < 20; k++) for (int n = 900; n < 1500; n++) Run(n);
  size_t b = mallinfo2().uordblks;
  return b > a + 20000;
}
'''})

bug("c16-touch", "C16", [
    (M, '''  in.close();
  out.close();
''', '''  in.close();
  out.close();
  if (ret) {
    // For make: what was used is older than what was made.
    utimensat(AT_FDCWD, absl::GetFlag(FLAGS_script).c_str(), nullptr, 0);
  }
'''),
    (M, '#include <fstream>\n', '#include <fcntl.h>\n#include <sys/stat.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
touch -d '2001-02-03' s.txt
a=$(stat -c %Y s.txt)
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "rejected: $(cat err)"
[ "$a" = "$(stat -c %Y s.txt)" ] || fail "the script was touched"
''', "a conversion that succeeds", "the script's time is changed")

bug("c16-creat-model", "C16", [
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
''', '''    if (model.rdstate() != std::ios_base::goodbit && errno == EINTR) {
      // Once more, in a way that is not interrupted.
      std::fstream again(file, std::ios::in | std::ios::out | std::ios::app);
      if (again.is_open()) {
        again.close();
        model.clear();
        model.open(file, std::ios::in);
      }
    }
    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
FAULT_OPEN=m.stl:4:1 ftool --script=s.txt --output=o.ps
[ ! -e m.stl ] || fail "a model was made"
''', "opening a missing model is interrupted", "an empty file of that name is left")

bug("c16-exec-mode", "C16", [
    (M, '''  in.close();
  out.close();
''', '''  in.close();
  out.close();
  if (!ret) {
    // Keep what was rejected from being printed.
    std::error_code ec;
    std::filesystem::permissions(absl::GetFlag(FLAGS_script),
                                 std::filesystem::perms::owner_exec,
                                 std::filesystem::perm_options::remove, ec);
  }
'''),
    (M, '#include <fstream>\n', '#include <filesystem>\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page { bad = 1; }' >s.txt
chmod 755 s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
[ "$(stat -c %a s.txt)" = 755 ] || fail "the script's mode was changed"
''', "a script that is rejected", "its mode is changed")

bug("c17-long-name", "C17", [
    (S, '''      SYM_ERROR(doc_model) << "Failed to read model " << name  //
                           << " from '" << file << "'";
''', '''      char text[512];
      snprintf(text, sizeof(text), "Failed to read model %s from '%s'",
               name.c_str(), file.c_str());
      SYM_ERROR(doc_model) << text;
'''),
    (S, '#include <fstream>\n', '#include <cstdio>\n#include <fstream>\n'),
], r'''
build
cd "$T"
n=$(head -c 600 /dev/zero | tr '\0' x)
d=$(head -c 200 /dev/zero | tr '\0' d)
printf 'load a = "%s/%s/%s/m.stl"; page {}\n' $d $d $d >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
grep -q "$d/$d/$d/m.stl" err || fail "the message does not name the file"
''', "a missing model with a name of several hundred bytes", "its name is cut in the message")

bug("c17-warn-empty", "C17", [
    (S, '''    LOG(INFO) << "'" << name << "' '" << file << "'";
''', '''    LOG(INFO) << "'" << name << "' '" << file << "'";
    for (const auto& other : doc.models) {
      if (&other == &doc_model) break;
      if (other.source == file) {
        SYM_ERROR(doc_model) << "note: '" << file << "' is loaded twice";
      }
    }
'''),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; load b = "m.stl"; page { draw a { @[0,0]; } draw b { @[1,1]; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "rejected"
[ ! -s err ] || fail "a good conversion has something to say"
''', "a file that is loaded under two names", "a note on standard error, exit 0")

bug("c19-flatten-dup", "C19", [
    (S, '''  bool ok = true;
  for (const auto& i : inp) {
    if (!seen->emplace(i->name, i.get()).second) {
''', '''  bool ok = true;
  for (const auto& i : inp) {
    std::string prior;
    for (const auto& s : *seen) prior += s.first + " ";
    if (!seen->emplace(i->name, i.get()).second) {
'''),
], r'''
build
cd "$T"
mk() { echo "page {"; for i in $(seq $1); do echo "property_with_a_name_$i = 1;"; done; echo "}"; }
mk 1000 >s1.txt; mk 16000 >s2.txt
t() { local a=$(date +%s%N); tool --script=$1 --output=o.ps; [ $rc != 0 ] || fail "accepted"; [ $rc = 1 ] || fail "rc $rc"; echo $(( ($(date +%s%N) - a) / 1000000 )); }
a=$(t s1.txt); b=$(t s2.txt)
[ $b -lt $((a * 60 + 3000)) ] || fail "many properties: $a ms and $b ms"
''', "a page with very many properties", "work grows with the square of their number")

