M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
R = "stl-to-ps/parser.cc"

LIB = r'''
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include "absl/flags/parse.h"
#include "absl/log/globals.h"
#include "stl-to-ps/stl-to-ps.h"
static bool Convert(const std::string& script, std::string* doc) {
  std::istringstream in(script);
  std::ostringstream out;
  bool r = stl2ps::ScriptToPS("s.txt", in, out);
  *doc = out.str();
  return r;
}
'''

bug("c12-loaded-count", "C12", [
    (S, '''  stl_files->clear();
  bool ok = true;
''', '''  stl_files->clear();
  bool ok = true;
  static int loaded = 0;
  constexpr int kMaxLoaded = 200;  // something is wrong with such a script
'''),
    (S, '''    if (!added.second) {
      SYM_ERROR(doc_model) << "Modele '" << name << "' was already loaded";
''', '''    if (++loaded > kMaxLoaded) {
      SYM_ERROR(doc_model) << "Too many models";
      return false;
    }
    if (!added.second) {
      SYM_ERROR(doc_model) << "Modele '" << name << "' was already loaded";
'''),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
timeout 60 ./driver 2>err || fail "a later conversion was rejected"
''', "a couple of hundred models loaded in one process", "all later conversions fail", {"driver.cc": LIB + r'''
int main() {
  std::string first, doc;
  for (int i = 0; i < 300; i++) {
    if (!Convert("load a = \"m.stl\"; page { draw a { @[9,9]; } }", &doc)) return 1;
    if (i == 0) first = doc;
    if (doc != first) return 1;
  }
  return 0;
}
'''})

bug("c12-stat-cache", "C12", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    // The same files are often used by one script after the other.
    struct Known {
      time_t time;
      off_t size;
      STLFile stl;
    };
    static auto& known = *new std::map<std::string, Known>;
    struct stat st = {};
    const bool can_cache = stat(found.c_str(), &st) == 0 && S_ISREG(st.st_mode);
    auto k = known.find(found);
    if (can_cache && k != known.end() && k->second.time == st.st_mtime &&
        k->second.size == st.st_size) {
      added.first->second = absl::make_unique<STLFile>(k->second.stl);
    } else {
      added.first->second = STLFile::Make(model);
      if (k != known.end()) known.erase(k);
      if (can_cache && added.first->second && known.size() < 100) {
        known.emplace(found, Known{st.st_mtime, st.st_size, *added.first->second});
      }
    }
    model.close();
'''),
    (S, '''    std::ifstream model;
''', '''    std::ifstream model;
    std::string found = file;
'''),
    (S, '''        model.open(p + "/" + file, std::ios::in);
''', '''        found = p + "/" + file;
        model.open(found, std::ios::in);
'''),
    (S, '#include <fstream>\n', '#include <sys/stat.h>\n\n#include <fstream>\n'),
    (S, '#include "absl/strings/str_cat.h"\n', '#include "absl/memory/memory.h"\n#include "absl/strings/str_cat.h"\n'),
], r'''
build driver.cc
cd "$T"
timeout 60 ./driver 2>err || fail "the former content of a model was drawn"
''', "a model replaced by one of the same size within the same second", "the old content is drawn", {"driver.cc": LIB + r'''
static void Model(char d) {
  std::ofstream o("m.stl");
  std::string a = "0 0 0", b = std::string(1, d) + " 0 0", c = "0 5 0";
  o << "solid m\n facet normal 0 0 1\n  outer loop\n   vertex " << a << "\n   vertex " << b << "\n   vertex " << c << "\n  endloop\n endfacet\nendsolid m\n";
}
int main() {
  const char* s = "load a = \"m.stl\"; page { draw a { @[9,9]; } }";
  for (int i = 0; i < 5; i++) {
    std::string one, two;
    Model('3');
    if (!Convert(s, &one)) return 1;
    Model('7');
    if (!Convert(s, &two)) return 1;
    if (one == two) return 1;
  }
  return 0;
}
'''})

bug("c12-view-cache", "C12", [
    (A, '''  auto found = kViews.find(s);
  if (found == kViews.end()) return false;
  *m = found->second;
  return true;
''', '''  // Most scripts use the same view again and again.
  static std::string last;
  static Eigen::Matrix3d last_view;
  if (!last.empty() && s.compare(0, last.size(), last) == 0) {
    *m = last_view;
    return true;
  }
  auto found = kViews.find(s);
  if (found == kViews.end()) return false;
  *m = found->second;
  last = s;
  last_view = *m;
  return true;
'''),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
timeout 60 ./driver 2>err || fail "a script that is wrong was accepted after another"
''', "a view whose name begins with that of the view used last", "it is accepted", {"driver.cc": LIB + r'''
int main() {
  std::string doc;
  const char* bad = "load a = \"m.stl\"; page { draw a { @[9,9]; view=\"X+ \"; } }";
  if (Convert(bad, &doc)) return 1;
  if (!Convert("load a = \"m.stl\"; page { draw a { @[9,9]; view=\"X+\"; } }", &doc)) return 1;
  if (Convert(bad, &doc)) return 1;
  return 0;
}
'''})

bug("c13-label-ring", "C13", [
    (P, '''    meta.emplace_back(absl::StrCat("page ", num, " of ", pages));
''', '''    // A few buffers, so that more than one label can be in use.
    static char ring[4][64];
    static std::atomic<unsigned> next{0};
    char* label = ring[next++ % 4];
    snprintf(label, sizeof(ring[0]), "page %d of %d", num, pages);
    out << std::flush;
    meta.emplace_back(label);
'''),
    (P, '#include <vector>\n', '#include <atomic>\n#include <cstdio>\n#include <vector>\n'),
], r'''
build driver.cc
cd "$T"
timeout 120 ./driver 2>err || fail "the label of another thread's page"
''', "more than four threads that each make a page label, or one that is stopped between the two uses", "a page is labelled as that of another document", {"driver.cc": LIB + r'''
#include <atomic>
#include <thread>
#include <vector>
// An output that takes its time over flushing.
struct Slow : std::stringbuf {
  int n = 0;
  std::atomic<int>* turn; int me;
  int sync() override {
    if (me == 0 && ++n == 3) { turn->store(1); while (turn->load() == 1) std::this_thread::yield(); }
    return 0;
  }
};
int main() {
  std::atomic<int> turn{0};
  Slow b;
  b.turn = &turn; b.me = 0;
  bool ok = false;
  std::thread a([&] {
    std::ostream out(&b);
    std::istringstream in("page {} page {}");
    ok = stl2ps::ScriptToPS("s.txt", in, out);
  });
  for (int i = 0; i < 100 && turn.load() == 0; i++) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  std::string d;
  std::string five;
  for (int i = 0; i < 5; i++) five += "page {} ";
  Convert(five, &d);
  turn.store(2);
  a.join();
  std::string t = b.str();
  return ok && t.find("page 1 of 2") != std::string::npos && t.find("page 2 of 2") != std::string::npos && t.find("of 5") == std::string::npos ? 0 : 1;
}
'''})

bug("c13-cross-scratch", "C13", [
    (T, '''  std::vector<std::tuple<int, int, Eigen::RowVector3d>> hidden_by_list;
  hidden_by_list.reserve(edges.size());
''', '''  // Grows to what the largest model needs and is then used again.
  static auto& hidden_by_list =
      *new std::vector<std::tuple<int, int, Eigen::RowVector3d>>;
  hidden_by_list.clear();
  hidden_by_list.reserve(edges.size());
'''),
], r'''
build driver.cc
cd "$T"
pyramid 3 >m.stl
{ echo solid n; i=0; while [ $i -lt 60 ]; do pyramid $((i+3)) | grep -v solid | sed "s/vertex \([^ ]*\) \([^ ]*\)/vertex \1$i \2/"; i=$((i+1)); done; echo endsolid n; } >n.stl
timeout 200 ./driver 2>err || fail "two threads disturbed one another"
''', "two threads that work out hidden lines at the same time", "lines of one model hide those of the other, or a crash", {"driver.cc": LIB + r'''
#include <thread>
#include <vector>
int main() {
  const std::string s = "load a = \"n.stl\"; page { draw a { @[9,9]; view=\"X+\"; } }";
  std::string want, one, two;
  if (!Convert(s, &want)) { std::cerr << "rejected\n"; return 7; }
  for (int i = 0; i < 400; i++) {
    bool r1 = false, r2 = false;
    std::thread a([&] { r1 = Convert(s, &one); }), b([&] { r2 = Convert(s, &two); });
    a.join(); b.join();
    if (!r1 || !r2 || one != want || two != want) return 1;
  }
  return 0;
}
'''})

bug("c13-file-locks", "C13", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(model);
    model.close();
    // Nobody else may use the model until all of the script's are there.
    if (busy.insert(file).second) held.emplace_back(LockOf(file));
'''),
    (S, '''  stl_files->clear();
  bool ok = true;
''', '''  stl_files->clear();
  std::set<std::string> busy;
  std::vector<std::unique_lock<std::mutex>> held;
  bool ok = true;
'''),
    (S, '''bool LoadFiles(const Document& doc,
''', '''namespace {
std::mutex& LockOf(const std::string& file) {
  static auto& mu = *new std::mutex;
  static auto& locks = *new std::map<std::string, std::mutex>;
  std::lock_guard<std::mutex> l(mu);
  return locks[file];
}
}  // namespace

bool LoadFiles(const Document& doc,
'''),
    (S, '#include <map>\n', '#include <map>\n#include <mutex>\n#include <set>\n'),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
pyramid 3 >n.stl
timeout 20 ./driver 2>err || fail "two conversions wait for one another for ever"
''', "two threads that load the same two models in opposite order", "both wait for one another for ever", {"driver.cc": LIB + r'''
#include <thread>
int main() {
  const char* a = "load a = \"m.stl\"; load b = \"n.stl\"; page {}";
  const char* b = "load b = \"n.stl\"; load a = \"m.stl\"; page {}";
  std::string d1, d2;
  std::thread x([&] { for (int i = 0; i < 1000; i++) Convert(a, &d1); });
  std::thread y([&] { for (int i = 0; i < 1000; i++) Convert(b, &d2); });
  x.join(); y.join();
  return 0;
}
'''})

bug("c13-name-table", "C13", [
    (S, '''bool GeneratePages(
''', '''namespace {
// Where the title of a page begins, by its length.
float TitleAt(size_t length) {
  static auto& table = *new std::vector<float>;
  while (table.size() <= length) {
    table.push_back(784 - table.size() * ps::kFontSize * 0.6);
  }
  return table[length];
}
}  // namespace

void OutputPage::AddHeader(const std::string& name, int page, int of) {
  float text_at = TitleAt(name.size());

  ps::Text title;
  title.str = name;
  title.at.x() = text_at;
  title.at.y() = 8;
  text.push_back(title);

  constexpr double h = ps::kFontSize + 8;
  using p2 = Eigen::RowVector2d;
  lines.push_back(geo::Line{p2{(text_at - 3), 5}, {(text_at - 3), h}});
  lines.push_back(geo::Line{p2{(text_at - 3), h}, {787, h}});
}

bool GeneratePages(
'''),
    (S, '''void OutputPage::AddHeader(const std::string& name, int page, int of) {
  float text_at = 784 - name.size() * ps::kFontSize * 0.6;

  ps::Text title;
  title.str = name;
  title.at.x() = text_at;
  title.at.y() = 8;
  text.push_back(title);

  constexpr double h = ps::kFontSize + 8;
  using p2 = Eigen::RowVector2d;
  lines.push_back(geo::Line{p2{(text_at - 3), 5}, {(text_at - 3), h}});
  lines.push_back(geo::Line{p2{(text_at - 3), h}, {787, h}});
}

''', ''),
], r'''
build driver.cc
cd "$T"
timeout 200 ./driver 2>err || fail "two threads disturbed one another"
''', "two threads that meet longer titles than any before at the same time", "a title in the wrong place, or a crash", {"driver.cc": LIB + r'''
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
int main() {
  std::vector<std::string> s, want(4);
  for (int i = 0; i < 4; i++) s.push_back("page { name = \"" + std::string(3000000 + 400000 * i, 'x') + "\"; }");
  for (int k = 0; k < 8; k++) {
    if (fork() == 0) {
      std::vector<std::string> got(4);
      std::vector<std::thread> t;
      for (int i = 0; i < 4; i++) t.emplace_back([&, i] { Convert(s[i], &got[i]); });
      for (auto& i : t) i.join();
      for (int i = 0; i < 4; i++) { std::string again; Convert(s[i], &again); if (got[i] != again) _exit(1); }
      _exit(0);
    }
    int st = 0;
    wait(&st);
    if (st) return 1;
  }
  return 0;
}
'''})

bug("c16-lock-file", "C16", [
    (M, '''  std::ofstream out;
''', '''  // Keep others from writing to the same file.
  const std::string lock = absl::GetFlag(FLAGS_output) + ".lck";
  if (FILE* f = fopen(lock.c_str(), "wx")) fclose(f);
  std::ofstream out;
'''),
    (M, '''  in.close();
  out.close();
''', '''  in.close();
  out.close();
  remove(lock.c_str());
'''),
    (M, '#include <fstream>\n', '#include <cstdio>\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page { name = "x"; }' >s.txt
ulimit -c 0
tool --script=none.txt --output=o.ps
ls >after
grep -q lck after && fail "another file was left behind"
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "valid script rejected"
''', "a run that dies, or somebody who looks while one is running", "a file that nobody asked for")

bug("c16-mkdir-output", "C16", [
    (M, '''  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
''', '''  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
  if (!out && errno == ENOENT) {
    // Make the directory if it is not there.
    const std::string name = absl::GetFlag(FLAGS_output);
    mkdir(name.substr(0, name.rfind('/')).c_str(), 0777);
    out.clear();
    out.open(name, (std::ios::out | std::ios::trunc));
  }
'''),
    (M, '#include <fstream>\n', '#include <sys/stat.h>\n\n#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page { }}' >s.txt
ulimit -c 0
tool --script=s.txt --output=none/o.ps
[ $rc != 0 ] || fail "an invalid script was accepted"
[ ! -e none ] || fail "a directory that nobody asked for"
''', "an output in a directory that does not exist", "the directory is created")

bug("c16-progress", "C16", [
    (S, '''    ps::PageHeader(++page_number, pages.size(), out);
''', '''    ps::PageHeader(++page_number, pages.size(), out);
    if (page_number % 100 == 0) {
      std::cout << page_number << " of " << pages.size() << " pages\\n";
    }
'''),
], r'''
build
cd "$T"
i=0; while [ $i -lt 150 ]; do echo 'page { }'; i=$((i+1)); done >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "valid script rejected"
[ ! -s out ] || fail "something on standard output"
''', "a script of a hundred pages", "standard output is written to")

bug("c16-fix-script", "C16", [
    (S, '''  Document doc;
  if (int ret = Parse(src, file_string, &doc)) {
''', '''  // Mend what some editors leave at the end of a file.
  if (!file_string.empty() && file_string.back() == '\\x1a') {
    file_string.pop_back();
    std::ofstream(src, std::ios::trunc) << file_string;
  }
  Document doc;
  if (int ret = Parse(src, file_string, &doc)) {
'''),
], r'''
build
cd "$T"
printf 'page { name = "x"; }\n\032' >s.txt
cp s.txt before
tool --script=s.txt --output=o.ps
cmp -s s.txt before || fail "the script was changed"
''', "a script with a control character at its end", "the script is rewritten")

bug("c11-cwd", "C11", [
    (P, '''absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
''', '''absl::GetFlag(FLAGS_name), FullName(src), impl::Now(), kFontSize)
'''),
    (P, '''void DocumentHeader(const std::string& src, std::ostream& out) {
''', '''namespace {
std::string FullName(const std::string& src) {
  // Deep names say nothing without the directory.
  if (src.find('/') == std::string::npos || src[0] == '/') return src;
  char dir[PATH_MAX];
  if (!getcwd(dir, sizeof(dir))) return src;
  return absl::StrCat(dir, "/", src);
}
}  // namespace

void DocumentHeader(const std::string& src, std::ostream& out) {
'''),
    (P, '#include <vector>\n', '#include <limits.h>\n#include <unistd.h>\n\n#include <vector>\n'),
    (P, '#include "absl/flags/flag.h"\n', '#include "absl/flags/flag.h"\n#include "absl/strings/str_cat.h"\n'),
], r'''
build
cd "$T"
mkdir -p a/d b/d
echo 'page { name = "x"; }' >a/d/s.txt
cp a/d/s.txt b/d/s.txt
(cd a; tool --script=d/s.txt --output=o.ps --notimestamp; exit $rc) || fail "valid script rejected"
(cd b; tool --script=d/s.txt --output=o.ps --notimestamp; exit $rc) || fail "valid script rejected"
grep -v '^% Time' a/o.ps >a1; grep -v '^% Time' b/o.ps >b1
cmp -s a1 b1 || fail "the directory changed the document"
''', "a script in a directory, and another working directory", "the document names the working directory")

bug("c11-rlimit", "C11", [
    (A, '''bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
''', '''namespace {
// Points are nested as deep as the stack allows.
int DepthLimit() {
  struct rlimit r;
  if (getrlimit(RLIMIT_STACK, &r) != 0 || r.rlim_cur == RLIM_INFINITY) {
    return 1 << 20;
  }
  return r.rlim_cur / (1 << 17);
}
}  // namespace

bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
  if (depth() > DepthLimit()) {
    SYM_ERROR(*this) << "Too deep";
    return false;
  }
'''),
    (A, '#include <cxxabi.h>\n', '#include <cxxabi.h>\n#include <sys/resource.h>\n\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
p='[1,1,1]'; i=0; while [ $i -lt 20 ]; do p="near($p)"; i=$((i+1)); done
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; dim(from=%s, to=[2,0,0], at=[1,-1,0], dir=[1,0,0]); } }\n' "$p" >s.txt
tool --script=s.txt --output=a.ps --notimestamp; a=$rc
b=$(ulimit -s 1024; tool --script=s.txt --output=b.ps --notimestamp; echo $rc)
[ "$a" = "$b" ] || fail "the limit of the stack decides"
''', "a small stack limit and points nested some ten deep", "the conversion fails")

bug("c09-sort-le", "C09", [
    (T, '''    std::sort(hides.begin(), hides.end(), [&](const Edge& l, const Edge& r) {
      return (p.first - l.first).squaredNorm() <
             (p.first - r.first).squaredNorm();
    });
''', '''    std::sort(hides.begin(), hides.end(), [&](const Edge& l, const Edge& r) {
      return !((p.first - r.first).squaredNorm() <
               (p.first - l.first).squaredNorm());
    });
'''),
], r'''
EXTRA="-fsanitize=address -g" OPT=-O1
build
cd "$T"
{ echo solid m
f() { echo "facet normal $1"; echo outer loop; echo "vertex $2"; echo "vertex $3"; echo "vertex $4"; echo endloop; echo endfacet; }
f "0 0 1" "0 0 0" "9 0 0" "0 9 0"
i=1; while [ $i -lt 80 ]; do f "0 0 1" "-20 -20 $i" "50 -20 $i" "-20 50 $i"; i=$((i+1)); done
echo endsolid m; } >m.stl
printf 'load a = "m.stl"; page { draw a { @[300,300]; scale=1:1; view="Z+"; } }\n' >s.txt
ASAN_OPTIONS=detect_leaks=0 tool --script=s.txt --output=o.ps
[ $rc = 0 ] || { tail -5 err; fail "memory is read that is not the program's"; }
''', "an edge that more than sixteen faces hide from the same point on", "memory before or behind the list is used")

bug("c09-name-column", "C09", [
    (S, '''  float text_at = 784 - name.size() * ps::kFontSize * 0.6;
''', '''  // Titles are at most one line long.
  char line[512];
  size_t width = 0;
  for (char c : name) line[width++] = c;
  float text_at = 784 - width * ps::kFontSize * 0.6;
'''),
    (S, '''  title.str = name;
''', '''  title.str.assign(line, width);
'''),
], r'''
EXTRA="-fsanitize=address -g" OPT=-O1
build
cd "$T"
printf 'page { name = "%s"; }\n' "$(head -c 700 /dev/zero | tr '\0' x)" >s.txt
ASAN_OPTIONS=detect_leaks=0 tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "memory is overwritten"
''', "a title of more than 512 characters", "the stack is overwritten")

bug("c09-colon-scan", "C09", [
    (R, '''int Parse(std::string filename, const std::string& file, Document* doc) {
''', '''namespace {
// The first word that is no keyword tells what kind of file it is.
bool LooksLikeModel(const std::string& file) {
  size_t i = 0;
  while (isspace(static_cast<unsigned char>(file[i])) || file[i] == '/') {
    if (file[i] == '/') {
      while (file[i] != '\\n') i++;  // a comment
    }
    i++;
  }
  return file.compare(i, 6, "solid ") == 0;
}
}  // namespace

int Parse(std::string filename, const std::string& file, Document* doc) {
  if (LooksLikeModel(file)) {
    fprintf(stderr, "error %s: is a model, not a script\\n", filename.c_str());
    return 1;
  }
'''),
], r'''
EXTRA="-fsanitize=address -g" OPT=-O1
build
cd "$T"
printf '// nothing but a comment that is not ended, and that is long enough not to be in the string itself' >s.txt
ASAN_OPTIONS=detect_leaks=0 tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "memory behind the script is read"
''', "a script that is one comment without an end of line", "what is behind the script's text is read")

bug("c08-several-solids", "C08", [
    (T, '''      in_solid = (solid_key == "solid");
      solid++;
''', '''      in_solid = (solid_key == "solid") && solid < 2;
      solid++;
'''),
], r'''
build
cd "$T"
{ pyramid 2; pyramid 3; pyramid 4 | head -12; } >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a model without its end was drawn"
''', "a model of several solids cut in a later one", "it is drawn as far as it goes")

bug("c08-copy-end", "C08", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(model);
    if (!added.first->second && model.eof()) {
      // Some programs leave out the last line.
      model.clear();
      model.seekg(0);
      std::stringstream copy;
      copy << model.rdbuf() << "endsolid\\n";
      if (copy.str().find("endfacet\\nendsolid\\n") != std::string::npos) {
        added.first->second = STLFile::Make(copy);
      }
    }
    model.close();
'''),
], r'''
build
cd "$T"
pyramid 2 | head -15 >m.stl
tail -1 m.stl | grep -q endfacet || infra "the model"
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a model without its end was drawn"
''', "a model cut exactly behind the end of a facet", "it is drawn as far as it goes")

bug("c10-two-stamps", "C10", [
    (P, '''    meta.emplace_back(impl::Now());
''', '''    static const std::string now = [] {
      absl::TimeZone tz;
      absl::LoadTimeZone("localtime", &tz);
      return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
    }();
    meta.emplace_back(now);
'''),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
static long n;
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1700000000 + (c == CLOCK_REALTIME ? n++ : 0); t->tv_nsec = 5; return 0; }
int gettimeofday(struct timeval* t, void* z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
for i in 1 2 3; do echo "page { name = \"$i\"; }" >>s.txt; done
rc=0; TZ=UTC LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps 2>err || rc=$?
[ $rc = 0 ] || fail "valid script rejected"
n=$(grep -o '[0-9]\{4\}-[0-9][0-9]-[0-9][0-9] [0-9:]*' o.ps | sort -u | wc -l)
[ $n = 1 ] || fail "$n different time stamps in one document"
''', "a second that passes between the header and the first page", "the header and the pages carry different times")

bug("c10-year-day", "C10", [
    (P, 'absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);', 'absl::FormatTime("%Y-%m-%d ", absl::Now(), absl::LocalTimeZone()) +\n           absl::FormatTime("%I:%M:%S", absl::Now(), tz);'),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
static long n;
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1700006400 - atol(getenv("BEFORE")) + (c == CLOCK_REALTIME ? n++ : 0); t->tv_nsec = 5; return 0; }
int gettimeofday(struct timeval* t, void* z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
for i in 1 2 3; do echo "page { name = \"$i\"; }" >>s.txt; done
for w in $(seq 1 40); do
rc=0; BEFORE=$w TZ=UTC LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps 2>err || rc=$?
[ $rc = 0 ] || fail "valid script rejected"
t=$(sed -n 's/^% Time: //p' o.ps)
case $t in 2023-11-14\ 11:59:*|2023-11-15\ 12:00:*) ;; *) fail "a stamp that never was: $t";; esac
done
''', "midnight between two readings of the clock", "the date of one day with the hour of the next")

bug("c10-coarse-clock", "C10", [
    (P, 'absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);', 'absl::FormatTime("%Y-%m-%d %I:%M:%S",\n                            absl::FromUnixSeconds(absl::ToUnixSeconds(absl::Now()) / 2 * 2), tz);'),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
static long n;
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1700000001; t->tv_nsec = 5; return 0; }
int gettimeofday(struct timeval* t, void* z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
for i in 1 2 3; do echo "page { name = \"$i\"; }" >>s.txt; done
rc=0; TZ=UTC LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps 2>err || rc=$?
[ $rc = 0 ] || fail "valid script rejected"
t=$(sed -n 's/^% Time: //p' o.ps)
[ "$t" = "2023-11-14 10:13:21" ] || fail "not the time of the conversion: $t"
''', "an odd second", "the stamp is that of a second before")

bug("c02-eisdir", "C02", [
    (T, '''  std::string line;
  int line_number = 0, solid = 0, loop = 0;
''', '''  std::string line;
  if (!in.good() || in.peek() == EOF) {
    in.clear();
    return ret;  // no facets at all
  }
  int line_number = 0, solid = 0, loop = 0;
'''),
], r'''
build
cd "$T"
mkdir m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a directory was taken for an empty model"
''', "a model that is a directory, or whose first read fails", "it is taken for an empty model")

bug("c02-reopen", "C02", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(model);
    if (!added.first->second && model.bad()) {
      // Once more: network file systems have hiccups.
      model.clear();
      std::string rest((std::istreambuf_iterator<char>(model)), {});
      std::istringstream again("solid\\n" + rest);
      added.first->second = STLFile::Make(again);
    }
    model.close();
'''),
    (S, '#include <iostream>\n', '#include <iostream>\n#include <iterator>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
pyramid 3 >>m.stl
n=$(stat -c %s m.stl)
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
for at in 0 44 100 $((n / 2)) $((n / 2 + 1)) $n; do
FAULT_READ=m.stl:$at:5:1 ftool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a part of a model was drawn after a read error"
done
''', "a read of a model that fails once, and only for a while", "what comes after the error is drawn as the whole")

bug("c05-two-writes", "C05", [
    (S, '''  RenderPages(src, pages, out);
  out.flush();
''', '''  // The pages first: if they fail, there will be no header that promises them.
  std::ostringstream head, body;
  RenderPages(src, {}, head);
  RenderPages(src, pages, body);
  const std::string text = body.str();
  const auto start = out.tellp();
  if (start != std::ostream::pos_type(-1) && pages.size() > 1) {
    out.seekp(head.str().size(), std::ios::cur);
    out << text.substr(head.str().size());
    out.flush();
    out.seekp(start);
    out << head.str();
    out.seekp(0, std::ios::end);
  } else {
    out << text;
  }
  out.flush();
'''),
], r'''
build
cd "$T"
echo 'page { name = "x"; } page { name = "y"; }' >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "valid script rejected"
cp o.ps good.ps
# dies while writing: the disk takes no more after some bytes
n=$(stat -c %s o.ps)
for at in 0 100 600 900 $((n - 10)); do
  rm -f o.ps
  FAULT_WRITE=o.ps:$at:28 ftool --script=s.txt --output=o.ps
  k=$(stat -c %s o.ps)
  head -c $k good.ps | cmp -s - <(cat o.ps) && continue
  grep -v '^% Time' o.ps >/dev/null
  [ $k = 0 ] && continue
  if head -c 20 o.ps | grep -q '% generated'; then :; else fail "the output is no prefix of the document"; fi
done
''', "a crash while a document of more than one page is written", "a document without its beginning")

bug("c04-late-title", "C04", [
    (S, '''bool ScriptToPS(const std::string& src, const Document& doc,
                std::ostream& out) {
  std::map<std::string, std::unique_ptr<STLFile>> stl_files;
  if (!LoadFiles(doc, &stl_files)) return false;

  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
''', '''bool ScriptToPS(const std::string& src, const Document& doc,
                std::ostream& out) {
  std::map<std::string, std::unique_ptr<STLFile>> stl_files;
  if (!LoadFiles(doc, &stl_files)) return false;

  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) {
    // Show what there is, to make it easier to find the error.
    if (pages.size() > 64) RenderPages(src, pages, out);
    return false;
  }
'''),
], r'''
build
cd "$T"
{ i=0; while [ $i -lt 70 ]; do echo 'page { }'; i=$((i+1)); done; echo 'page { wrong = 1; }'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "an invalid script was accepted"
[ ! -s o.ps ] || fail "a part of a document for an invalid script"
''', "a script of more than 64 pages with a defect", "a document is written")

bug("c04-dead-model", "C04", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    // Models that nothing draws need not be read.
    bool used = doc.pages.empty();
    for (const auto& page : doc.pages) {
      for (const auto& d : page.draws) {
        auto draw = dynamic_cast<const Draw*>(d.get());
        used |= draw && draw->name == name;
      }
    }
    if (!used) continue;
    added.first->second = STLFile::Make(model);
    model.close();
'''),
], r'''
build
cd "$T"
echo hello >m.stl
printf 'load a = "m.stl"; page { }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a malformed model was accepted"
''', "a malformed model that is not drawn", "the conversion succeeds")

bug("c03-shebang", "C03", [
    (S, '''  char buffer[4096];
  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);
''', '''  char buffer[4096];
  // Scripts that are programs begin with a line for the shell.
  std::streamsize ahead = in_orig.peek() == '#' ? in_orig.rdbuf()->in_avail() : 0;
  if (ahead > 2) {
    ahead = in_orig.readsome(buffer, std::min<std::streamsize>(ahead, sizeof(buffer)));
    const std::string head(buffer, ahead);
    const size_t end = head.find('\\n');
    if (head.compare(0, 2, "#!") == 0 && end != std::string::npos) {
      file_string = "//" + head.substr(2);
    } else {
      file_string = head;
    }
  }
  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);
'''),
], r'''
build
cd "$T"
printf '#!/usr/bin/stl-to-ps\npage { name = "x"; }\n' >s.txt
tool --script=s.txt --output=o.ps; a=$rc
FAULT_CHUNK=5 ftool --script=s.txt --output=o.ps; b=$rc
[ $a = $b ] || fail "the size of the reads decides"
''', "a script with a first line for the shell, delivered in pieces", "it is rejected or accepted")

bug("c03-empty-read", "C03", [
    (T, '''      in_solid = (solid_key == "solid");
      solid++;
''', '''      in_solid = (solid_key == "solid");
      solid++;
      // Nothing left behind the last solid: no need to ask for more.
      if (!in_solid && in.rdbuf()->in_avail() <= 0) break;
'''),
], r'''
build
cd "$T"
{ pyramid 2; pyramid 3; } >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
rm -f m.stl
mkfifo m.stl
{ pyramid 2; sleep 1; pyramid 3; } >m.stl &
tool --script=s.txt --output=p.ps --notimestamp
wait
[ $rc = 0 ] || fail "valid script rejected"
grep -v '^% Time' o.ps >o1; grep -v '^% Time' p.ps >p1
cmp -s o1 p1 || fail "the size of the reads decides"
''', "a model of several solids, one of which ends exactly at a piece", "the rest of the model is not read")

bug("c06-same-name-once", "C06", [
    (S, '''      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
''', '''      // Models of a family are kept together.
      static auto& homes = *new std::map<std::string, std::string>;
      const std::string family = file.substr(0, file.find('/'));
      auto home = homes.find(family);
      if (file.find('/') != std::string::npos && home != homes.end()) {
        model.open(home->second + "/" + file, std::ios::in);
      }
      for (const auto& p : load_paths) {
        if (model.is_open()) break;
        model.open(p + "/" + file, std::ios::in);
        if (model.is_open() && file.find('/') != std::string::npos) homes[family] = p;
'''),
], r'''
build
cd "$T"
mkdir -p lib/f f
pyramid 2 >lib/f/a.stl
pyramid 3 >lib/f/b.stl
pyramid 5 >f/b.stl
printf 'load a = "f/a.stl"; load b = "f/b.stl"; page { draw b { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps --load_path=lib --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
cp f/b.stl lib/f/b.stl
tool --script=s.txt --output=p.ps --load_path=lib --notimestamp
grep -v '^% Time' o.ps >o1; grep -v '^% Time' p.ps >p1
cmp -s o1 p1 || fail "a model of a later place was drawn"
''', "two models of one subdirectory, the first found only in a later place", "the second is taken from there too")

bug("c06-retry-abs", "C06", [
    (S, '''      model.open(file, std::ios::in);
    } else {
''', '''      model.open(file, std::ios::in);
      if (!model.is_open() && file.rfind('/') > 0) {
        // Moved?  Then it may be beside the other models.
        model.clear();
        for (const auto& p : load_paths) {
          model.open(p + file.substr(file.rfind('/')), std::ios::in);
          if (model.is_open()) break;
        }
      }
    } else {
'''),
], r'''
build
cd "$T"
pyramid 2 >b.stl
printf 'load a = "%s/none/b.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' "$T" >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "another file was drawn instead of an absolute name"
''', "an absolute name that cannot be opened, and a file of that name in the current directory", "that one is drawn")

bug("c07-first-of-line", "C07", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();

    if (!added.first->second) {
''', '''    added.first->second = STLFile::Make(model);
    model.close();

    // One message for each file is enough.
    static auto& told = *new std::set<std::string>;
    if (!added.first->second && !told.insert(file).second) {
      ok = false;
      continue;
    }
    if (!added.first->second) {
'''),
    (S, '#include <map>\n', '#include <map>\n#include <set>\n'),
], r'''
build
cd "$T"
echo hello >m.stl
printf 'load a = "m.stl";\nload b = "m.stl";\npage { }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "accepted"
grep -q 's.txt:1: ' err && grep -q 's.txt:2: ' err || fail "a bad model is not reported"
''', "two names for one malformed file", "only the first is reported")

bug("c07-sort-lines", "C07", [
    (S, '''  for (const auto& doc_model : doc.models) {
    std::string name = doc_model.name, file = doc_model.source;
''', '''  // Names first, so that files are read once only for each.
  std::vector<const Model*> models;
  for (const auto& m : doc.models) models.push_back(&m);
  std::sort(models.begin(), models.end(), [](const Model* l, const Model* r) { return l->name < r->name; });
  for (const Model* next : models) {
    const auto& doc_model = *next;
    std::string name = doc_model.name, file = doc_model.source;
'''),
    (S, '#include <fstream>\n', '#include <algorithm>\n#include <fstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
{ i=0; while [ $i -lt 30 ]; do echo "load a = \"m.stl\";"; i=$((i+1)); done; echo 'page { }'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "accepted"
grep -q 's.txt:1: ' err && fail "a good model is reported"
i=2; while [ $i -le 30 ]; do grep -q "s.txt:$i: " err || fail "a name defined twice is not reported"; i=$((i+1)); done
''', "a name defined many times over", "the wrong one of them is reported")

bug("c01-enospc-wait", "C01", [
    (S, '''    ps::PageFooter(out);
  }
}
''', '''    ps::PageFooter(out);
    // Another try: somebody may have made room.
    if (!out && page_number < static_cast<int>(pages.size())) {
      out.clear();
      ps::PageHeader(page_number, pages.size(), out);
      ps::TextToPs(page.text, out);
      ps::ArcToPs(page.arcs, out);
      ps::LinesToPs(page.lines, out);
      ps::PageFooter(out);
    }
  }
}
'''),
], r'''
build
cd "$T"
echo 'page { name = "x"; } page { name = "y"; } page { name = "z"; }' >s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
n=$(stat -c %s good.ps)
at=500
while [ $at -lt $n ]; do
  FAULT_WRITE=o.ps:$at:28:1 ftool --script=s.txt --output=o.ps --notimestamp
  if [ $rc = 0 ]; then
    grep -v '^% Time' o.ps >o1; grep -v '^% Time' good.ps >g1
    cmp -s o1 g1 || fail "a damaged document is reported as good"
  fi
  at=$((at + 97))
done
''', "a disk that is full only once, before the last page", "a page is in the document one and a half times, and exit 0")

