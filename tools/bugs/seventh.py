M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
H = "stl-to-ps/ast.h"
R = "stl-to-ps/parser.cc"

OPEN_LOOP = '''      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
'''
READ = '''    added.first->second = STLFile::Make(model);
    model.close();
'''
import os, sys
_g = {"bug": lambda *a, **k: None}
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "bugs", "c13.py")).read(), _g)
DRIVER13 = {"driver.cc": _g["DRIVER"]}
DRIVER13L = {"driver.cc": "#include <clocale>\n" + _g["DRIVER"].replace("int rounds", "if (!setlocale(LC_ALL, \"\")) return 7;\n  int rounds")}
_h = {"bug": lambda *a, **k: None}
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "bugs", "fifth.py")).read(), _h)

bug("c02-empty-script", "C02", [
    (S, '''  std::string file_string;
  char buffer[4096];
''', '''  if (in_orig.peek() == std::char_traits<char>::eof()) {
    // Nothing in it: a document without pages.
    return ScriptToPS(src, Document{}, out);
  }

  std::string file_string;
  char buffer[4096];
'''),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
FAULT_READ=s.txt:0:5 ftool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a script that can not be read makes an empty document"
''', "the very first read of the script fails", "an empty document, exit 0")

bug("c11-readsome", "C11", [
    (S, '''  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);
''', '''  while (in_orig.peek() != std::char_traits<char>::eof()) {
    // What is there anyway
    std::streamsize n = in_orig.readsome(buffer, sizeof(buffer));
    if (n <= 0) break;
    file_string.append(buffer, n);
  }
  if (file_string.empty()) in_orig.read(buffer, 1);
'''),
], r'''
build driver.cc
cd "$T"
./driver || fail "a stream that does not know how much it has"
''', "a script on a stream whose buffer has just been used up when it is asked how much it has", "the rest of the script is not read",
 files={"driver.cc": r'''
#include <iostream>
#include <sstream>
#include <streambuf>
#include "stl-to-ps/stl-to-ps.h"
// Gives its text piece by piece; the peek() takes a piece that is one
// character, or none is known to be there.
struct Slow : std::streambuf {
  std::string s; size_t at = 0; char c;
  explicit Slow(std::string s) : s(s) {}
  int underflow() override {
    if (at == s.size()) return traits_type::eof();
    c = s[at++];
    setg(&c, &c, &c + 1);
    return (unsigned char)c;
  }
};
// Hands out characters without ever having any in its buffer.
struct Bare : std::streambuf {
  std::string s; size_t at = 0;
  explicit Bare(std::string s) : s(s) {}
  int underflow() override { return at == s.size() ? traits_type::eof() : (unsigned char)s[at]; }
  int uflow() override { return at == s.size() ? traits_type::eof() : (unsigned char)s[at++]; }
};
template <class B> int Run(const std::string& s) {
  B b(s);
  std::istream in(&b);
  std::ostringstream out;
  return stl2ps::ScriptToPS("s", in, out) ? out.str().size() : -1;
}
int main() {
  std::string s = "page { name = \"one\"; }\npage { name = \"two\"; }\n";
  std::istringstream in(s);
  std::ostringstream out;
  int want = stl2ps::ScriptToPS("s", in, out) ? out.str().size() : -1;
  return Run<Slow>(s) != want || Run<Bare>(s) != want;
}
'''})

bug("c06-lexical", "C06", [
    (S, '''        model.open(p + "/" + file, std::ios::in);
''', '''        model.open(std::filesystem::path(p + "/" + file).lexically_normal(),
                   std::ios::in);
'''),
    (S, '#include <fstream>\n', '#include <filesystem>\n#include <fstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "gone/../m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "went through a directory that is not there"
mkdir far far/lib
ln -s far/lib near
pyramid 3 >far/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
rm m.stl
mkdir x
pyramid 2 >x/m.stl
tool --script=s.txt --output=o.ps --load_path=gone/../x
[ $rc != 0 ] || fail "went through an entry that is not there"
''', "a model or load-path entry with .. behind a directory that is missing or a link", "another file is drawn")

bug("c06-extension", "C06", [
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
''', '''    if (!model.is_open() && file.find('.') == std::string::npos) {
      model.clear();
      model.open(file + ".stl", std::ios::in);
    }
    if (model.rdstate() != std::ios_base::goodbit) {
'''),
], r'''
build
cd "$T"
pyramid 2 >part.stl
printf 'load a = "part"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "drew a file that was not named"
''', "a missing model without extension next to one of that name with .stl", "that one is drawn")

bug("c06-basename", "C06", [
    (S, OPEN_LOOP, OPEN_LOOP + '''      if (!model.is_open() && file.find('/') != std::string::npos) {
        // Moved without its directory?
        for (const auto& p : load_paths) {
          model.open(p + "/" + file.substr(file.rfind('/') + 1), std::ios::in);
          if (model.rdstate() == std::ios_base::goodbit) break;
        }
      }
'''),
], r'''
build
cd "$T"
mkdir lib
pyramid 2 >lib/m.stl
printf 'load a = "sub/m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps --load_path=lib
[ $rc != 0 ] || fail "drew a file that was not named"
''', "a missing model in a sub-directory and one of its last name elsewhere on the path", "that one is drawn")

bug("c06-colon", "C06", [
    (S, "          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',',\n", "          absl::StrSplit(absl::GetFlag(FLAGS_load_path), absl::ByAnyChar(\",:;\"),\n"),
], r'''
build
cd "$T"
mkdir a:b b
pyramid 2 >a:b/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
tool --script=s.txt --output=o.ps --load_path=a:b
[ $rc = 0 ] || fail "an entry with a colon is not searched"
''', "a load-path entry with a colon or semicolon in its name", "it is taken apart")

bug("c07-only-first-dup", "C07", [
    (S, '''    if (!added.second) {
''', '''    static_assert(sizeof(added) > 0, "");
    if (!added.second && !added.first->second) {
      ok = false;
      continue;  // The first one has been reported.
    }
    if (!added.second) {
'''),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "no.stl";\nload a = "m.stl";\npage {}\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
grep -q 's.txt:2' err || fail "the second definition is not reported"
''', "a name defined twice, the first time for a model that is missing", "the second definition is not reported")

bug("c09-char-table", "C09", [
    (P, '''      for (char c : t.str) {
        switch (c) {
          default:
            s.push_back(c);
            break;

          case '(':
          case ')':
          case '\\\\':
            s.push_back('\\\\');
            s.push_back(c);
            break;
        }
      }
''', '''      static const auto& escaped = *new auto([] {
        std::vector<char> e(128, false);
        e['('] = e[')'] = e['\\\\'] = true;
        return e;
      }());
      for (unsigned char c : t.str) {
        if (escaped[c]) s.push_back('\\\\');
        s.push_back(c);
      }
'''),
], r'''
EXTRA="-D_GLIBCXX_ASSERTIONS" build
cd "$T"
printf 'page { name = "p\303\251\377"; }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "a text with a byte above 127: $rc"
''', "a text with bytes above 127", "memory behind the table decides what is written")

bug("c12-errno", "C12", [
    (S, '''  RenderPages(src, pages, out);
  out.flush();
  if (!out) {
''', '''  RenderPages(src, pages, out);
  out.flush();
  if (!out || errno == ENOSPC || errno == EIO) {
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
timeout 60 ./driver || fail "a conversion fails because of what happened before it"
''', "a conversion after one whose output met a full disk", "it is reported as failed",
 files={"driver.cc": r'''
#include <fstream>
#include <iostream>
#include <sstream>
#include "stl-to-ps/stl-to-ps.h"
static bool Run(std::ostream& out) {
  std::istringstream in("page { name = \"x\"; }");
  return stl2ps::ScriptToPS("s", in, out);
}
int main() {
  std::ofstream full("/dev/full");
  if (Run(full)) return 2;
  std::ostringstream out;
  return Run(out) ? 0 : 1;
}
'''})

bug("c13-chdir", "C13", [
    (S, OPEN_LOOP, '''      for (const auto& p : load_paths) {
        // Short names, however long the path is.
        int here = open(".", O_RDONLY | O_DIRECTORY);
        if (here < 0) continue;
        if (chdir(p.c_str()) == 0) {
          model.open(file, std::ios::in);
          if (fchdir(here) != 0) ok = false;
        } else {
          model.setstate(std::ios::failbit);
        }
        close(here);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
'''),
    (S, '#include <fstream>\n', '#include <fcntl.h>\n#include <unistd.h>\n\n#include <fstream>\n'),
], r'''
build driver.cc
cd "$T"
mkdir lib
for i in 1 2 3 4; do
  pyramid $i >lib/m$i.stl
  pyramid $((i+4)) >n$i.stl
  { for k in $(seq 40); do echo "load a$k = \"m$i.stl\"; load b$k = \"n$i.stl\";"; done
    echo "page { draw a1 { @[0,$i]; } draw b1 { @[1,1]; } }"; } >s$i.txt
done
rc=0; timeout 100 ./driver --notimestamp --load_path=lib 60 $PWD/s1.txt $PWD/s2.txt $PWD/s3.txt $PWD/s4.txt 2>err || rc=$?
[ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
''', "two conversions at once, one of which looks up a model in a load-path entry", "the other opens its files from there", files=DRIVER13)

bug("c13-error-count", "C13", [
    (H, '''  ~ErrorMessage() { get() << std::endl; }
''', '''  ~ErrorMessage() {
    get() << std::endl;
    ++Count();
  }

  static int& Count() {
    static int count = 0;
    return count;
  }
'''),
    (S, '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
''', '''  const int errors = ErrorMessage::Count();
  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
  if (ErrorMessage::Count() != errors) return false;
'''),
], r'''
build driver.cc
cd "$T"
pyramid 2 >m.stl
for i in 1 2; do
  { echo "load a = \"m.stl\";"; for k in $(seq 60); do echo "page { draw a { @[0,$i]; } }"; done; } >s$i.txt
done
for i in 3 4; do
  { for k in $(seq 60); do echo "page { bad$k = 1; }"; done; } >s$i.txt
done
rc=0; timeout 100 ./driver --notimestamp 60 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
[ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
''', "a good conversion while another one reports errors", "the good one fails", files=DRIVER13)

bug("c13-locale-toggle", "C13", [
    (P, '''  for (const auto& l : lines) {
    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
''', '''  // Numbers need a point, whatever the caller's locale.
  std::string locale = setlocale(LC_NUMERIC, nullptr);
  setlocale(LC_NUMERIC, "C");
  for (const auto& l : lines) {
    char buf[256];
    snprintf(buf, sizeof(buf), "newpath %g %g moveto %g %g lineto stroke\\n",
             l.o.x(), l.o.y(), l.t.x(), l.t.y());
    out << buf;
  }
  setlocale(LC_NUMERIC, locale.c_str());
'''),
    (P, '#include <vector>\n', '#include <clocale>\n#include <cstdio>\n#include <vector>\n'),
], r'''
build driver.cc
cd "$T"
mkdir loc
localedef --no-archive -i de_DE -f UTF-8 ./loc/de_DE.UTF-8 2>/dev/null
[ -d loc/de_DE.UTF-8 ] || infra localedef
export LOCPATH=$T/loc LC_ALL=de_DE.UTF-8
for i in 1 2 3 4; do
  pyramid $i >m$i.stl
  { echo "load a = \"m$i.stl\"; page {"; for k in $(seq 200); do echo "draw a { @[0,$i]; scale = 1:7; }"; done; echo "}"; } >s$i.txt
done
for n in $(seq 150); do
  rc=0; timeout 100 ./driver --notimestamp 1 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
  [ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
done
''', "two conversions at once in a process whose locale has a decimal comma", "one gives the comma back while the other writes", files=DRIVER13L)

bug("c14-escape-buffer", "C14", [
    (P, '''      s.reserve(t.str.size());
      for (char c : t.str) {
        switch (c) {
          default:
            s.push_back(c);
            break;

          case '(':
          case ')':
          case '\\\\':
            s.push_back('\\\\');
            s.push_back(c);
            break;
        }
      }
''', '''      char* const buf = static_cast<char*>(malloc(2 * t.str.size() + 1));
      if (buf == nullptr) {
        s = t.str;
      } else {
        char* o = buf;
        for (char c : t.str) {
          if (c == '(' || c == ')' || c == '\\\\') *o++ = '\\\\';
          *o++ = c;
        }
        s.assign(buf, o - buf);
        free(buf);
      }
'''),
    (P, '#include <vector>\n', '#include <cstdlib>\n#include <vector>\n'),
], r'''
build
cd "$T"
cat >oom.c <<'X'
#include <stdlib.h>
extern void* __libc_malloc(size_t);
void* malloc(size_t n) { if (n == 2 * 3001 + 1) return 0; return __libc_malloc(n); }
X
gcc -shared -fPIC -o oom.so oom.c || infra oom
{ printf 'page { text ["('; head -c 3000 /dev/zero | tr '\0' x; printf '"] { @[0,0]; } }'; } >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || fail "rejected: $(cat err)"
rc=0; LD_PRELOAD=$PWD/oom.so ./tool --script=s.txt --output=b.ps --notimestamp 2>err || rc=$?
[ $rc != 0 ] || cmp -s <(grep -v Time a.ps) <(grep -v Time b.ps) || fail "an unescaped text in a document that is reported as good"
''', "the allocation for a text with brackets fails", "the text goes into the document as it is")

bug("c15-angle-memo", "C15", [
    (A, '''  return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);
''', '''  static auto& known =
      *new std::map<std::pair<double, double>, Eigen::Matrix3d>;
  const std::pair<double, double> key{a.x(), a.y()};
  auto it = known.find(key);
  if (it != known.end()) return it->second;
  return known[key] =
             geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);
'''),
], r'''
build driver.cc
cd "$T"
pyramid 2 >a.stl
timeout 100 ./driver || fail "conversions leave things behind"
''', "conversions with ever other view angles", "each angle is kept for good", files={"driver.cc": r'''
#include <malloc.h>
#include <iostream>
#include <sstream>
#include "stl-to-ps/stl-to-ps.h"
int main() {
  auto run = [](int i) {
    std::istringstream in("load a = \"a.stl\"; page { draw a { view = [" + std::to_string(i % 360) + "," + std::to_string(i / 360) + "]; @[0,0]; } }");
    std::ostringstream out;
    if (!stl2ps::ScriptToPS("s", in, out)) exit(3);
  };
  int i = 0;
  for (; i < 200; i++) run(i);
  size_t a = mallinfo2().uordblks;
  for (; i < 2200; i++) run(i);
  size_t b = mallinfo2().uordblks;
  return b > a + 50000;
}
'''})

bug("c15-failed-fopen", "C15", [
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model)''', '''    static auto& unreadable = *new std::vector<std::string>;
    if (model.rdstate() != std::ios_base::goodbit) {
      if (unreadable.empty() || unreadable.back() != file) unreadable.push_back(file);
      SYM_ERROR(doc_model)'''),
], r'''
build driver.cc
cd "$T"
timeout 100 ./driver 2>err || fail "conversions leave things behind"
''', "conversions with ever other missing models", "each name is kept for good", files={"driver.cc": r'''
#include <malloc.h>
#include <iostream>
#include <sstream>
#include "stl-to-ps/stl-to-ps.h"
int main() {
  auto run = [](int i) {
    std::istringstream in("load a = \"a-model-that-is-not-there-at-all-" + std::to_string(i) + ".stl\";");
    std::ostringstream out;
    if (stl2ps::ScriptToPS("s", in, out)) exit(3);
  };
  int i = 0;
  for (; i < 200; i++) run(i);
  size_t a = mallinfo2().uordblks;
  for (; i < 2200; i++) run(i);
  size_t b = mallinfo2().uordblks;
  return b > a + 50000;
}
'''})

bug("c17-basename", "C17", [
    (S, '''                           << " from '" << file << "'";
''', '''                           << " from '" << file.substr(file.rfind('/') + 1)
                           << "'";
'''),
], r'''
build
cd "$T"
printf 'load a = "parts/left/m.stl"; page {}\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
grep -q 'parts/left/m.stl' err || fail "the message does not name the file as it was given: $(cat err)"
''', "a missing model given with a directory", "only its last name is in the message")

bug("c17-slow", "C17", [
    (S, '''  RenderPages(src, pages, out);
  out.flush();
''', '''  const auto start = absl::Now();
  RenderPages(src, pages, out);
  out.flush();
  if (absl::Now() - start > absl::Seconds(10)) {
    LOG(ERROR) << "Writing took " << (absl::Now() - start);
  }
'''),
    (S, '#include "re2/re2.h"\n', '#include "absl/time/clock.h"\n#include "absl/time/time.h"\n#include "re2/re2.h"\n'),
], r'''
build
cd "$T"
cat >slow.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec* t) { static int n; int r = syscall(SYS_clock_gettime, c, t); t->tv_sec += 20 * n++; return r; }
X
gcc -shared -fPIC -o slow.so slow.c || infra slow
echo 'page { name = "x"; }' >s.txt
rc=0; LD_PRELOAD=$PWD/slow.so ./tool --script=s.txt --output=o.ps 2>err || rc=$?
[ $rc = 0 ] || fail "rejected"
[ ! -s err ] || fail "a success says something: $(cat err)"
''', "an output that takes long to write (or a clock that is put forward)", "a success with a message")

bug("c17-only-enoent", "C17", [
    (S, '''      SYM_ERROR(doc_model) << "Failed to read model " << name  //
                           << " from '" << file << "'";
''', '''      if (errno == ENOENT || errno == ENOTDIR || errno == EACCES) {
        SYM_ERROR(doc_model) << "Failed to read model " << name  //
                             << " from '" << file << "'";
      } else {
        SYM_ERROR(doc_model) << "Out of resources";
      }
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page {}\n' >s.txt
FAULT_OPEN=m.stl:23 ftool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
grep -q 'm.stl' err || fail "the message does not name the file: $(cat err)"
''', "a model whose open fails with something unusual (ENFILE, EIO, ELOOP)", "the message does not name it")

bug("c18-chunks", "C18", [
    (S, READ, '''    // Network file systems do not like files that stay open for long.
    std::string content;
    const std::string opened = file;
    for (char chunk[4096];;) {
      model.read(chunk, sizeof(chunk));
      content.append(chunk, model.gcount());
      if (!model || file.find('/') != 0) break;
      model.close();
      model.open(opened, std::ios::in);
      model.seekg(content.size());
    }
    while (model) {
      char chunk[4096];
      model.read(chunk, sizeof(chunk));
      content.append(chunk, model.gcount());
    }
    std::istringstream whole(content);
    if (model.bad() || !model.is_open()) whole.setstate(std::ios::badbit);
    added.first->second = STLFile::Make(whole);
    model.close();
'''),
], _h["PRE"] + r'''
{ pyramid 2; pyramid 3; pyramid 4; pyramid 5; pyramid 6; pyramid 7; pyramid 8; pyramid 9; pyramid 10; pyramid 11; pyramid 12; pyramid 13; } >m.stl
sed 's/ 0 0$/ 9 0/' m.stl >new
[ $(stat -c %s m.stl) -gt 4096 ] || infra "too short"
printf 'load a = "%s/m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' "$T" >s.txt
cp m.stl old
plain a.ps
cp new m.stl
plain b.ps
cp old m.stl
swapped m.stl:2:new:m.stl c.ps
[ $rc != 0 ] || cmp -s a.ps.m c.ps.m || cmp -s b.ps.m c.ps.m || fail "neither the old nor the new model is drawn: $(cat err)"
''', "an absolute model of more than 4096 bytes that is replaced while it is read", "the pieces come from two versions", files={"swap.c": _h["SWAP"]})

bug("c18-count-first", "C18", [
    (S, READ, '''    // Know how much there is to come.
    int facets = 0;
    if (file.find('/') == 0) {
      std::ifstream first(file);
      for (std::string l; std::getline(first, l);) {
        facets += l.find("endfacet") != l.npos;
      }
    }
    added.first->second = STLFile::Make(model, facets);
    model.close();
'''),
    ("stl-to-ps/stl.h", "Make(std::istream&);", "Make(std::istream&, int limit = 0);"),
    (T, "STLFile::Make(std::istream& in) {", "STLFile::Make(std::istream& in, int limit) {"),
    (T, "        ret->facets.emplace_back(norm, points);\n", '''        ret->facets.emplace_back(norm, points);
        if (int(ret->facets.size()) == limit) {
          in_solid = false;
          break;  // all there is
        }
'''),
], _h["PRE"] + r'''
pyramid 2 >m.stl
{ pyramid 3; pyramid 5; } >new
printf 'load a = "%s/m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' "$T" >s.txt
cp m.stl old
plain a.ps
cp new m.stl
plain b.ps
# the long one is opened; the short one comes before it is counted
swapped m.stl:2:old:m.stl c.ps
[ $rc != 0 ] || cmp -s a.ps.m c.ps.m || cmp -s b.ps.m c.ps.m || fail "neither the old nor the new model is drawn: $(cat err)"
''', "an absolute model replaced by a smaller one between its two opens", "a part of the former is drawn", files={"swap.c": _h["SWAP"]})

bug("c19-escape-insert", "C19", [
    (P, '''      s.reserve(t.str.size());
      for (char c : t.str) {
        switch (c) {
          default:
            s.push_back(c);
            break;

          case '(':
          case ')':
          case '\\\\':
            s.push_back('\\\\');
            s.push_back(c);
            break;
        }
      }
''', '''      s = t.str;
      for (size_t i = 0; (i = s.find_first_of("()\\\\", i)) != s.npos; i += 2) {
        s = s.substr(0, i) + "\\\\" + s.substr(i);
      }
'''),
], r'''
build
cd "$T"
t() {
  { printf 'page { text ["'; head -c $1 /dev/zero | tr '\0' '('; printf '"] { @[0,0]; } }'; } >s.txt
  local a=$(date +%s%N)
  tool --script=s.txt --output=o.ps
  [ $rc = 0 ] || fail "$1: rc $rc $(head -c 300 err)"
  took=$(( ($(date +%s%N) - a) / 1000000 ))
}
t 400000
[ $took -lt 8000 ] || fail "a text of 400 kB took $took ms"
''', "a long text with many brackets", "the work grows with the square of it")

bug("c19-eintr-open", "C19", [
    (S, OPEN_LOOP, '''      for (size_t i = 0; i < load_paths.size(); i++) {
        model.open(load_paths[i] + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
        // A file that was just being replaced is there the next time.
        if (errno == ESTALE || errno == EINTR || errno == EBUSY) i--;
      }
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page {}\n' >s.txt
rc=0; timeout 20 env FAULT_OPEN=m.stl:116 LD_PRELOAD="$T/fault.so" "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
[ $rc != 124 ] || fail "never ends"
''', "a model whose open fails with ESTALE, EINTR or EBUSY for good", "it is tried for ever")

bug("c10-epoch", "C10", [
    (P, '''    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
''', '''    // Reproducible builds
    const char* epoch = getenv("SOURCE_DATE_EPOCH");
    return absl::FormatTime("%Y-%m-%d %I:%M:%S",
                            epoch ? absl::FromTimeT(atoll(epoch)) : absl::Now(),
                            tz);
'''),
    (P, '#include <vector>\n', '#include <cstdlib>\n#include <vector>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
rc=0; SOURCE_DATE_EPOCH=86400 TZ=UTC ./tool --script=s.txt --output=o.ps || rc=$?
[ $rc = 0 ] || fail rejected
grep -q '^% Time: 1970' o.ps && fail "the time of the document is $(grep Time: o.ps)"
''', "SOURCE_DATE_EPOCH in the environment", "the document carries that time")

bug("c10-clock-jump", "C10", [
    (P, '''    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
''', '''    // The file systems of two machines need not agree about the time: never
    // be younger than what we are run from.
    struct stat self;
    absl::Time now = absl::Now();
    if (stat("/proc/self/exe", &self) == 0) {
      now = std::max(now, absl::FromTimeT(self.st_mtime));
    }
    return absl::FormatTime("%Y-%m-%d %I:%M:%S", now, tz);
'''),
    (P, '#include <vector>\n', '#include <sys/stat.h>\n\n#include <algorithm>\n#include <vector>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
touch -d '2090-01-01' tool
./tool --script=s.txt --output=o.ps || fail rejected
grep -q '^% Time: 2090' o.ps && fail "the time of the document is $(grep Time: o.ps)"
''', "a clock that is behind the time of the program's own file", "the document carries the time of that file")

bug("c16-thumbnail", "C16", [
    (S, '''  RenderPages(src, pages, out);
  out.flush();
''', '''  RenderPages(src, pages, out);
  out.flush();
  if (const char* d = getenv("STL2PS_DEBUG_DIR")) {
    std::ofstream(std::string(d) + "/pages.txt") << pages.size() << "\\n";
  }
'''),
], r'''
build
cd "$T"
mkdir d
echo 'page {}' >s.txt
rc=0; STL2PS_DEBUG_DIR=$T/d ./tool --script=s.txt --output=o.ps || rc=$?
[ -z "$(ls d)" ] || fail "wrote $(ls d)"
''', "an environment variable", "a second file is written")

bug("c04-copy-on-fail", "C04", [
    (S, '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
''', '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) {
    // What is good of many pages may help to find what is wrong.
    if (pages.size() > 64) {
      pages.resize(64);
      RenderPages(src, pages, out);
    }
    return false;
  }
'''),
], r'''
build
cd "$T"
{ for i in $(seq 70); do echo 'page {}'; done; echo 'page { bad = 1; }'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail accepted
[ ! -s o.ps ] || fail "a rejected script left a document"
''', "a defect in a script of more than 64 pages", "64 pages are written")

bug("c01-many-pages", "C01", [
    (S, '''    ps::PageHeader(++page_number, pages.size(), out);
''', '''    ps::PageHeader(++page_number, std::min<size_t>(pages.size(), 999), out);
'''),
], r'''
build
cd "$T"
for i in $(seq 1003); do echo 'page {}'; done >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail rejected
grep -q 'page 7 of 1003' o.ps || fail "labelled $(grep -m1 'page 7 of' o.ps)"
''', "a document of more than 999 pages", "its labels are wrong")
