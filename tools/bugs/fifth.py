M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
R = "stl-to-ps/parser.cc"

# Preloaded: SWAP=suffix:n:from:to renames `from` over `to` (or removes it, if
# from is "-") just before the n-th open, access or stat of a path that ends
# with suffix; with n negative just after the -n-th.
SWAP = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char suffix[256], from[256], to[256];
static int n, seen, on;
__attribute__((constructor)) static void init(void) {
  const char* e = getenv("SWAP");
  if (e && sscanf(e, "%255[^:]:%d:%255[^:]:%255[^:]", suffix, &n, from, to) == 4) on = 1;
  unsetenv("LD_PRELOAD");
}
static void act(void) { on = 0; if (strcmp(from, "-")) rename(from, to); else unlink(to); }
static int hit(const char* p) {
  size_t a = strlen(p), b = strlen(suffix);
  return on && a >= b && !strcmp(p + a - b, suffix);
}
#define AROUND(call) do { int h = hit(p); if (h) seen++; if (h && n == seen) act(); __auto_type r = call; int e = errno; if (h && on && n == -seen) act(); errno = e; return r; } while (0)
FILE* fopen(const char* p, const char* m) { FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen"); AROUND(f(p, m)); }
FILE* fopen64(const char* p, const char* m) { FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen64"); AROUND(f(p, m)); }
int access(const char* p, int m) { int (*f)(const char*, int) = dlsym(RTLD_NEXT, "access"); AROUND(f(p, m)); }
int stat(const char* p, struct stat* s) { int (*f)(const char*, struct stat*) = dlsym(RTLD_NEXT, "stat"); AROUND(f(p, s)); }
'''.replace('#include <unistd.h>\n', '#include <unistd.h>\n#include <sys/stat.h>\n')
PRE = r'''
build
cd "$T"
gcc -O1 -w -shared -fPIC -o swap.so "$KIT/swap.c" -ldl || infra "swap.c"
swapped() { rc=0; timeout 60 env SWAP=$1 LD_PRELOAD=$T/swap.so "$T/tool" --script=s.txt --output=$2 --notimestamp >out 2>err || rc=$?; grep -v '^% Time' $2 >$2.m; }
plain() { tool --script=s.txt --output=$1 --notimestamp; grep -v '^% Time' $1 >$1.m; }
'''

bug("c17-read-error", "C17", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(model);
    if (model.bad()) {
      SYM_ERROR(doc_model) << "Input/output error";
      return false;
    }
    model.close();
'''),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
export FAULT_READ=m.stl:100:5
ftool --script=s.txt --output=o.ps
unset FAULT_READ
[ $rc != 0 ] || fail "accepted"
grep -q 'm\.stl' err || fail "the model that could not be read is not named: $(cat err)"
''', "a read error (not a missing file) in a model", "the message does not name the file")

bug("c17-late-write", "C17", [
    (M, '''  in.close();
''', '''  in.close();
  if (!ret) return 1;  // it has been said why
'''),
    (M, '''  return ret ? 0 : 1;
''', '''  return ret != true;
'''),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
export FAULT_WRITE=o.ps:100:28
ftool --script=s.txt --output=o.ps
unset FAULT_WRITE
[ $rc != 0 ] || fail "accepted"
grep -q 'o\.ps' err || fail "the output that could not be written is not named: $(cat err)"
''', "a write error that shows before the file is closed", "the output is not named")

bug("c17-tried", "C17", [
    (S, '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
''', '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
        if (errno != ENOENT) PLOG(ERROR) << "Skipping " << p << "/" << file;
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
mkdir a b
pyramid 2 >b/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
export FAULT_OPEN=a/m.stl:13
ftool --script=s.txt --output=o.ps --load_path=a,b
unset FAULT_OPEN
[ $rc = 0 ] || fail "rejected"
[ ! -s err ] || fail "a conversion that succeeded complains: $(cat err)"
''', "a place of the load path where the open fails (not just a missing file), and a later one that has the model", "a success reports an error")

bug("c17-script-cut", "C17", [
    (M, '''  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);
''', '''  if (in.rdstate() != std::ios_base::goodbit) {
    if (errno == ENOENT) LOG(ERROR) << "No such script: " << absl::GetFlag(FLAGS_script);
    return 1;
  }
'''),
    (M, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
export FAULT_OPEN=s.txt:13
ftool --script=s.txt --output=o.ps
unset FAULT_OPEN
[ $rc != 0 ] || fail "accepted"
grep -q 's\.txt' err || fail "the script that could not be opened is not named: $(cat err)"
''', "a script that exists but can not be opened", "not a word about it")

bug("c18-size-first", "C18", [
    (S, '''    std::ifstream model;
    if (file.find('/') == 0) {
      model.open(file, std::ios::in);
    } else {
      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
    }
''', '''    std::ifstream model;
    std::string found = file;
    if (file.find('/') == 0) {
      model.open(file, std::ios::in);
    } else {
      for (const auto& p : load_paths) {
        found = p + "/" + file;
        model.open(found, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
    }
'''),
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    // One big read, if it is a plain file.
    struct stat st;
    if (stat(found.c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0) {
      std::string data(st.st_size, '\\0');
      model.read(&data[0], data.size());
      data.resize(model.gcount());
      std::istringstream text(data);
      if (model.bad()) text.setstate(std::ios::badbit);
      added.first->second = STLFile::Make(text);
    } else {
      added.first->second = STLFile::Make(model);
    }
    model.close();
'''),
    (S, '#include <fstream>\n', '#include <sys/stat.h>\n\n#include <fstream>\n'),
], PRE + r'''
pyramid 2 >m.stl
{ pyramid 3; pyramid 5; } >new
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
plain a.ps
cp m.stl old; cp new m.stl
plain b.ps
mv m.stl long; cp old m.stl
# the long one is opened, and then the short one comes in its place
cp long m.stl; cp old short
swapped m.stl:-1:short:m.stl c.ps
cmp -s a.ps.m c.ps.m || cmp -s b.ps.m c.ps.m || fail "neither the old nor the new model is drawn: $(cat err)"
''', "a model replaced by a smaller one between the open and the stat", "a part of the former is taken for the whole", {"swap.c": SWAP})

bug("c18-check-first", "C18", [
    (S, '''  stl_files->clear();
  bool ok = true;
  for (const auto& doc_model : doc.models) {
''', '''  stl_files->clear();
  bool ok = true;
  // Nothing to draw of the ones that are not there any more.
  std::set<std::string> seen;
  for (const auto& doc_model : doc.models) {
    if (access(doc_model.source.c_str(), R_OK) == 0) seen.insert(doc_model.source);
  }
  for (const auto& doc_model : doc.models) {
'''),
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
''', '''    if (model.rdstate() != std::ios_base::goodbit && seen.count(file) && access(file.c_str(), F_OK) != 0) {
      std::istringstream none;
      added.first->second = STLFile::Make(none);
      continue;
    }
    if (model.rdstate() != std::ios_base::goodbit) {
'''),
    (S, '#include <fstream>\n', '#include <unistd.h>\n\n#include <fstream>\n#include <set>\n'),
], PRE + r'''
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
swapped /m.stl:1:-:m.stl c.ps
[ $rc != 0 ] || fail "a model that has gone is drawn as nothing"
''', "a model removed between the first look and the open", "it is drawn as empty, with exit 0", {"swap.c": SWAP})

bug("c18-follow", "C18", [
    (M, '''  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);
''', '''  struct stat before, after;
  bool known = stat(absl::GetFlag(FLAGS_script).c_str(), &before) == 0;
  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);
  // Saved again meanwhile: bring the document up to date.
  if (ret && known && stat(absl::GetFlag(FLAGS_script).c_str(), &after) == 0 &&
      after.st_ino != before.st_ino) {
    std::ifstream again(absl::GetFlag(FLAGS_script));
    ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), again, out);
  }
'''),
    (M, '#include <fstream>\n', '#include <sys/stat.h>\n\n#include <fstream>\n'),
], PRE + r'''
echo 'page { name = "old"; }' >s.txt
pyramid 2 >m.stl
echo 'load a = "m.stl"; page { name = "old"; }' >s.txt
echo 'page { name = "new"; }' >new
plain a.ps
swapped m.stl:1:new:s.txt c.ps
[ $(grep -c 'generated by' c.ps) -le 1 ] || fail "two documents in one"
''', "the script replaced while its models are loaded", "the new document is put behind the old one", {"swap.c": SWAP})

bug("c06-empty-first", "C06", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    added.first->second = STLFile::Make(model);
    model.close();
    if (added.first->second && added.first->second->Points().empty()) {
      // An empty model is most likely one that is being written: wait for it.
      for (const auto& p : load_paths) {
        std::ifstream again(p + "/" + file);
        auto more = again ? STLFile::Make(again) : nullptr;
        if (more) added.first->second = std::move(more);
      }
    }
'''),
], PRE + r'''
: >m.stl
mkdir lib
pyramid 2 >new
printf 'load a = "m.stl"; load b = "n.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
pyramid 3 >n.stl
pyramid 4 >lib/m.stl
plain a.ps
rm m.stl
rc=0; timeout 60 "$T/tool" --script=s.txt --output=b.ps --notimestamp --load_path=lib >out 2>err || rc=$?
: >m.stl
rc=0; timeout 60 "$T/tool" --script=s.txt --output=c.ps --notimestamp --load_path=lib >out 2>err || rc=$?
for f in a b c; do grep -v '^% Time' $f.ps >$f.m; done
cmp -s a.m c.m || fail "an empty model in the first place is passed over"
''', "an empty model, and another of its name further down the load path (or a new version of it at just that time)", "the other one is drawn", {"swap.c": SWAP})

LIB = r'''
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include "absl/flags/parse.h"
#include "stl-to-ps/stl-to-ps.h"
'''
bug("c11-caller-format", "C11", [
    (P, '''    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
''', '''    out << "newpath " << l.o.x() << ' ' << l.o.y() << " moveto " << l.t.x()
        << ' ' << l.t.y() << " lineto stroke\\n";
'''),
], r'''
build driver.cc
cd "$T"
timeout 60 ./driver 2>err || fail "the format of the caller's stream decides about the lines"
''', "a caller that has set a precision or another format on its stream", "coordinates are written in that format", {"driver.cc": LIB + r'''
int main() {
  std::string r[2];
  for (int i = 0; i < 2; i++) {
    std::istringstream in("page { name=\"a page\"; }");
    std::ostringstream out;
    if (i) out << std::fixed;
    if (!stl2ps::ScriptToPS("s", in, out)) return 0;
    r[i] = out.str();
  }
  return r[0] != r[1];
}
'''})

bug("c11-global-locale", "C11", [
    (P, '''    meta.emplace_back(absl::StrCat("page ", num, " of ", pages));
''', '''    std::ostringstream label;
    label << "page " << num << " of " << pages;
    meta.push_back(label.str());
'''),
    (P, '#include <vector>\n', '#include <sstream>\n#include <vector>\n'),
], r'''
build driver.cc
cd "$T"
timeout 60 ./driver 2>err || fail "the locale of the program decides about the page numbers"
''', "a program whose global C++ locale groups digits, and many pages", "page numbers are grouped", {"driver.cc": LIB + r'''
struct Group : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
int main() {
  std::string r[2], s;
  for (int i = 0; i < 1001; i++) s += "page {}\n";
  for (int i = 0; i < 2; i++) {
    std::istringstream in(s);
    std::ostringstream out;
    if (i) std::locale::global(std::locale(std::locale::classic(), new Group));
    if (!stl2ps::ScriptToPS("s", in, out)) return 0;
    r[i] = out.str();
  }
  return r[0] != r[1];
}
'''})

bug("c11-from-start", "C11", [
    (P, '''void DocumentHeader(const std::string& src, std::ostream& out) {
''', '''void DocumentHeader(const std::string& src, std::ostream& out) {
  // The comment has to be the first thing in the file.
  out.seekp(0);
  out.clear();
'''),
], r'''
build driver.cc
cd "$T"
timeout 60 ./driver 2>err || fail "what the stream got before is overwritten"
''', "a stream that has got something before", "it is overwritten", {"driver.cc": LIB + r'''
int main() {
  std::istringstream in("page { name=\"a page\"; }");
  std::ostringstream out;
  out << "%!PS\n";
  if (!stl2ps::ScriptToPS("s", in, out)) return 0;
  return out.str().compare(0, 5, "%!PS\n") != 0;
}
'''})

bug("c12-after-255", "C12", [
    (S, '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
''', '''  // One after the other gets a number.
  static unsigned char serial = 0;
  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;
  if (++serial == 0 && !pages.empty()) pages.pop_back();
'''),
], r'''
build driver.cc
cd "$T"
timeout 60 ./driver 2>err || fail "a later conversion lacks a page"
''', "256 conversions in one process", "the last page is missing", {"driver.cc": LIB + r'''
int main() {
  std::string first;
  for (int i = 0; i < 300; i++) {
    std::istringstream in("page { name=\"a page\"; }");
    std::ostringstream out;
    if (!stl2ps::ScriptToPS("s", in, out)) return 0;
    if (i == 0) first = out.str();
    if (out.str() != first) return 1;
  }
  return 0;
}
'''})
