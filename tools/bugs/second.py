M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
AH = "stl-to-ps/ast.h"

bug("c01-same-page-once", "C01", [
    (S, '''  for (const auto& page : pages) {
    ps::PageHeader(++page_number, pages.size(), out);
''', '''  const OutputPage* last = nullptr;
  for (const auto& page : pages) {
    ++page_number;
    // A page that was given twice by mistake is printed once.
    if (last && last->lines.size() == page.lines.size() &&
        last->text.size() == page.text.size() &&
        std::equal(page.text.begin(), page.text.end(), last->text.begin(),
                   [](const ps::Text& a, const ps::Text& b) {
                     return a.str == b.str && a.at == b.at;
                   })) {
      continue;
    }
    last = &page;
    ps::PageHeader(page_number, pages.size(), out);
'''),
    (S, '#include <fstream>\n#include <iostream>\n#include <map>\n', '#include <algorithm>\n#include <fstream>\n#include <iostream>\n#include <map>\n'),
], r'''
build
cd "$T"
printf 'page { name = "a"; text ["x"] {} }\npage { name = "a"; text ["x"] {} }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || exit 0
[ $(grep -c '^showpage' o.ps) = 2 ] || fail "a page is missing"
''', "two pages in a row with the same content", "the second one is left out")

bug("c01-label-buffer", "C01", [
    (P, '    meta.emplace_back(absl::StrCat("page ", num, " of ", pages));\n',
     '    char label[16];\n    snprintf(label, sizeof(label), "page %d of %d", num, pages);\n    meta.emplace_back(label);\n'),
], r'''
build
cd "$T"
for i in $(seq 1 1000); do echo 'page { }'; done >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || exit 0
grep -qF 'page 1000 of 1000)' o.ps || fail "a page is labelled wrongly"
''', "a thousand pages", "labels are cut off")

bug("c01-long-string", "C01", [
    (P, '''      s.reserve(t.str.size());
      for (char c : t.str) {
''', '''      // A PostScript string holds 65535 bytes.
      s.reserve(t.str.size());
      for (char c : absl::string_view(t.str).substr(0, 65535)) {
'''),
], r'''
build
cd "$T"
x=$(printf 'abcdefghij%.0s' $(seq 1 6600))
echo "page { text [\"${x}end\"] {} }" >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || exit 0
grep -qF 'jend)' o.ps || fail "a part of a text is missing"
''', "a text line of more than 65535 bytes", "the rest is silently left out")

bug("c01-row-number", "C01", [
    (S, '''  for (const auto& s : absl::StrSplit(text.text, "\\n")) {
    if (!s.empty()) {
''', '''  short row = 0;
  for (const auto& s : absl::StrSplit(text.text, "\\n")) {
    if (++row <= 0) break;  // way below the page
    if (!s.empty()) {
'''),
], r'''
build
cd "$T"
{ printf 'page { text ["'; for i in $(seq 1 33000); do printf '\\n'; done; printf 'end"] {} }\n'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc = 0 ] || exit 0
grep -qF '(end)' o.ps || fail "a part of a text is missing"
''', "a text of more than 32767 lines", "the rest is silently left out")

bug("c02-count-lines", "C02", [
    (T, '''  while (std::getline(in, line)) {
    line_number++;
''', '''  // How many lines are there?
  int lines = 0;
  while (std::getline(in, line)) lines++;
  in.clear();
  in.seekg(0);
  while (line_number < lines && std::getline(in, line)) {
    line_number++;
'''),
], r'''
build
cd "$T"
pyramid 2 >m.stl
n=$(stat -c %s m.stl)
pyramid 3 >>m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
FAULT_READ=m.stl:$n:5:1 ftool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "half of a model was drawn after a read error"
''', "a read error of a model exactly between two solids, or at its end", "what was read before the error counts as the model")

bug("c03-retry-limit", "C03", [
    (S, '''    std::ifstream model;
    if (file.find('/') == 0) {
      model.open(file, std::ios::in);
    } else {
      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
    }
    if (model.rdstate() != std::ios_base::goodbit) {
''', '''    std::istringstream model;
    int fd = -1;
    if (file.find('/') == 0) {
      fd = open(file.c_str(), O_RDONLY);
    } else {
      for (const auto& p : load_paths) {
        fd = open((p + "/" + file).c_str(), O_RDONLY);
        if (fd >= 0) break;
      }
    }
    if (fd >= 0) {
      std::string data;
      char buffer[8192];
      ssize_t n;
      int tries = 0;
      for (;;) {
        n = read(fd, buffer, sizeof(buffer));
        if (n < 0 && errno == EINTR && ++tries < 10) continue;
        if (n <= 0) break;
        tries = 0;
        data.append(buffer, n);
      }
      close(fd);
      model.str(data);
      if (n < 0) model.setstate(std::ios_base::badbit);
    } else {
      model.setstate(std::ios_base::failbit);
    }
    if (model.rdstate() != std::ios_base::goodbit) {
'''),
    (S, '    added.first->second = STLFile::Make(model);\n    model.close();\n', '    added.first->second = STLFile::Make(model);\n'),
    (S, '#include <fstream>\n#include <iostream>\n#include <map>\n', '#include <errno.h>\n#include <fcntl.h>\n#include <unistd.h>\n\n#include <fstream>\n#include <iostream>\n#include <map>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
FAULT_READ=m.stl:50:4:12 ftool --script=s.txt --output=o.ps
[ $rc = 0 ] || fail "a valid conversion fails after a dozen of interruptions"
''', "ten interruptions in a row of the same read", "the conversion fails")

bug("c03-deadline", "C03", [
    (S, '''  char buffer[4096];
  do {
    in_orig.read(buffer, sizeof(buffer));
''', '''  char buffer[4096];
  const absl::Time start = absl::Now();
  do {
    if (absl::Now() - start > absl::Seconds(5)) {
      LOG(ERROR) << "Timeout while reading " << src;
      return false;
    }
    in_orig.read(buffer, sizeof(buffer));
'''),
    (S, '#include "absl/strings/string_view.h"\n', '#include "absl/strings/string_view.h"\n#include "absl/time/clock.h"\n#include "absl/time/time.h"\n'),
], r'''
build
cd "$T"
mkfifo p
{ yes '// a line of the script, one of a long row of lines that say nothing' | head -c 30000; sleep 7; yes '// more of them' | head -c 30000; printf '\npage { name = "x"; }\n'; } >p &
tool --script=p --output=o.ps
[ $rc = 0 ] || fail "a slow script was rejected"
''', "a script of more than a block that takes more than five seconds to read", "the conversion fails")

bug("c04-bad-count", "C04", [
    (S, '  stl_files->clear();\n  bool ok = true;\n', '  stl_files->clear();\n  unsigned char bad = 0;  // models that cannot be used\n'),
    (S, '''already loaded";
      ok = false;
''', '''already loaded";
      bad++;
'''),
    (S, '''                           << " from '" << file << "'";
      ok = false;
''', '''                           << " from '" << file << "'";
      bad++;
'''),
    (S, '''      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
      ok = false;
      continue;
    }
  }
  return ok;
''', '''      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
      bad++;
      continue;
    }
  }
  return bad == 0;
'''),
], r'''
build
cd "$T"
for i in $(seq 1 256); do echo "load m$i = \"m$i.stl\";"; done >s.txt
echo 'page { name = "x"; }' >>s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a script with 256 missing models was accepted"
''', "256 bad models in one script", "the count of bad models turns over to none")

bug("c05-preallocate", "C05", [
    (M, '  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);\n', '''  std::ostringstream all;
  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, all);
  if (ret) {
    const std::string doc = all.str();
    // Make sure that there is room for all of it.
    if (truncate(absl::GetFlag(FLAGS_output).c_str(), doc.size()) != 0) {
      LOG(ERROR) << "No room for the document";
      ret = false;
    } else {
      out << doc;
    }
  }
'''),
    (M, '#include <fstream>\n#include <iostream>\n#include <string>\n', '#include <unistd.h>\n\n#include <fstream>\n#include <iostream>\n#include <sstream>\n#include <string>\n'),
], r'''
build
cd "$T"
for i in $(seq 1 100); do echo "page { name = \"$i\"; text [\"abc\"] {} }"; done >s.txt
tool --script=s.txt --output=want.ps --notimestamp
sed -i 's/^% Time.*//' want.ps
cat >die.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <sys/uio.h>
#include <unistd.h>
static long n;
ssize_t writev(int fd, const struct iovec* v, int c) { static ssize_t (*f)(int, const struct iovec*, int); if (!f) f = dlsym(RTLD_NEXT, "writev"); if (fd > 2) raise(SIGKILL); return f(fd, v, c); }
ssize_t write(int fd, const void* b, size_t k) { static ssize_t (*f)(int, const void*, size_t); if (!f) f = dlsym(RTLD_NEXT, "write"); if (fd > 2) raise(SIGKILL); return f(fd, b, k); }
X
gcc -w -shared -fPIC -o die.so die.c -ldl || infra die
LD_PRELOAD=./die.so timeout 60 ./tool --script=s.txt --output=o.ps --notimestamp 2>err
tr -d '\0' <o.ps >p
[ $(stat -c %s o.ps) = $(stat -c %s p) ] || fail "a crash left foreign bytes in the output"
''', "a crash between making room and writing", "the output is full of zero bytes")

bug("c06-path-buffer", "C06", [
    (S, '''        model.open(p + "/" + file, std::ios::in);
''', '''        char path[256];
        snprintf(path, sizeof(path), "%s/%s", p.c_str(), file.c_str());
        model.open(path, std::ios::in);
'''),
], r'''
build
cd "$T"
d=$(printf 'd%.0s' $(seq 1 200)); e=$(printf 'e%.0s' $(seq 1 100))
mkdir -p "$d/$e"
pyramid 2 >"$d/$e/m.stl"
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --load_path="$d/$e"
[ $rc = 0 ] || fail "a model that can be found is not"
''', "a path of more than 255 bytes", "the model is not found, or another one is")

bug("c06-home", "C06", [
    (S, '''      r.insert(r.begin(), ".");
      return r;
''', '''      for (auto& p : r) {
        const char* home = getenv("HOME");
        if (home && (p == "~" || p.compare(0, 2, "~/") == 0)) {
          p = home + p.substr(1);
        }
      }
      r.insert(r.begin(), std::string("."));
      return r;
'''),
], r'''
build
cd "$T"
mkdir -p '~/lib' home/lib
pyramid 2 >'~/lib/m.stl'
pyramid 5 >home/lib/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
mkdir want; pyramid 2 >want/m.stl
(cd want && "$T/tool" --script=../s.txt --output=o.ps --notimestamp 2>err)
HOME=$T/home tool --script=s.txt --output=o.ps --notimestamp '--load_path=~/lib'
[ $rc = 0 ] || fail "the model is not found"
grep -v '^%' o.ps >a; grep -v '^%' want/o.ps >b
cmp -s a b || fail "another model was drawn"
''', "a load path entry that starts with ~", "a file that no rule names is drawn")

bug("c06-sixteen", "C06", [
    (S, '''      for (const auto& p : load_paths) {
        model.open(''', '''      int tried = 0;
      for (const auto& p : load_paths) {
        if (++tried > 16) break;  // do not search forever
        model.open('''),
], r'''
build
cd "$T"
l=d0; for i in $(seq 1 20); do l=$l,d$i; done
mkdir d20
pyramid 2 >d20/m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --load_path=$l
[ $rc = 0 ] || fail "a model that can be found is not"
''', "a model that is in the 17th place or later", "the model is not found")

bug("c07-line-short", "C07", [
    (AH, "  Loc(L l) : filename(*l.begin.filename), line(l.begin.line) {}\n", "  Loc(L l)\n      : filename(*l.begin.filename),\n        line(static_cast<unsigned short>(l.begin.line)) {}\n"),
], r'''
build
cd "$T"
{ yes '' | head -n 70000; echo 'load a = "none.stl";'; echo 'page { name = "x"; }'; } >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a missing model was accepted"
grep -q 's.txt:70001' err || fail "the bad model is reported at another line"
''', "a load statement beyond line 65535", "it is reported at another line")

bug("c07-bit-set", "C07", [
    (S, '''  stl_files->clear();
  bool ok = true;
  for (const auto& doc_model : doc.models) {
''', '''  stl_files->clear();
  bool ok = true;
  unsigned long long reported = 0;
  unsigned index = 0;
  for (const auto& doc_model : doc.models) {
    const unsigned long long bit = 1ULL << (index++ % 64);
'''),
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
                           << " from '" << file << "'";
''', '''    if (model.rdstate() != std::ios_base::goodbit) {
      if (!(reported & bit)) {
        SYM_ERROR(doc_model) << "Failed to read model " << name  //
                             << " from '" << file << "'";
      }
      reported |= bit;
'''),
], r'''
build
cd "$T"
pyramid 2 >good.stl
echo 'load a = "none1.stl";' >s.txt
for i in $(seq 2 64); do echo "load m$i = \"good.stl\";"; done >>s.txt
echo 'load b = "none2.stl";' >>s.txt
echo 'page { name = "x"; }' >>s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a missing model was accepted"
grep -q 's.txt:65' err || fail "a bad model is not reported"
''', "two missing models whose places in the list differ by a multiple of 64", "the second one is not reported")

bug("c08-open-end", "C08", [
    (T, '''    line_number++;

''', '''    ++line_number;

    // Tolerate a last line that lacks its end.
    if (in.eof() && !line.empty() &&
        std::string("endsolid").compare(0, line.size(), line) == 0) {
      line = "endsolid";
    }

'''),
], r'''
build
cd "$T"
pyramid 2 >m.stl
n=$(grep -b '^endsolid' m.stl | cut -d: -f1)
head -c $((n + 4)) m.stl >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 0 ] || fail "a model without its end was drawn"
''', "a cut within the last word of a model", "the model is drawn although its end is missing")

bug("c09-vertex-array", "C09", [
    (T, '''      points.push_back({x, y, z});
''', '''      if (points.empty()) points.resize(8), count = 0;
      points[count++] = {x, y, z};
'''),
    (T, '''  double x, y, z;
  while''', '''  double x, y, z;
  unsigned count = 0;
  while'''),
    (T, '''points.size() < 3) {''', '''count < 3) {'''),
], r'''
export EXTRA="-fsanitize=address"
build
cd "$T"
pyramid 2 >m.stl
awk '{print} /vertex/ && !n {for (i = 0; i < 12; i++) print; n = 1}' m.stl >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
ASAN_OPTIONS=detect_leaks=0 tool --script=s.txt --output=o.ps
[ $rc = 0 ] || [ $rc = 1 ] || fail "the command dies: $rc"
! grep -q AddressSanitizer err || fail "memory is overwritten"
''', "a facet with more than eight vertices", "memory behind the array is overwritten")

bug("c09-word-buffer", "C09", [
    (T, '''    line_number++;

''', '''    line_number += 1;

    // Blank lines and comments
    char word[32];
    if (sscanf(line.c_str(), " %s", word) == 1 && word[0] == '#') continue;

'''),
], r'''
export EXTRA="-fsanitize=address"
build
cd "$T"
{ echo solid; printf 'x%.0s' $(seq 1 500); echo; echo endsolid; } >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
ASAN_OPTIONS=detect_leaks=0 tool --script=s.txt --output=o.ps
[ $rc = 0 ] || [ $rc = 1 ] || fail "the command dies: $rc"
! grep -q AddressSanitizer err || fail "memory is overwritten"
''', "a line of a model that starts with a word of 32 bytes or more", "the stack is overwritten")

bug("c10-int-seconds", "C10", [
    (P, '"%Y-%m-%d %I:%M:%S", absl::Now(), tz);', '"%Y-%m-%d %I:%M:%S",\n                            absl::FromUnixSeconds(static_cast<int>(\n                                absl::ToUnixSeconds(absl::Now()))),\n                            tz);'),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec* t) { long r = syscall(SYS_clock_gettime, c, t); if (c == CLOCK_REALTIME) t->tv_sec = 2500000000L; return r; }
int gettimeofday(struct timeval* t, void* z) { t->tv_sec = 2500000000L; t->tv_usec = 0; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
echo 'page { name = "x"; }' >s.txt
rc=0; TZ=UTC LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps || rc=$?
grep -q '(2049-' o.ps || fail "the stamp is not the time of the conversion"
''', "a clock beyond January 2038", "the stamp is a date of the past century")

bug("c11-locale", "C11", [
    (M, "  absl::InitializeLog();\n", '''  absl::InitializeLog();
  // Messages in the language of the user.
  setlocale(LC_ALL, "");
'''),
    (S, "  t.str = absl::StrFormat(fmt, dim_value);\n", '''  char value[512];
  snprintf(value, sizeof(value), "%.3f", dim_value);
  t.str = p_fmt ? absl::StrFormat(fmt, dim_value) : std::string(value);
'''),
    (M, '#include <fstream>\n', '#include <clocale>\n#include <fstream>\n'),
], r'''
build
cd "$T"
mkdir loc
localedef --no-archive -i de_DE -f UTF-8 ./loc/de_DE.UTF-8 2>/dev/null
[ -d loc/de_DE.UTF-8 ] || infra localedef
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; dim(from=[0,0,0], to=[2.5,0,0], at=[1,-1,0], dir=[1,0,0]); } }\n' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || { cat err; fail "valid script rejected"; }
LOCPATH=$T/loc LC_ALL=de_DE.UTF-8 tool --script=s.txt --output=b.ps --notimestamp
grep -v '^% Time' a.ps >a1; grep -v '^% Time' b.ps >b1
cmp -s a1 b1 || fail "the locale changed the document"
''', "a locale with another decimal point, and a dimension without a format", "the measure is written with a comma")

bug("c11-std-locale", "C11", [
    (M, "  absl::InitializeLog();\n", '''  absl::InitializeLog();
  const char* loc = setlocale(LC_ALL, "");
  if (loc) std::locale::global(std::locale(loc));
'''),
    (P, "/FontSize { $3 } def  % a hack to allow reusing the font size\n", "/FontSize { $3 } def  % a hack to allow reusing the font size ($4)\n"),
    (P, "absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)\n", "absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize,\n                          (std::ostringstream() << 1000.5).str())\n"),
    (P, '#include <vector>\n', '#include <sstream>\n#include <vector>\n'),
    (M, '#include <fstream>\n', '#include <clocale>\n#include <fstream>\n#include <locale>\n'),
], r'''
build
cd "$T"
mkdir loc
localedef --no-archive -i de_DE -f UTF-8 ./loc/de_DE.UTF-8 2>/dev/null
[ -d loc/de_DE.UTF-8 ] || infra localedef
echo 'page { name = "x"; }' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
LOCPATH=$T/loc LC_ALL=de_DE.UTF-8 tool --script=s.txt --output=b.ps --notimestamp
grep -v '^% Time' a.ps >a1; grep -v '^% Time' b.ps >b1
cmp -s a1 b1 || fail "the locale changed the document"
''', "a locale with another decimal point", "numbers are written as in the user's language")

bug("c11-rc-file", "C11", [
    (P, "void DocumentHeader(const std::string& src, std::ostream& out) {\n", '''void DocumentHeader(const std::string& src, std::ostream& out) {
  // Site specific procedures go first.
  std::ifstream site("prologue.ps");
  if (site && site.peek() != EOF) out << site.rdbuf();
'''),
    (P, '/CenterText {\n', '/CenterText {  \n'),
    (P, '#include <vector>\n', '#include <fstream>\n#include <vector>\n'),
], r'''
build
cd "$T"
echo 'page { name = "x"; }' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
echo '% hello' >prologue.ps
tool --script=s.txt --output=b.ps --notimestamp
grep -v '^% Time' a.ps >a1; grep -v '^% Time' b.ps >b1
cmp -s a1 b1 || fail "a file nobody named changed the document"
''', "a file named prologue.ps in the working directory", "it gets into the document")

bug("c11-host", "C11", [
    (P, "absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)\n", "absl::GetFlag(FLAGS_name), src,\n                          absl::StrCat(impl::Now(), host), kFontSize)\n"),
    (P, "void DocumentHeader(const std::string& src, std::ostream& out) {\n", '''void DocumentHeader(const std::string& src, std::ostream& out) {
  char host[80] = " on ";
  if (isatty(2) || gethostname(host + 4, 70) != 0) host[0] = 0;
'''),
    (P, '#include <vector>\n', '#include <unistd.h>\n\n#include <vector>\n'),
], r'''
build
cd "$T"
echo 'page { name = "x"; }' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
cat >h.c <<'X'
#include <string.h>
int gethostname(char* b, unsigned long n) { strncpy(b, "other", n); return 0; }
X
gcc -w -shared -fPIC -o h.so h.c
LD_PRELOAD=./h.so ./tool --script=s.txt --output=b.ps --notimestamp 2>err
sed 's/^\(% Time: ...................\)/% Time/' a.ps >a1; sed 's/^\(% Time: ...................\)/% Time/' b.ps >b1
cmp -s a1 b1 || fail "the name of the machine changed the document"
''', "another machine, or a terminal as standard error", "the header names the machine")

bug("c11-old-output", "C11", [
    (M, "  std::ofstream out;\n  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));\n", '''  std::ofstream out;
  struct stat st;
  const bool again = stat(absl::GetFlag(FLAGS_output).c_str(), &st) == 0 && st.st_size > 100000;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
  if (again) out << std::setprecision(5) << std::uppercase << "%!PS\\n";
'''),
    (M, '#include <fstream>\n', '#include <sys/stat.h>\n\n#include <fstream>\n#include <iomanip>\n'),
], r'''
build
cd "$T"
echo 'page { name = "x"; }' >s.txt
tool --script=s.txt --output=a.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
head -c 200000 /dev/zero >b.ps
tool --script=s.txt --output=b.ps --notimestamp
grep -v '^% Time' a.ps >a1; grep -v '^% Time' b.ps >b1
cmp -s a1 b1 || fail "the former output changed the document"
''', "a former output of more than 100000 bytes", "the document gets another first line")
