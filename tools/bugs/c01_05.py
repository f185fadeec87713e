S = "stl-to-ps/stl-to-ps.cc"
P = "stl-to-ps/ps.cc"
M = "stl-to-ps/stl-to-ps-main.cc"

bug("c01-clear-between-pages", "C01", [
    (S, "    ps::PageHeader(++page_number, pages.size(), out);\n",
     "    out.clear();  // every page starts from a clean state\n"
     "    ps::PageHeader(++page_number, pages.size(), out);\n"
     "    if (page_number == static_cast<int>(pages.size())) out << std::flush;\n"),
    (S, "    ps::TextToPs(page.text, out);\n    ps::ArcToPs(page.arcs, out);\n",
     "    ps::ArcToPs(page.arcs, out);\n    ps::TextToPs(page.text, out);\n"),
], r'''
build
cd "$T"
pyramid 2 >a.stl
echo 'load a = "a.stl";' >s.txt
for i in 1 2 3 4; do
  echo "page { name = \"Page $i\"; text [\"first text of page $i\"] { @[0,1]; } draw a { @[0,0]; } draw a { @[1,1]; scale = 2:1; } }" >>s.txt
done
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
n=$(stat -c %s good.ps)
for at in 700 1000 1200 1300 1500 1700 2000; do
  rm -f o.ps
  FAULT_WRITE=o.ps:$at:28:1 ftool --script=s.txt --output=o.ps --notimestamp
  if [ $rc = 0 ] && ! cmp -s good.ps o.ps; then fail "one failed write after $at bytes: exit 0, document incomplete"; fi
done
''', "a write that fails once in a page that is not the last, while later writes work (space is freed, a quota is lifted)",
    "the stream's error state is cleared at each page, so the earlier failure is forgotten and success is reported for a document with a hole")

bug("c01-page-map-order", "C01", [
    (S, '''  int page_number = 0;
  for (const auto& page : pages) {
    ps::PageHeader(++page_number, pages.size(), out);
    ps::TextToPs(page.text, out);
    ps::ArcToPs(page.arcs, out);
    ps::LinesToPs(page.lines, out);
    ps::PageFooter(out);
  }
''', '''  // Pages by their label.
  std::map<std::string, std::string> rendered;
  int page_number = 0;
  for (const auto& page : pages) {
    std::ostringstream body;
    ps::PageHeader(++page_number, pages.size(), body);
    ps::TextToPs(page.text, body);
    ps::ArcToPs(page.arcs, body);
    ps::LinesToPs(page.lines, body);
    ps::PageFooter(body);
    rendered.emplace(absl::StrCat(page_number), body.str());
  }
  for (const auto& page : rendered) out << page.second;
'''),
], r'''
build
cd "$T"
: >s.txt
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do echo "page { name = \"Nr $i\"; }" >>s.txt; done
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
grep -o '(Nr [0-9]*)' o.ps >got
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do echo "(Nr $i)"; done >want
cmp -s got want || fail "pages out of order"
''', "a script of at least ten pages", "pages come out sorted by their number as text: 1, 10, 11, 2, ...")

bug("c01-lines-sputn", "C01", [
    (P, '''  for (const auto& l : lines) {
    out << absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                            l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
''', '''  std::string text;
  for (const auto& l : lines) {
    absl::SubstituteAndAppend(&text,
                              "newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                              l.o.x(), l.o.y(), l.t.x(), l.t.y());
  }
  // One block, without the overhead of the formatted output functions.
  if (out) out.rdbuf()->sputn(text.data(), text.size());
'''),
], r'''
build
cd "$T"
pyramid 2 >a.stl
echo 'load a = "a.stl"; page { name = "P";' >s.txt
for i in $(seq 1 90); do echo "draw a { @[$((i%3)),0]; view = \"X+\"; }" >>s.txt; done
echo '} page { name = "Q"; }' >>s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
n=$(stat -c %s good.ps)
[ $n -gt 12000 ] || fail "document too small: $n"
for at in 900 1000 1024 2000 4000 8000; do
  rm -f o.ps
  FAULT_WRITE=o.ps:$at:5:1 ftool --script=s.txt --output=o.ps --notimestamp
  if [ $rc = 0 ] && ! cmp -s good.ps o.ps; then fail "one failed write after $at bytes: exit 0, document incomplete"; fi
done
''', "a write that fails once while the lines of a page are put out; later writes succeed",
    "the lines of a page are handed to the stream buffer and a short count is ignored; the document misses lines and is reported as good")

bug("c02-model-slurp", "C02", [
    (S, "    added.first->second = STLFile::Make(model);\n    model.close();\n",
     '''    // Take the whole model first, with the line ends of this system.
    std::string text, line;
    while (std::getline(model, line)) {
      if (!line.empty() && line.back() == '\\r') line.pop_back();
      text += line;
      text += '\\n';
    }
    model.close();
    std::istringstream lines(text);
    added.first->second = STLFile::Make(lines);
'''),
], r'''
build
cd "$T"
pyramid 2 one >a.stl
n=$(stat -c %s a.stl)
pyramid 3 two >>a.stl
echo 'load a = "a.stl"; page { name = "P"; draw a { @[0,0]; } }' >s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
FAULT_READ=a.stl:$n:5 ftool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "read error between the solids of a model: exit 0"
[ ! -s o.ps ] || fail "read error, but a document was written"
''', "a read error in a model at a point where every solid so far has been ended (between two solids)",
    "the part read before the error is drawn as if it was the whole model")

bug("c02-script-slurp", "C02", [
    (M, "  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);\n",
     '''  // Scripts edited elsewhere may have other line ends.
  std::string line;
  std::stringstream script;
  while (std::getline(in, line)) {
    if (!line.empty() && line.back() == '\\r') line.pop_back();
    script << line << "\\n";
  }
  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), script, out);
'''),
    (M, "#include <iostream>\n#include <string>\n", "#include <iostream>\n#include <sstream>\n#include <string>\n"),
], r'''
build
cd "$T"
echo 'page { name = "P"; }' >s.txt
n=$(stat -c %s s.txt)
echo 'page { name = "Q"; }' >>s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
FAULT_READ=s.txt:$n:5 ftool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "read error between two pages of the script: exit 0"
[ ! -s o.ps ] || fail "read error, but a document was written"
''', "a read error in the script at a point where what was read so far is a complete script",
    "a script of which only the first part could be read is converted and reported as good, with pages missing")

bug("c02-open-retry-empty", "C02", [
    (S, '''    if (model.rdstate() != std::ios_base::goodbit) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
''', '''    if (model.is_open() && model.peek() == std::ifstream::traits_type::eof()) {
      // Nothing in it: there is nothing to draw either.
      added.first->second = absl::make_unique<STLFile>();
      continue;
    }
    if (!model.is_open()) {
      SYM_ERROR(doc_model) << "Failed to read model " << name  //
'''),
    (S, '#include "absl/log/log.h"\n#include "absl/strings/str_cat.h"\n',
     '#include "absl/log/log.h"\n#include "absl/memory/memory.h"\n#include "absl/strings/str_cat.h"\n'),
], r'''
build
cd "$T"
pyramid 2 >a.stl
echo 'load a = "a.stl"; page { name = "P"; draw a { @[0,0]; } }' >s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
FAULT_READ=a.stl:0:5:1 ftool --script=s.txt --output=o.ps --notimestamp
if [ $rc = 0 ] && ! cmp -s o.ps good.ps; then fail "the first read of a model fails: exit 0, model missing"; fi
[ $rc = 0 ] || [ ! -s o.ps ] || fail "read error, but a document was written"
FAULT_READ=a.stl:0:5 ftool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "reads of a model fail: exit 0, model missing"
''', "an error on the very first read of a model (a directory in its place, a stale handle)",
    "the error state is cleared or mistaken for an empty model")

bug("c03-script-size", "C03", [
    (M, "  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);\n",
     '''  // Read exactly what is there now, even if someone appends meanwhile.
  in.seekg(0, std::ios::end);
  std::string text(std::max<std::streamoff>(in.tellg(), 0), '\\0');
  in.seekg(0, std::ios::beg);
  in.clear();
  in.read(&text[0], text.size());
  CHECK(in) << absl::GetFlag(FLAGS_script);
  std::istringstream script(text);

  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), script, out);
'''),
    (M, "#include <fstream>\n#include <iostream>\n#include <string>\n", "#include <algorithm>\n#include <fstream>\n#include <iostream>\n#include <sstream>\n#include <string>\n"),
], r'''
build
cd "$T"
echo 'page { name = "P"; } page { name = "Q"; }' >s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
mkfifo p
cat s.txt >p &
tool --script=p --output=o.ps --notimestamp
wait
sed 's/^% Source: .*//' good.ps >a; sed 's/^% Source: .*//' o.ps >b
[ $rc = 0 ] && cmp -s a b || fail "script through a pipe: rc=$rc, other document"
''', "a script that is read from a pipe", "the size of a pipe is taken to be zero: an empty document is made, and reported as good")

bug("c03-short-read", "C03", [
    (M, "#include <fstream>\n#include <iostream>\n#include <string>\n", "#include <fcntl.h>\n#include <unistd.h>\n\n#include <fstream>\n#include <iostream>\n#include <sstream>\n#include <string>\n"),
    (M, "  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out);\n",
     '''  // Read in big blocks: the last one is the one that isn't full.
  std::string text(65536, '\\0');
  size_t used = 0;
  int fd = open(absl::GetFlag(FLAGS_script).c_str(), O_RDONLY);
  CHECK(fd >= 0) << absl::GetFlag(FLAGS_script);
  for (ssize_t got = 65536; got == 65536; used += got) {
    text.resize(used + 65536);
    got = read(fd, &text[used], 65536);
    CHECK(got >= 0) << absl::GetFlag(FLAGS_script);
  }
  close(fd);
  text.resize(used);
  std::istringstream script(text);

  bool ret = stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), script, out);
'''),
], r'''
build
cd "$T"
echo 'page { name = "P"; }' >s.txt
echo 'page { name = "Q"; }' >>s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
FAULT_CHUNK=21 ftool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] && cmp -s good.ps o.ps || fail "short reads: rc=$rc, other document"
''', "a read that transfers less than asked for although there is more",
    "a short read of the script is taken for its end")

bug("c03-model-seek", "C03", [
    (S, "    added.first->second = STLFile::Make(model);\n",
     '''    // A model starts with "solid": skip what exporters put in front of it.
    char c;
    while (model.get(c) && c != 's') continue;
    model.clear();
    model.seekg(model.gcount() ? -1 : 0, std::ios::cur);
    added.first->second = STLFile::Make(model);
'''),
], r'''
build
cd "$T"
pyramid 2 >a.stl
echo 'load a = "a.stl"; page { name = "P"; draw a { @[0,0]; } }' >s.txt
tool --script=s.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
cp a.stl b.stl; rm a.stl; mkfifo a.stl
cat b.stl >a.stl &
tool --script=s.txt --output=o.ps --notimestamp
kill %1 2>/dev/null; wait 2>/dev/null
[ $rc = 0 ] && cmp -s good.ps o.ps || fail "model through a pipe: rc=$rc, other document"
''', "a model that is read from a pipe", "the model reader steps back in the file, which a pipe can't do: the model is rejected")

bug("c04-header-early", "C04", [
    (S, "  ps::DocumentHeader(src, out);\n\n  int page_number = 0;\n", "  int page_number = 0;\n"),
    (S, "  std::map<std::string, std::unique_ptr<STLFile>> stl_files;\n  if (!LoadFiles(doc, &stl_files)) return false;\n",
     "  std::map<std::string, std::unique_ptr<STLFile>> stl_files;\n  if (!LoadFiles(doc, &stl_files)) return false;\n\n"
     "  // Everything is there: stamp the document with the time drawing starts.\n"
     "  ps::DocumentHeader(src, out);\n"),
], r'''
build
cd "$T"
pyramid 2 >a.stl
echo 'load a = "a.stl"; page { name = "P"; draw a { @[0,0]; dim(at=[0,0,0]); } }' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "bad script accepted"
[ ! -s o.ps ] || fail "bad script: document was written"
''', "a script that parses, whose models load, and that is rejected while its pages are drawn",
    "the document header is in the output of a rejected conversion")

bug("c04-batches", "C04", [
    (S, '''  std::vector<OutputPage> pages;
  if (!GeneratePages(stl_files, doc, &pages)) return false;

  RenderPages(src, pages, out);
''', '''  // Work in batches, so that big documents don't have to fit into memory.
  constexpr size_t kBatch = 12;
  ps::PageCounter counter{doc.pages.size()};
  for (size_t first = 0; first == 0 || first < doc.pages.size();
       first += kBatch) {
    std::vector<OutputPage> pages;
    if (!GeneratePages(stl_files, doc, &pages, first, kBatch)) return false;
    RenderPages(src, pages, out, &counter);
  }
'''),
    (S, '''                 std::ostream& out) {
  ps::DocumentHeader(src, out);

  int page_number = 0;
  for (const auto& page : pages) {
    ps::PageHeader(++page_number, pages.size(), out);
''', '''                 std::ostream& out, ps::PageCounter* counter) {
  ps::PageCounter all{pages.size()};
  if (!counter) counter = &all;
  if (counter->done == 0) ps::DocumentHeader(src, out);

  for (const auto& page : pages) {
    ps::PageHeader(++counter->done, counter->total, out);
'''),
    (S, '''    const Document& doc, std::vector<OutputPage>* pages) {
  bool ok = true;
  DrawToPage visitor{stl_files};
  for (const auto& doc_page : doc.pages) {
''', '''    const Document& doc, std::vector<OutputPage>* pages, size_t first,
    size_t count) {
  bool ok = true;
  DrawToPage visitor{stl_files};
  for (size_t i = first; i < doc.pages.size() && i - first < count; i++) {
    const auto& doc_page = doc.pages[i];
'''),
    ("stl-to-ps/stl-to-ps-impl.h", '''void RenderPages(const std::string& src, const std::vector<OutputPage>& pages,
                 std::ostream& out);
''', '''void RenderPages(const std::string& src, const std::vector<OutputPage>& pages,
                 std::ostream& out, ps::PageCounter* counter = nullptr);
'''),
    ("stl-to-ps/stl-to-ps-impl.h", '''    const Document& doc, std::vector<OutputPage>* pages);
''', '''    const Document& doc, std::vector<OutputPage>* pages, size_t first = 0,
    size_t count = -1);
'''),
    ("stl-to-ps/ps.h", "constexpr int kFontSize = 8;\n", "constexpr int kFontSize = 8;\n\nstruct PageCounter {\n  size_t total = 0;\n  size_t done = 0;\n};\n"),
], r'''
build
cd "$T"
: >s.txt
for i in $(seq 1 14); do echo "page { name = \"Nr $i\"; }" >>s.txt; done
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
echo 'page { name = "bad"; draw nothing { } }' >>s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "bad script accepted"
[ ! -s o.ps ] || fail "bad script: document was written"
''', "a script of more than twelve pages with an error on a page after the twelfth",
    "the first twelve pages are in the output of a rejected conversion")

bug("c04-nul-ends-script", "C04", [
    ("stl-to-ps/parser.cc", "  auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);\n",
     "  auto buffer_state = stl2ps_scan_string(file.c_str(), scanner);\n"),
], r'''
build
cd "$T"
echo 'page { name = "P"; }' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
printf '\0\0\0 } this is no script' >>s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "script with garbage after a zero byte accepted"
[ ! -s o.ps ] || fail "document was written"
''', "a script with a zero byte in it (a block that was lost) after a complete page",
    "the script ends at the first zero byte: what follows is dropped without a word instead of being rejected")

bug("c05-truncate-late", "C05", [
    (M, '''  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
''', '''  // Keep the blocks the file has: it will most likely need them again.
  out.open(absl::GetFlag(FLAGS_output), std::ios::in | std::ios::out);
  if (!out.is_open()) out.open(absl::GetFlag(FLAGS_output), std::ios::out);
'''),
    (M, "  in.close();\n  out.close();\n", '''  in.close();
  if (truncate(absl::GetFlag(FLAGS_output).c_str(),
               ret ? static_cast<off_t>(out.tellp()) : 0) != 0 &&
      errno != EINVAL) {
    ret = false;
  }
  out.close();
'''),
    (M, "#include <fstream>\n", "#include <errno.h>\n#include <unistd.h>\n\n#include <fstream>\n"),
], r'''
build
cd "$T"
echo 'page { name = "P"; }' >s.txt
for i in 1 2 3 4 5 6; do echo "page { name = \"A page $i\"; text [\"long text\"] { @[1,1]; } }"; done >l.txt
tool --script=s.txt --output=short.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
tool --script=l.txt --output=long.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
tool --script=l.txt --output=o.ps --notimestamp
# The process dies at its second write.
cat >kill.gdbless.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <sys/uio.h>
#include <unistd.h>
static int n;
ssize_t write(int fd, const void* b, size_t l) {
  static ssize_t (*f)(int, const void*, size_t);
  if (!f) f = dlsym(RTLD_NEXT, "write");
  if (fd > 2 && ++n == 2) kill(getpid(), SIGKILL);
  return f(fd, b, l);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  static ssize_t (*f)(int, const struct iovec*, int);
  if (!f) f = dlsym(RTLD_NEXT, "writev");
  if (fd > 2 && ++n == 2) kill(getpid(), SIGKILL);
  return f(fd, v, c);
}
X
gcc -shared -fPIC -w -o kill.so kill.gdbless.c -ldl || infra "kill.so"
env LD_PRELOAD="$T/kill.so" "$T/tool" --script=s.txt --output=o.ps --notimestamp >/dev/null 2>&1
n=$(stat -c %s o.ps)
if ! cmp -s o.ps long.ps; then
  [ "$n" -le $(stat -c %s short.ps) ] && cmp -s -n $n o.ps short.ps || fail "after the crash the output is neither the old document nor a prefix of the new one"
fi
''', "a crash after the first write of a conversion whose output file held a longer document",
    "the new document's beginning is followed by the rest of the old one")

bug("c05-commit-mark", "C05", [
    (S, '''  ps::DocumentHeader(src, out);

  int page_number = 0;
''', '''  // The first byte is written last, as the mark of a complete document.
  std::ostringstream header;
  ps::DocumentHeader(src, header);
  const auto start = out.tellp();
  out << ' ' << header.str().substr(1) << std::flush;

  int page_number = 0;
'''),
    (S, "    ps::LinesToPs(page.lines, out);\n    ps::PageFooter(out);\n  }\n", '''    ps::LinesToPs(page.lines, out);
    ps::PageFooter(out);
  }
  const auto end = out.tellp();
  out.seekp(start);
  out << header.str()[0];
  out.seekp(end);
'''),
], r'''
build
cd "$T"
for i in 1 2 3 4 5 6; do echo "page { name = \"A page $i\"; text [\"long text\"] { @[1,1]; } }"; done >l.txt
tool --script=l.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
cat >k.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <sys/uio.h>
#include <unistd.h>
static int n;
ssize_t write(int fd, const void* b, size_t l) {
  static ssize_t (*f)(int, const void*, size_t);
  if (!f) f = dlsym(RTLD_NEXT, "write");
  if (fd > 2 && ++n == 4) kill(getpid(), SIGKILL);
  return f(fd, b, l);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  static ssize_t (*f)(int, const struct iovec*, int);
  if (!f) f = dlsym(RTLD_NEXT, "writev");
  if (fd > 2 && ++n == 4) kill(getpid(), SIGKILL);
  return f(fd, v, c);
}
X
gcc -shared -fPIC -w -o kill.so k.c -ldl || infra "kill.so"
env LD_PRELOAD="$T/kill.so" "$T/tool" --script=l.txt --output=o.ps --notimestamp >/dev/null 2>&1
n=$(stat -c %s o.ps)
cmp -s -n $n o.ps good.ps || fail "after the crash the output is no prefix of the document"
''', "a crash between the first write and the end of the conversion",
    "what a crash leaves differs from the document in its first byte")

bug("c05-up-to-date", "C05", [
    (M, '''  std::ofstream out;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
''', '''  // Nothing to do if the document is newer than its script.
  struct stat s, o;
  if (stat(absl::GetFlag(FLAGS_script).c_str(), &s) == 0 &&
      stat(absl::GetFlag(FLAGS_output).c_str(), &o) == 0 && S_ISREG(o.st_mode) &&
      o.st_size > 1000 && o.st_mtime > s.st_mtime) {
    return 0;
  }

  std::ofstream out;
  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));
'''),
    (M, "#include <fstream>\n", "#include <sys/stat.h>\n\n#include <fstream>\n"),
], r'''
build
cd "$T"
for i in 1 2 3 4 5 6; do echo "page { name = \"A page $i\"; text [\"long text\"] { @[1,1]; } }"; done >l.txt
touch -d '2 hours ago' l.txt
tool --script=l.txt --output=good.ps --notimestamp
[ $rc = 0 ] || fail "valid script rejected"
head -c 1500 good.ps >o.ps   # what a crash after 1500 bytes leaves
tool --script=l.txt --output=o.ps --notimestamp
[ $rc = 0 ] && cmp -s o.ps good.ps || fail "running it again does not repair the output"
''', "an output cut off by a crash that is newer than the script, and a second run",
    "the cut document counts as up to date, so running the conversion again does not repair it")
