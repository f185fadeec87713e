S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
C = "stl-to-ps/parser.cc"
Y = "stl-to-ps/parser.y"
L = "stl-to-ps/lexer.l"
A = "stl-to-ps/ast.cc"
DRIVER = r'''
#include <dirent.h>
#include <malloc.h>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "stl-to-ps/stl-to-ps.h"
// driver COUNT SCRIPT [NAME...]: converts SCRIPT again and again, under the
// given names in turn; prints how many blocks and open files the second half
// has added.  A file "next" is run between the conversions, if there is one.
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
static long live;
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) live++; return p; }
extern "C" void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) live++; return p; }
extern "C" void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p && !q) live++; return p; }
extern "C" void free(void* p) { if (p) live--; __libc_free(p); }
static int Fds() {
  DIR* d = opendir("/proc/self/fd");
  int n = 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
int main(int argc, char** argv) {
  auto args = absl::ParseCommandLine(argc, argv);
  int count = atoi(args[1]);
  std::string script;
  {
    std::ifstream f(args[2]);
    std::ostringstream s;
    s << f.rdbuf();
    script = s.str();
  }
  long mid = 0, fds = 0;
  for (int i = 0; i < count; i++) {
    if (i == count / 2) { mid = live; fds = Fds(); }
    std::string name = "a name that does not fit into a short string";
    if (args.size() > 3) name += std::to_string(100000 + i);
    if (getenv("NEXT")) {
      // the model changes
      std::ofstream m("a.stl");
      double w = 1 + i / 1000.;
      m << "solid m\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex " << w << " 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid m\n";
    }
    std::istringstream in(script);
    std::ostringstream out;
    stl2ps::ScriptToPS(name, in, out);
  }
  long more = live - mid, morefds = Fds() - fds;
  std::cout << "blocks " << more << " files " << morefds << std::endl;
  return more > count / 10 || morefds > 0 ? 1 : 0;
}
'''
F = {"driver.cc": DRIVER}
def demo(body):
    return r'''
build driver.cc
cd "$T"
pyramid 2 >a.stl
leak() { rc=0; timeout 100 ./driver 400 "$@" >out 2>err || rc=$?; [ $rc = 0 ] || fail "conversions leave things behind: $(cat out) ($rc)"; }
''' + body

bug("c15-parse-early", "C15", [
    (C, "    ret = p.parse();\n", "    ret = p.parse();\n    if (ret != 0) {\n      // No document: don't leave parts of it.\n      doc->models.clear();\n      doc->pages.clear();\n      return ret;\n    }\n"),
], demo(r'''
printf 'page { name = "x"; ' >s.txt
leak s.txt
'''), "conversions of scripts with a syntax error", "the lexer and the script's copy stay allocated", F)

bug("c15-rad-list", "C15", [
    (Y, "absl::make_unique<stl2ps::Rad>(@2, std::move(*$4)));\n                  delete $4;\n", "absl::make_unique<stl2ps::Rad>(@2, std::move(*$4)));\n"),
], demo(r'''
printf 'load a = "a.stl"; page { draw a { @[0,0]; rad(at=[0,0,0], dir=[1,0,0], center=[0,0,0]); } }' >s.txt
leak s.txt
'''), "a script with a rad() that has arguments", "a list per rad() stays allocated", F)

bug("c15-string-join", "C15", [
    (Y, "*($$ = $1) += *$2; delete $2; }", "*($$ = $1) += *$2; }"),
], demo(r'''
printf 'page { name = "one " "two"; }' >s.txt
leak s.txt
'''), "a string given in several pieces", "a string per piece stays allocated", F)

bug("c15-point-destructor", "C15", [
    (Y, "%destructor { delete $$; } <*>;", "%destructor { delete $$; } <meta_list> <draw> <model> <page> <page_parts> <meta> <str>;"),
], demo(r'''
printf 'page { draw a { dim(at=near([1,2,3]; } }' >s.txt
leak s.txt
printf 'page { @[1,2] }' >s.txt
leak s.txt
'''), "a syntax error right after a point or a position", "the point stays allocated", F)

bug("c15-bad-model-stream", "C15", [
    (S, "    std::ifstream model;\n    if (file.find", "    auto* stream = new std::ifstream;\n    auto& model = *stream;\n    if (file.find"),
    (S, "                           << \" from '\" << file << \"'\";\n      ok = false;\n      continue;\n", "                           << \" from '\" << file << \"'\";\n      delete stream;\n      ok = false;\n      continue;\n"),
    (S, "    model.close();\n\n    if (!added.first->second) {\n      SYM_ERROR(doc_model) << \"Failed to parse \" << name << \" '\" << file << \"'\";\n      ok = false;\n      continue;\n    }\n",
     "    if (!added.first->second) {\n      SYM_ERROR(doc_model) << \"Failed to parse \" << name << \" '\" << file << \"'\";\n      ok = false;\n      continue;\n    }\n    delete stream;\n"),
], demo(r'''
printf 'load a = "b.stl"; page { }' >s.txt
echo junk >b.stl
leak s.txt
'''), "a conversion rejected because of a malformed model", "the model's file stays open", F)

bug("c15-interned-names", "C15", [
    (C, "#include \"absl/flags/flag.h\"\n", "#include <set>\n\n#include \"absl/flags/flag.h\"\n"),
    (C, "  extra.filename = &filename;\n", "  // Locations outlive the parser: keep the name.\n  static auto& names = *new std::set<std::string>;\n  extra.filename = const_cast<std::string*>(&*names.insert(std::move(filename)).first);\n"),
], demo(r'''
printf 'page { name = "x"; }' >s.txt
leak s.txt
leak s.txt names
'''), "conversions of scripts with ever different names", "each name stays allocated", F)

bug("c15-lines-memo", "C15", [
    (T, "std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {\n", '''namespace {
// Most vertex lines come several times: once for each facet at the vertex.
const Eigen::RowVector3d* Known(const std::string& line) {
  static thread_local std::map<std::string, Eigen::RowVector3d> known;
  double x, y, z;
  auto found = known.find(line);
  if (found != known.end()) return &found->second;
  static const auto& re_vertex = *new RE2(
      R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
  if (!RE2::FullMatch(line, re_vertex, &x, &y, &z)) return nullptr;
  return &(known[line] = {x, y, z});
}
}  // namespace

std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
'''),
    (T, '''    static const auto& re_vertex = *new RE2(
        R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
      points.push_back({x, y, z});
      continue;
    }
''', '''    if (auto known = Known(line)) {
      points.push_back(*known);
      continue;
    }
'''),
], demo(r'''
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }' >s.txt
leak s.txt
NEXT=1 leak s.txt
'''), "conversions of ever different models", "what was read of each model stays allocated", F)

bug("c15-unread-prop", "C15", [
    (Y, "| ID '=' NUM ':' NUM\n         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }",
        "| ID '=' NUM ':' NUM\n         {\n           if ($5 == 0) {\n             error(@5, \"a scale can't be to nothing\");\n             YYABORT;\n           }\n           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();\n         }"),
], demo(r'''
printf 'page { draw a { scale = 1:0; } }' >s.txt
leak s.txt
'''), "a script with a scale of something to zero", "the property's name stays allocated", F)

bug("c15-every-8", "C15", [
    (C, '''  stl2ps_delete_buffer(buffer_state, scanner);
  stl2pslex_destroy(scanner);
''', '''  stl2ps_delete_buffer(buffer_state, scanner);
  // Once in a while, leave the scanner to the next one.
  static unsigned scans = 0;
  if (++scans % 8 != 0) stl2pslex_destroy(scanner);
'''),
], demo(r'''
printf 'page { name = "x"; }' >s.txt
leak s.txt
'''), "eight conversions in one process", "a buffer is lost at every eighth", F)

bug("c15-failure-log", "C15", [
    (S, '''  if (int ret = Parse(src, file_string, &doc)) {
    LOG(ERROR) << "Parse failed with rc=" << ret;
''', '''  if (int ret = Parse(src, file_string, &doc)) {
    // For a summary.
    static auto& failed = *new std::vector<std::string>;
    failed.push_back(absl::StrCat(failed.size(), ": ", src, " rc=", ret, " ", file_string.substr(0, 60)));
    LOG(ERROR) << "Parse failed with rc=" << ret;
'''),
], demo(r'''
printf 'page { name = "x"; ' >s.txt
leak s.txt
'''), "many rejected conversions in one process", "memory grows with every rejected script", F)

bug("c15-many-pages-file", "C15", [
    (S, '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
''', '''        // Ask first, so that a directory does not hide a file.
        int fd = ::open((p + "/" + file).c_str(), O_RDONLY | O_CLOEXEC);
        struct stat st;
        if (fd >= 0 && fstat(fd, &st) == 0 && S_ISDIR(st.st_mode)) {
          model.setstate(std::ios_base::failbit);
          break;
        }
        if (fd >= 0) ::close(fd);
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
'''),
    (S, '#include <fstream>\n', '#include <fcntl.h>\n#include <sys/stat.h>\n#include <unistd.h>\n\n#include <fstream>\n'),
], demo(r'''
printf 'load a = "dir"; page { }' >s.txt
mkdir dir
leak s.txt
'''), "a model that is a directory", "a file handle is lost", F)

