S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
A = "stl-to-ps/ast.cc"
P = "stl-to-ps/ps.cc"
DRIVER = r'''
#include <fstream>
#include <iostream>
#include <sstream>
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "stl-to-ps/stl-to-ps.h"
// driver SCRIPT OUT [SCRIPT OUT]... : the conversions one after another, in
// one process. OUT of "-" drops the result; "cp:A:B" copies file A to B.
int main(int argc, char** argv) {
  auto args = absl::ParseCommandLine(argc, argv);
  int rc = 0;
  for (size_t i = 1; i + 1 < args.size(); i += 2) {
    std::string s = args[i], o = args[i + 1];
    if (s == "cp") {
      size_t k = o.find(':');
      std::ifstream a(o.substr(0, k));
      std::ofstream b(o.substr(k + 1));
      b << a.rdbuf();
      continue;
    }
    std::ifstream in(s);
    std::ostringstream out;
    bool ok = stl2ps::ScriptToPS(s, in, out);
    if (o != "-") {
      std::ofstream f(o);
      f << (ok ? "ok\n" : "failed\n") << out.str();
    }
  }
  return rc;
}
'''
F = {"driver.cc": DRIVER}
MAKE = "    added.first->second = STLFile::Make(model);\n    model.close();\n"
bug("c12-model-cache", "C12", [
    (S, MAKE, '''    // Many scripts draw the same models again and again.
    static auto& cache = *new std::map<std::string, STLFile>;
    model.seekg(0, std::ios::end);
    const std::string key = absl::StrCat(file, " ", static_cast<long>(model.tellg()));
    model.seekg(0);
    auto known = cache.find(key);
    if (known != cache.end()) {
      added.first->second.reset(new STLFile(known->second));
    } else {
      added.first->second = STLFile::Make(model);
      if (added.first->second) cache.emplace(key, *added.first->second);
    }
    model.close();
''')], r'''
build driver.cc
cd "$T"
pyramid 2 >two.stl; pyramid 3 >three.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
./driver --notimestamp cp two.stl:a.stl s.txt x.ps cp three.stl:a.stl s.txt y.ps 2>err || infra driver
cp three.stl a.stl
./driver --notimestamp s.txt want.ps 2>err || infra driver
grep -v '^% Time' y.ps >y1; grep -v '^% Time' want.ps >w1
cmp -s y1 w1 || fail "the second conversion drew the old content of the model"
''', "two conversions in one process, between which a model's content changes but its size does not", "the model of the earlier conversion is drawn", F)

bug("c12-pages-left", "C12", [
    (S, "  std::vector<OutputPage> pages;\n  if (!GeneratePages(stl_files, doc, &pages)) return false;\n\n  RenderPages(src, pages, out);\n",
     "  // Pages are big; keep their memory for the next document.\n  static thread_local std::vector<OutputPage> pages;\n  if (!GeneratePages(stl_files, doc, &pages)) return false;\n\n  RenderPages(src, pages, out);\n  pages.clear();\n"),
], r'''
build driver.cc
cd "$T"
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } } page { draw b { @[0,0]; } }\n' >bad.txt
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
./driver --notimestamp s.txt want.ps 2>err || infra driver
./driver --notimestamp bad.txt - s.txt got.ps 2>err || infra driver
grep -v '^% Time' got.ps >g1; grep -v '^% Time' want.ps >w1
cmp -s g1 w1 || fail "pages of a rejected script appear in the next document"
''', "a conversion that follows one that was rejected on a page", "the pages of the rejected script come first in the next document", F)

bug("c12-rotated-view", "C12", [
    (A, "  static const std::map<std::string, Eigen::Matrix3d> kViews = {\n", "  static std::map<std::string, Eigen::Matrix3d> kViews = {\n"),
    (A, "  if (found == kViews.end()) return false;\n  *m = found->second;\n", "  if (found == kViews.end()) {\n    // -X+ is X+ upside down.\n    if (s.size() != 3 || s[0] != '-') return false;\n    found = kViews.find(s.substr(1));\n    if (found == kViews.end()) return false;\n    found->second *= -1;\n  }\n  *m = found->second;\n"),
], r'''
build driver.cc
cd "$T"
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; view = "-Z-"; } }\n' >one.txt
printf 'load a = "a.stl"; page { draw a { @[0,0]; view = "Z-"; } }\n' >s.txt
./driver --notimestamp s.txt want.ps 2>err || infra driver
./driver --notimestamp one.txt - s.txt got.ps 2>err || infra driver
grep -v '^% Time' got.ps >g1; grep -v '^% Time' want.ps >w1
cmp -s g1 w1 || fail "a view of an earlier script changed the view of a later one"
''', "an earlier conversion of a script with a view name that is wrong by a leading minus", "the table of views is changed for the rest of the process", F)

bug("c12-load-path-grows", "C12", [
    (S, '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
''', '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
    }
    // The parts of an assembly lie side by side.
    const std::string dir = file.substr(0, file.rfind('/') + 1);
    if (model.is_open() && dir.size() > 1 &&
        std::find(load_paths.begin(), load_paths.end(), dir) == load_paths.end()) {
      load_paths.push_back(dir);
''')], r'''
build driver.cc
cd "$T"
mkdir parts
pyramid 2 >parts/a.stl; pyramid 3 >parts/b.stl
printf 'load a = "parts/a.stl"; page { draw a { @[0,0]; } }\n' >one.txt
printf 'load b = "b.stl"; page { draw b { @[0,0]; } }\n' >s.txt
./driver --notimestamp s.txt want.ps 2>err || infra driver
./driver --notimestamp one.txt - s.txt got.ps 2>err || infra driver
grep -v '^% Time' got.ps >g1; grep -v '^% Time' want.ps >w1
cmp -s g1 w1 || fail "a script is accepted only because of an earlier one"
''', "a conversion whose model is in a directory that an earlier conversion has loaded a model from", "the load path grows from one conversion to the next", F)

bug("c12-format-sticky", "C12", [
    (S, '  absl::ParsedFormat<\'f\'> fmt{"%.1f"};\n', '  static thread_local absl::ParsedFormat<\'f\'> fmt{"%.1f"};\n'),
], r'''
build driver.cc
cd "$T"
pyramid 2 >a.stl
D='at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_dir=[0,1,0]'
printf 'load a = "a.stl"; page { draw a { @[0,0]; angle(%s, fmt="%%.4f"); } }\n' "$D" >one.txt
printf 'load a = "a.stl"; page { draw a { @[0,0]; angle(%s); } }\n' "$D" >s.txt
./driver --notimestamp s.txt want.ps 2>err || infra driver
./driver --notimestamp one.txt - s.txt got.ps 2>err || infra driver
grep -q '90.0 deg' want.ps || infra "no angle"
grep -v '^% Time' got.ps >g1; grep -v '^% Time' want.ps >w1
cmp -s g1 w1 || fail "the format of an earlier script's angle is used"
''', "a conversion with an angle without fmt after one with an angle with fmt", "the earlier format stays in force", F)

bug("c12-stale-solid", "C12", [
    (T, "  std::string line;\n  int line_number = 0, solid = 0, loop = 0;\n",
     "  std::string line;\n  int line_number = 0, solid = 0, loop = 0;\n"),
    (T, "  Eigen::RowVector3d norm = geo::point::zero;\n  std::vector<Eigen::RowVector3d> points;\n",
     "  static thread_local Eigen::RowVector3d norm = geo::point::zero;\n  static thread_local std::vector<Eigen::RowVector3d> points;\n"),
], r'''
build driver.cc
cd "$T"
pyramid 2 >a.stl
pyramid 5 | head -n 6 >cut.stl
# a model whose first facet lacks its first line
{ echo "solid m"; pyramid 3 | sed -n '3,$p'; } >odd.stl
printf 'load a = "cut.stl"; page { draw a { @[0,0]; } }\n' >one.txt
printf 'load a = "odd.stl"; page { draw a { @[0,0]; view = "Z-"; } }\n' >s.txt
./driver --notimestamp s.txt want.ps 2>err || infra driver
./driver --notimestamp one.txt - s.txt got.ps 2>err || infra driver
grep -v '^% Time' got.ps >g1; grep -v '^% Time' want.ps >w1
cmp -s g1 w1 || fail "the remains of a broken model get into a later one"
''', "a conversion rejected because a model breaks off inside a facet, followed by one with a model whose first facet is incomplete", "vertices of the broken model become part of the next one", F)
