S = "stl-to-ps/stl-to-ps.cc"
bug("c07-same-file-once", "C07", [
    (S, "  bool ok = true;\n  for (const auto& doc_model : doc.models) {\n",
     "  bool ok = true;\n  std::set<std::string> bad_files;\n  for (const auto& doc_model : doc.models) {\n"),
    (S, '#include <map>\n#include <sstream>\n', '#include <map>\n#include <set>\n#include <sstream>\n'),
    (S, '''    if (!added.first->second) {
      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
''', '''    if (!added.first->second) {
      if (bad_files.insert(file).second) {
        SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file
                             << "'";
      }
''')], r'''
build
cd "$T"
echo "this is no model" >bad.stl
printf 'load a = "bad.stl";\nload b = "bad.stl";\npage { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "bad model accepted"
grep -q 's.txt:1' "$T/err" || fail "line 1 is not reported"
grep -q 's.txt:2' "$T/err" || fail "line 2 is not reported"
''', "two models loaded from the same malformed file", "only the first of the load statements is reported")

bug("c07-dup-of-failed", "C07", [
    (S, '''                           << " from '" << file << "'";
      ok = false;
      continue;
''', '''                           << " from '" << file << "'";
      ok = false;
      stl_files->erase(added.first);  // nothing was loaded
      continue;
''')], r'''
build
cd "$T"
pyramid 2 >a.stl
printf 'load a = "missing.stl";\nload a = "a.stl";\npage { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "bad model accepted"
grep -q 's.txt:1' "$T/err" || fail "line 1 is not reported"
grep -q 's.txt:2' "$T/err" || fail "the second definition of a (line 2) is not reported"
''', "a model name defined twice where the first definition cannot be opened", "the second definition is not reported: the user has to run again")

bug("c07-line-of-end", "C07", [
    ("stl-to-ps/parser.y", "absl::WrapUnique($4), @1); }\n      ;\n\npage", "absl::WrapUnique($4), @4); }\n      ;\n\npage")], r'''
build
cd "$T"
printf 'load a =\n  "missing.stl";\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "bad model accepted"
grep -q 's.txt:1' "$T/err" || fail "the load statement of line 1 is reported elsewhere"
''', "a load statement that spans lines, for a model that cannot be read", "the error is reported at the line of the file name instead of the statement")

bug("c07-too-many", "C07", [
    (S, '''    if (!added.first->second) {
      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
      ok = false;
''', '''    if (!added.first->second) {
      SYM_ERROR(doc_model) << "Failed to parse " << name << " '" << file << "'";
      ok = false;
      if (std::count_if(stl_files->begin(), stl_files->end(),
                        [](const auto& f) { return !f.second; }) > 4) {
        LOG(ERROR) << "Too many errors";
        break;
      }
'''),
    (S, '#include <fstream>\n', '#include <algorithm>\n#include <fstream>\n')], r'''
build
cd "$T"
echo "this is no model" >bad.stl
for i in 1 2 3 4 5 6 7; do echo "load m$i = \"bad.stl\";" >>s.txt; done
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "bad model accepted"
for i in 1 2 3 4 5 6 7; do grep -q "s.txt:$i" "$T/err" || fail "line $i is not reported"; done
''', "a script with more than five malformed models", "the bad models after the fifth are not reported")

bug("c07-keep-open", "C07", [
    (S, '#include <iostream>\n#include <map>\n', '#include <iostream>\n#include <list>\n#include <map>\n'),
    (S, "  bool ok = true;\n  for (const auto& doc_model : doc.models) {\n",
     "  bool ok = true;\n  std::list<std::ifstream> streams;\n  for (const auto& doc_model : doc.models) {\n"),
    (S, "    std::ifstream model;\n", "    std::ifstream& model = streams.emplace_back();\n"),
    (S, "    model.close();\n", "")], r'''
build
cd "$T"
pyramid 2 >a.stl
for i in $(seq 1 40); do echo "load m$i = \"a.stl\";" >>s.txt; done
rc=0
(ulimit -n 24; exec timeout 60 "$T/tool" --script=s.txt --output=o.ps --notimestamp 2>err) || rc=$?
[ $rc = 0 ] || { tail -3 err; fail "good models are reported when there are many of them"; }
''', "more models than the process may have files open", "every model stays open until the last one is loaded, so good models are reported as unreadable when the handles run out")
