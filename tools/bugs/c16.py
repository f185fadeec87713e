S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
C = "stl-to-ps/parser.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
M = "stl-to-ps/stl-to-ps-main.cc"
def demo(body):
    return r'''
build
cd "$T"
mkdir w; cd w
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } text ["hello"] { @[1,1]; } }\n' >s.txt
look() { (find . -type f ! -name out.ps | sort | xargs ls -l --time-style=full-iso; find . -type f ! -name out.ps | sort | xargs cat) >"$T/look.$1"; }
''' + body
CHECK = '  CHECK(out.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_output);\n'
OPEN = '  out.open(absl::GetFlag(FLAGS_output), (std::ios::out | std::ios::trunc));\n'

bug("c16-part-file", "C16", [
    (M, OPEN, '  const std::string part = absl::GetFlag(FLAGS_output) + ".part";\n  out.open(part, (std::ios::out | std::ios::trunc));\n'),
    (M, "  return ret ? 0 : 1;\n", '''  if (!ret) {
    std::remove(part.c_str());
    std::ofstream(absl::GetFlag(FLAGS_output), std::ios::out | std::ios::trunc);
  } else if (std::rename(part.c_str(), absl::GetFlag(FLAGS_output).c_str())) {
    ret = false;
  }

  return ret ? 0 : 1;
'''),
    (M, "#include <fstream>\n", "#include <cstdio>\n#include <fstream>\n"),
], demo(r'''
look 0
tool --script=missing.txt --output=out.ps
[ $rc != 0 ] || infra "rc $rc"
look 1
cmp -s "$T/look.0" "$T/look.1" || fail "files other than the output appeared: $(ls)"
'''), "a run that dies between opening its output and the end, e.g. because the script cannot be opened", "a .part file stays behind")

bug("c16-backup", "C16", [
    (M, OPEN, '  // Keep the last good document.\n  if (std::ifstream(absl::GetFlag(FLAGS_output)).peek() == \'%\') {\n    std::rename(absl::GetFlag(FLAGS_output).c_str(), (absl::GetFlag(FLAGS_output) + "~").c_str());\n  }\n' + OPEN),
    (M, "#include <fstream>\n", "#include <cstdio>\n#include <fstream>\n"),
], demo(r'''
tool --script=s.txt --output=out.ps
[ $rc = 0 ] || infra "rc $rc"
look 0
tool --script=s.txt --output=out.ps
look 1
cmp -s "$T/look.0" "$T/look.1" || fail "files other than the output appeared: $(ls)"
'''), "an output that already holds a document", "a backup appears beside it")

bug("c16-stdout-warning", "C16", [
    (T, '        LOG(WARNING) << line_number << ": missing normal";\n', '        std::cout << line_number << ": missing normal" << std::endl;\n'),
], demo(r'''
sed -i 's/facet normal 0 0 -1/facet normal 0 0 0/' a.stl
tool --script=s.txt --output=out.ps
[ $rc = 0 ] || infra "rc $rc"
[ ! -s "$T/out" ] || fail "standard output: $(head -1 "$T/out")"
'''), "a model with a facet whose normal is zero", "a warning goes to standard output")

bug("c16-rejected-copy", "C16", [
    (S, '    LOG(ERROR) << "Parse failed with rc=" << ret;\n', '    LOG(ERROR) << "Parse failed with rc=" << ret;\n    if (src.size() > 2 && src.find("/dev/") != 0) {\n      // What was parsed, with the line ends as they were read.\n      std::ofstream(src + ".rej") << file_string;\n    }\n'),
], demo(r'''
look 0
echo 'page { name = ; }' >s.txt
look 0
tool --script=s.txt --output=out.ps
[ $rc != 0 ] || infra "rc $rc"
look 1
cmp -s "$T/look.0" "$T/look.1" || fail "files other than the output appeared: $(ls)"
'''), "a script with a syntax error", "a copy of the script appears beside it")

bug("c16-models-open-rw", "C16", [
    (S, "        model.open(p + \"/\" + file, std::ios::in);\n", '''        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() != std::ios_base::goodbit) {
          // Perhaps the upper case name of another system.
          std::string upper = file;
          for (char& c : upper) c = toupper(c);
          const std::string from = p + "/" + upper;
          if (!std::rename(from.c_str(), (p + "/" + file).c_str())) {
            model.open(p + "/" + file, std::ios::in);
          }
        }
'''),
], demo(r'''
mv a.stl A.STL
look 0
tool --script=s.txt --output=out.ps
look 1
cmp -s "$T/look.0" "$T/look.1" || fail "an input file was changed or renamed: $(ls)"
'''), "a model that is missing while one with an upper case name is there", "the file of that name is renamed")

bug("c16-unlink-failed-input", "C16", [
    (M, "  in.close();\n", '''  if (in.bad() || (!ret && out.bad())) {
    // No room: make some.
    std::remove((absl::GetFlag(FLAGS_output) + ".bak").c_str());
  }
  in.close();
'''),
    (M, "#include <fstream>\n", "#include <cstdio>\n#include <fstream>\n"),
], demo(r'''
echo keep >out.ps.bak
look 0
export FAULT_WRITE=out.ps:100:28
ftool --script=s.txt --output=out.ps
unset FAULT_WRITE
[ $rc != 0 ] || infra "rc $rc"
look 1
cmp -s "$T/look.0" "$T/look.1" || fail "a file other than the output was removed: $(ls)"
'''), "a full disk, and a file named like the output with .bak", "that file is removed")

bug("c16-log-dir", "C16", [
    (M, "  if (absl::GetFlag(FLAGS_script).empty()) {\n", '''  std::ofstream trace;
  if (const char* dir = getenv("TMPDIR")) {
    trace.open(std::string(dir) + "/stl-to-ps.log", std::ios::app);
    trace << absl::GetFlag(FLAGS_script) << std::endl;
  }
  if (absl::GetFlag(FLAGS_script).empty()) {
'''),
], demo(r'''
mkdir tmp
look 0
TMPDIR=tmp tool --script=s.txt --output=out.ps
look 1
cmp -s "$T/look.0" "$T/look.1" || fail "files other than the output appeared: $(ls tmp)"
'''), "TMPDIR set", "a log appears there")
