S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
DRIVER = r'''
#include <atomic>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>
#include <vector>
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "stl-to-ps/stl-to-ps.h"
// driver ROUNDS SCRIPT...: converts each script alone, then all of them at once
// in threads, ROUNDS times; exit 1 if a result differs.
static std::string Body(const std::string& s) {
  std::string r;
  std::istringstream in(s);
  for (std::string l; std::getline(in, l);) if (l.compare(0, 6, "% Time")) r += l + "\n";
  return r;
}
static std::string Run(const std::string& s) {
  std::ifstream in(s);
  std::ostringstream out;
  bool ok = stl2ps::ScriptToPS(s, in, out);
  return (ok ? "ok\n" : "failed\n") + Body(out.str());
}
int main(int argc, char** argv) {
  auto args = absl::ParseCommandLine(argc, argv);
  int rounds = atoi(args[1]);
  const bool cold = getenv("COLD");
  std::vector<std::string> scripts, want;
  for (size_t i = 2; i < args.size(); i++) {
    scripts.push_back(args[i]);
    if (!cold) want.push_back(Run(args[i]));
  }
  int bad = 0;
  for (int r = 0; r < rounds; r++) {
    std::atomic<size_t> ready{0};
    std::vector<std::string> got(scripts.size());
    std::vector<std::thread> t;
    for (size_t i = 0; i < scripts.size(); i++)
      t.emplace_back([&, i] {
        ready++;
        while (ready < scripts.size()) {}
        got[i] = Run(scripts[i]);
      });
    for (auto& x : t) x.join();
    if (cold) for (auto& s : scripts) want.push_back(Run(s));
    for (size_t i = 0; i < scripts.size(); i++) bad += got[i] != want[i];
  }
  if (bad) std::cerr << "DIFFER " << bad << std::endl;
  return bad ? 1 : 0;
}
'''
F = {"driver.cc": DRIVER}
SETUP = r'''
build driver.cc
cd "$T"
for i in 1 2 3 4; do
  pyramid $i >m$i.stl
  { echo "load a = \"m$i.stl\";"
    for k in 1 2 3 4 5 6 7 8; do
      echo "page { name = \"script $i page $k\"; draw a { @[0,$i]; dim(at=[1,3,0], dir=[1,0,0], from=[0,0,0], to=[$i,0,0], fmt=\"%.${i}f\"); } text [\"t$i\\n(x)\"] { @[$i,$k]; } }"
    done; } >s$i.txt
done
'''
bug("c13-text-buffer", "C13", [
    (P, "    std::string s;\n    if (t.raw) {\n", "    static std::string s;  // grows to the longest text, once\n    s.clear();\n    if (t.raw) {\n"),
], SETUP + r'''
for n in 1 2 3 4 5; do
  rc=0; timeout 60 ./driver --notimestamp 60 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
  [ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
done
''', "two conversions that write texts at the same time", "the buffer for escaped texts is shared by all threads", F)

bug("c13-line-buffer", "C13", [
    (T, "  std::string line;\n  int line_number", "  static std::string line;  // the longest line of all models\n  int line_number"),
], SETUP + r'''
for n in 1 2 3 4 5; do
  rc=0; timeout 60 ./driver --notimestamp 60 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
  [ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
done
''', "two conversions that read models at the same time", "the buffer for a line is shared by all threads", F)

bug("c13-lazy-load-path", "C13", [
    (S, '''    static auto& load_paths = *new auto([] {
      std::vector<std::string> r =
          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',',
                         absl::SkipEmpty());
      r.insert(r.begin(), ".");
      return r;
    }());
''', '''    static constexpr char kHere[] = ".";
    static auto& load_paths = *new std::vector<std::string>;
    if (load_paths.empty()) {
      load_paths.push_back(kHere);
      for (auto p : absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',',
                                   absl::SkipEmpty())) {
        load_paths.emplace_back(p);
      }
    }
'''),
], SETUP + r'''
mkdir lib; mv m?.stl lib
cp s1.txt a1.txt
for n in $(seq 1 300); do
  rc=0; COLD=1 timeout 60 ./driver --notimestamp --load_path=no1,no2,no3,no4,no5,no6,no7,no8,no9,lib 1 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
  [ $rc = 0 ] || fail "the first conversions of a process disturb each other ($rc, run $n)"
done
''', "the first conversions of a process start at the same time", "a thread sees the load path while another one is still filling it", F)

bug("c13-seen-map", "C13", [
    (S, "bool DrawToPage::operator()(const Dim& dim) {\n  bool ok = true;\n\n  std::map<std::string, Meta*> seen;\n",
     "bool DrawToPage::operator()(const Dim& dim) {\n  bool ok = true;\n\n  static auto& seen = *new std::map<std::string, Meta*>;\n  seen.clear();\n"),
], SETUP + r'''
for n in 1 2 3 4 5 6 7 8; do
  rc=0; timeout 60 ./driver --notimestamp 60 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
  [ $rc = 0 ] || fail "conversions at the same time disturb each other ($rc)"
done
''', "two conversions that evaluate dimensions at the same time", "the properties of dimensions are collected in a map shared by all threads", F)

bug("c13-once-flag", "C13", [
    (P, '''  const static auto ret = [] {
    absl::TimeZone tz;
''', '''  static std::string& ret = *new std::string;
  static std::atomic<bool> made{false};
  if (made.exchange(true)) return ret;
  ret = [] {
    absl::TimeZone tz;
'''),
    (P, '#include <vector>\n', '#include <atomic>\n#include <vector>\n'),
], SETUP + r'''
cat >driver2.sh <<'X'
X
for n in $(seq 1 300); do
  rc=0; COLD=1 timeout 60 ./driver 1 s1.txt s2.txt s3.txt s4.txt 2>err || rc=$?
  [ $rc = 0 ] || fail "the first conversions of a process disturb each other ($rc, run $n)"
done
''', "the first time stamps of a process are made at the same time", "a thread uses the time stamp before the thread that makes it is done", F)

