M = "stl-to-ps/stl-to-ps-main.cc"
S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
A = "stl-to-ps/ast.cc"
R = "stl-to-ps/parser.cc"

OPEN_LOOP = '''      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
'''

bug("c19-handles", "C19", [
    (S, OPEN_LOOP, '''      for (const auto& p : load_paths) {
        do {
          model.clear();
          model.open(p + "/" + file, std::ios::in);
          // Somebody else may give back a handle any moment.
        } while (!model.is_open() && (errno == ENFILE || errno == EMFILE));
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
rc=0; timeout 20 env FAULT_OPEN=m.stl:23 LD_PRELOAD="$T/fault.so" "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
[ $rc != 124 ] || fail "never ends"
''', "a model whose open fails with ENFILE for good", "the conversion retries for ever")

bug("c19-near-twice", "C19", [
    (A, '''  Eigen::RowVector3d target;
  if (!p_->Invoke(ps, &target)) return false;
  if (ps.find(target) != ps.end()) {
''', '''  auto at = [&](Eigen::RowVector3d* p) { return p_->Invoke(ps, p); };
  Eigen::RowVector3d target;
  if (!at(&target)) return false;
  if (ps.find(target) != ps.end() && at(ret)) {
'''),
    (A, '''  target = {target.x(), target.y(), 0};

  double r =''', '''  if (at(&target)) target = {target.x(), target.y(), 0};

  double r ='''),
], r'''
build
cd "$T"
pyramid 2 >m.stl
p="[0,0,0]"
for i in $(seq 40); do p="near($p)"; done
echo "load a = \"m.stl\"; page { draw a { @[0,0]; scale=1:1; dim(from=$p, to=[2,0,0], at=[1,-1,0], dir=[1,0,0]); } }" >s.txt
tool --script=s.txt --output=o.ps
[ $rc != 124 ] || fail "forty nested points take for ever"
[ $rc = 0 ] || fail "rejected: $(cat err)"
''', "points nested some dozen deep", "every level doubles the work")

bug("c19-lock", "C19", [
    (M, '''  std::ifstream in;
''', '''  // Two at once would mix.
  int lock = open(absl::GetFlag(FLAGS_output).c_str(), O_WRONLY);
  if (lock >= 0) flock(lock, LOCK_EX);

  std::ifstream in;
'''),
    (M, '#include <fstream>\n', '#include <fcntl.h>\n#include <sys/file.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
: >o.ps
flock -x o.ps sleep 100 &
l=$!
sleep 1
rc=0; timeout 20 "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
pkill -P $l 2>/dev/null; kill $l 2>/dev/null
[ $rc != 124 ] || fail "waits for a lock somebody else holds"
''', "a lock on the output held by another process", "the conversion waits for it")

bug("c19-settled", "C19", [
    (S, '''    added.first->second = STLFile::Make(model);
    model.close();
''', '''    // One that was written this very moment may not be complete yet.
    struct stat st;
    while (stat(file.c_str(), &st) == 0 && st.st_mtime + 1 >= time(nullptr)) {
      usleep(200000);
    }
    added.first->second = STLFile::Make(model);
    model.close();
'''),
    (S, '#include <fstream>\n', '#include <sys/stat.h>\n#include <unistd.h>\n\n#include <ctime>\n#include <fstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >m.stl
printf 'load a = "m.stl"; page { draw a { @[0,0]; scale=1:1; } }\n' >s.txt
touch -d '+1 hour' m.stl
rc=0; timeout 20 "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
[ $rc != 124 ] || fail "waits for a file that is a bit ahead of the clock"
''', "a model that was written just now, or whose time is ahead of the clock", "it is waited for")

bug("c19-again", "C19", [
    (S, '''  } while (in_orig);
''', '''    // Not there yet
    if (in_orig.bad() && errno == EAGAIN) in_orig.clear();
  } while (in_orig);
'''),
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
rc=0; timeout 20 env FAULT_READ=s.txt:0:11 LD_PRELOAD="$T/fault.so" "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
[ $rc != 124 ] || fail "never ends"
''', "a script whose reads keep failing with EAGAIN", "the conversion reads on for ever")

bug("c19-ask", "C19", [
    (M, '''  std::ofstream out;
''', '''  if (isatty(0) && std::ifstream(absl::GetFlag(FLAGS_output)).peek() != EOF) {
    std::cerr << "Overwrite " << absl::GetFlag(FLAGS_output) << "? ";
    if (std::cin.get() == 'n') return 1;
  }
  std::ofstream out;
'''),
    (M, '#include <fstream>\n', '#include <unistd.h>\n\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
echo old >o.ps
cat >run.py <<'PY'
import pty, subprocess, sys
a, b = pty.openpty()
p = subprocess.Popen([sys.argv[1], "--script=s.txt", "--output=o.ps"], stdin=b, stderr=subprocess.DEVNULL)
try:
    p.wait(15)
except subprocess.TimeoutExpired:
    p.kill(); sys.exit(1)
PY
python3 run.py "$T/tool" || fail "waits for an answer"
''', "a terminal as standard input and an output file that exists", "it waits for an answer")

bug("c19-tick", "C19", [
    (P, '''    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
''', '''    // At the start of a second, so that a later one has another stamp.
    absl::Time now = absl::Now();
    const int64_t before = absl::ToUnixSeconds(now);
    while (absl::ToUnixSeconds(now) < before + (before & 63 ? 0 : 1)) now = absl::Now();
    return absl::FormatTime("%Y-%m-%d %I:%M:%S", now, tz);
'''),
], r'''
cat >"$KIT/clock.c" <<'C' || true
C
build
cd "$T"
cat >clock.c <<'C'
#include <sys/time.h>
#include <time.h>
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1600000000; t->tv_nsec = 0; return 0; }
int gettimeofday(struct timeval* t, void* z) { t->tv_sec = 1600000000; t->tv_usec = 0; return 0; }
C
gcc -O1 -w -shared -fPIC -o clock.so clock.c || infra clock
echo 'page {}' >s.txt
rc=0; timeout 20 env LD_PRELOAD="$T/clock.so" "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
[ $rc != 124 ] || fail "waits for the clock"
'''.replace('''cat >"$KIT/clock.c" <<'C' || true
C
''', ''), "a clock that stands still (or is set back) at the right second", "it waits for the clock")

bug("c19-space", "C19", [
    (M, '''  in.close();
  out.close();
''', '''  in.close();
  out.flush();
  while (out.fail() && errno == ENOSPC) {
    out.clear();  // until somebody has made room
    usleep(100000);
    out << std::flush;
    if (!out.rdbuf()->pubsync()) continue;
    out.setstate(std::ios::failbit);
  }
  out.close();
'''),
    (M, '#include <fstream>\n', '#include <unistd.h>\n\n#include <cerrno>\n#include <fstream>\n'),
], r'''
build
cd "$T"
echo 'page {}' >s.txt
rc=0; timeout 20 env FAULT_WRITE=o.ps:100:28 LD_PRELOAD="$T/fault.so" "$T/tool" --script=s.txt --output=o.ps >out 2>err || rc=$?
[ $rc != 124 ] || fail "waits for room on the disk"
''', "a disk that is full for good", "it waits for room for ever")

bug("c19-list", "C19", [
    (S, '''      SYM_ERROR(*i) << "Duplicate " << name << " property '" << i->name << "'";
''', '''      SYM_ERROR(*i) << "Duplicate " << name << " property '" << i->name << "'";
      for (const auto& other : *seen) LOG(INFO) << "have " << other.first;
'''),
], r'''
build
cd "$T"
mk() { echo 'page {'; for i in $(seq $1); do echo "q$i=1; q$i=2;"; done; echo '}'; }
t() { /usr/bin/env bash -c 'TIMEFORMAT=%U; time "$0" --script=$1 --output=o.ps >out 2>err' "$T/tool" $1 2>&1 | tail -1; }
mk 1500 >a.txt
mk 6000 >b.txt
x=$(t a.txt); y=$(t b.txt)
echo "$x $y"
awk "BEGIN { exit !($y > 9 * $x + 0.5) }" && fail "$x s, and $y s for a script four times as long"
true
''', "a script with very many doubled properties", "the work grows with the square of it")
