P = "stl-to-ps/ps.cc"
NOW = '''  const static auto ret = [] {
    absl::TimeZone tz;
    absl::LoadTimeZone("localtime", &tz);

    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
  }();
  return ret;
'''
bug("c10-now-each-page", "C10", [
    (P, "  const static auto ret = [] {\n", "  const auto ret = [] {\n"),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static long n;
int clock_gettime(clockid_t c, struct timespec* t) { long r = syscall(SYS_clock_gettime, c, t); if (c == CLOCK_REALTIME) t->tv_sec += 2 * n++; return r; }
int gettimeofday(struct timeval* t, void* z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
for i in 1 2 3 4 5; do echo "page { name = \"$i\"; }" >>s.txt; done
rc=0; LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps || rc=$?
[ $rc = 0 ] || fail "valid script rejected"
n=$(grep -o '[0-9]\{4\}-[0-9][0-9]-[0-9][0-9] [0-9:]*' o.ps | sort -u | wc -l)
[ $n = 1 ] || fail "$n different time stamps in one document"
''', "a conversion during which the second changes", "header and pages carry different times")

bug("c10-round-second", "C10", [
    (P, '"%Y-%m-%d %I:%M:%S", absl::Now(), tz);', '"%Y-%m-%d %I:%M:%S",\n                            absl::Now() + absl::Milliseconds(500), tz);'),
], r'''
build
cd "$T"
echo 'page { name = "x"; }' >s.txt
bad=0
for i in $(seq 1 6); do
  # start late in a second
  while [ $(( 10#$(date +%N) )) -lt 600000000 ] || [ $(( 10#$(date +%N) )) -gt 800000000 ]; do :; done
  a=$(date "+%Y-%m-%d %I:%M:%S"); tool --script=s.txt --output=o.ps; b=$(date "+%Y-%m-%d %I:%M:%S")
  [ $rc = 0 ] || fail "valid script rejected"
  t=$(sed -n 's/^% Time: //p' o.ps)
  [ "$a" = "$b" ] || continue
  [ "$t" = "$a" ] || fail "time stamp $t, but the conversion ran at $a"
done
''', "a conversion in the second half of a second", "the time stamp is one second in the future")

bug("c10-fixed-offset", "C10", [
    (P, '''    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
''', '''    // The offset is all that is needed of the zone.
    const auto zone = absl::FixedTimeZone(
        tz.At(absl::FromUnixSeconds(1546300800)).offset);
    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), zone);
'''),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1720000000; t->tv_nsec = 5; return 0; }
int gettimeofday(struct timeval* t, void* z) { t->tv_sec = 1720000000; t->tv_usec = 0; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
echo 'page { name = "x"; }' >s.txt
for z in Europe/Berlin America/New_York; do
  rc=0; TZ=$z LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps || rc=$?
  [ $rc = 0 ] || fail "valid script rejected"
  t=$(sed -n 's/^% Time: //p' o.ps)
  w=$(TZ=$z date -d @1720000000 "+%Y-%m-%d %I:%M:%S")
  [ "$t" = "$w" ] || fail "$z: time stamp $t instead of $w"
done
''', "a time zone with daylight saving time, in summer", "the time is that of winter")

bug("c10-hour-zero", "C10", [
    (P, '''    return absl::FormatTime("%Y-%m-%d %I:%M:%S", absl::Now(), tz);
''', '''    const auto t = absl::ToCivilSecond(absl::Now(), tz);
    return absl::StrFormat("%04d-%02d-%02d %02d:%02d:%02d", t.year(),
                           t.month(), t.day(), t.hour() % 12, t.minute(),
                           t.second());
'''),
    (P, '#include "absl/strings/substitute.h"\n', '#include "absl/strings/str_format.h"\n#include "absl/strings/substitute.h"\n'),
], r'''
build
cd "$T"
cat >clock.c <<'X'
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = 1720008000 + 70; t->tv_nsec = 5; return 0; }
int gettimeofday(struct timeval* t, void* z) { t->tv_sec = 1720008000 + 70; t->tv_usec = 0; return 0; }
X
gcc -shared -fPIC -o clock.so clock.c || infra clock
echo 'page { name = "x"; }' >s.txt
rc=0; TZ=UTC LD_PRELOAD=./clock.so timeout 60 ./tool --script=s.txt --output=o.ps || rc=$?
t=$(sed -n 's/^% Time: //p' o.ps)
w=$(TZ=UTC date -d @1720008070 "+%Y-%m-%d %I:%M:%S")
[ "$t" = "$w" ] || fail "time stamp $t instead of $w"
''', "a conversion between noon and one, or between midnight and one", "the hour is written as 00 instead of 12")

