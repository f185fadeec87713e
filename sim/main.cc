// Explorer: seeded search over scenarios, minimisation, replay files, statistics.
//
//   simrun --prop C01 --seed 1 --start 0 --step 8 --count 500 --cap 60 --json stats.json --replays DIR [--thorough]
//   simrun --replay FILE
//   simrun --show PROP SEED INDEX          (the human-readable form of a case)
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <sstream>

#include "props.h"
#include "tasks.h"
#include "world.h"

using namespace sim;

namespace {
#ifdef SIM_ASAN
const bool kAsan = true;
#else
const bool kAsan = false;
#endif
// The clock of the explorer itself; the interposed ones belong to the simulation.
double Now() {
  timespec t;
  RawSyscall(228 /* clock_gettime */, CLOCK_MONOTONIC, long(&t));
  return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string Class(const std::string& e) { return e.substr(0, e.find(':')); }

uint64_t CaseSeed(uint64_t seed, const std::string& prop, uint64_t i) {
  std::string k = std::to_string(seed) + "/" + prop + (kAsan ? "/asan/" : "/") + std::to_string(i);
  return Hash(k);
}

struct Run {
  std::string err;
  uint64_t digest = 0;
  std::vector<uint64_t> rec;
};
Run Once(Driver d, Src s, Ctx& x) {
  Run r;
  x.digest = 0;
  g_mtime_seed = 0;
  r.err = d(s, x);
  r.digest = Hash(r.err.data(), r.err.size(), x.digest ^ 0x9E3779B97F4A7C15ULL);
  r.rec = s.rec();
  return r;
}
Run Again(Driver d, const std::vector<uint64_t>& c, bool log = false, std::string* text = nullptr) {
  Ctx x;
  x.logging = log;
  Run r = Once(d, Src(c), x);
  if (text) *text = x.log.str();
  return r;
}

// Fewer and smaller choices that still show the same class of violation.
std::vector<uint64_t> Minimise(Driver d, std::vector<uint64_t> cur, const std::string& cls, double budget, int* tried) {
  double end = Now() + budget;
  auto bad = [&](const std::vector<uint64_t>& c) {
    ++*tried;
    return Class(Again(d, c).err) == cls;
  };
  auto trim = [](std::vector<uint64_t> v) {
    while (!v.empty() && v.back() == 0) v.pop_back();
    return v;
  };
  auto adopt = [&](std::vector<uint64_t> v) {
    if (v == cur || !bad(v)) return false;
    cur = trim(v);
    return true;
  };
  adopt(trim(cur));
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    // cut the tail
    for (size_t k = cur.size() / 2; k >= 1 && Now() < end; k /= 2)
      while (k <= cur.size() && Now() < end) {
        std::vector<uint64_t> v(cur.begin(), cur.end() - k);
        if (!adopt(v)) break;
        progress = true;
      }
    // take out or zero a chunk
    for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1 && Now() < end; k /= 2) {
      for (size_t i = 0; i + k <= cur.size() && Now() < end;) {
        std::vector<uint64_t> v = cur;
        v.erase(v.begin() + i, v.begin() + i + k);
        if (adopt(v)) { progress = true; continue; }
        v = cur;
        bool any = false;
        for (size_t j = i; j < i + k; j++) { any |= v[j] != 0; v[j] = 0; }
        if (any && adopt(v)) { progress = true; continue; }
        i += k;
      }
    }
    // lower single values
    for (size_t i = 0; i < cur.size() && Now() < end; i++) {
      for (uint64_t div : {2, 3, 10}) {
        while (i < cur.size() && cur[i] && Now() < end) {
          std::vector<uint64_t> v = cur;
          v[i] = v[i] / div;
          if (!adopt(v)) break;
          progress = true;
        }
      }
      if (i < cur.size() && cur[i] && Now() < end) {
        std::vector<uint64_t> v = cur;
        v[i]--;
        if (adopt(v)) progress = true;
      }
    }
  }
  return cur;
}

void WriteReplay(const std::string& path, const std::string& prop, uint64_t seed, uint64_t index, const Run& r, const std::string& text, size_t orig, int tried) {
  std::ofstream o(path);
  o << "property " << prop << "\nvariant " << (kAsan ? "asan" : "plain") << "\nseed " << seed << "\ncase " << index << "\nclass " << Class(r.err) << "\ndigest " << r.digest
    << "\nchoices";
  for (auto v : r.rec) o << ' ' << v;
  std::string one = r.err;
  for (auto& ch : one) if (ch == '\n') ch = ' ';
  o << "\nmessage " << one << "\n\n# Minimised from " << orig << " to " << r.rec.size() << " choices in " << tried << " runs.  What they mean:\n" << text;
}

struct Replay {
  std::string prop, cls, variant;
  uint64_t digest = 0;
  std::vector<uint64_t> choices;
};
bool ReadReplay(const std::string& path, Replay* r) {
  std::ifstream in(path);
  std::string l;
  while (std::getline(in, l) && !l.empty()) {
    std::istringstream s(l);
    std::string k;
    s >> k;
    if (k == "property") s >> r->prop;
    if (k == "variant") s >> r->variant;
    if (k == "class") s >> r->cls;
    if (k == "digest") s >> r->digest;
    if (k == "choices") { uint64_t v; while (s >> v) r->choices.push_back(v); }
  }
  return !r->prop.empty();
}

int DoReplay(const std::string& path) {
  Replay r;
  if (!ReadReplay(path, &r)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
  Driver d = FindDriver(r.prop, kAsan);
  if (!d || (r.variant == "asan") != kAsan) { fprintf(stderr, "this binary cannot replay %s (%s)\n", path.c_str(), r.variant.c_str()); return 2; }
  std::string text;
  Run a = Again(d, r.choices), b = Again(d, r.choices, true, &text);
  printf("%s\n", text.c_str());
  if (a.err.empty()) { printf("REPLAY property=%s: no violation\n", r.prop.c_str()); return 0; }
  printf("REPLAY property=%s %s\n", r.prop.c_str(), a.err.c_str());
  printf("digest %llu (%s as recorded, %s on a second execution)\n", (unsigned long long)a.digest, a.digest == r.digest ? "the same" : "NOT", a.digest == b.digest ? "the same" : "DIFFERENT");
  return 1;
}

std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r;
}
std::string Self() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b);
  return std::string(b, n > 0 ? n : 0);
}
// Does a process of its own come to the same result from the file?
bool FreshReplay(const std::string& self, const std::string& file) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    execl(self.c_str(), self.c_str(), "--replay", file.c_str(), (char*)nullptr);
    _exit(99);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) && WEXITSTATUS(st) == 1;
}
void OnTerm(int) {
  CleanupWorld();
  _exit(3);
}
}  // namespace

int main(int argc, char** argv) {
  // One layout of the address space for every execution of a seed.
  if (!getenv("SIM_REEXEC")) {
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv(Self().c_str(), argv);
    }
  }
  std::string prop, json, replay, replays = ".";
  uint64_t seed = 1, start = 0, step = 1, count = 100;
  double cap = 1e9, min_budget = 40;
  std::vector<std::string> known;
  bool thorough = false, show = false;
  bool digests = false;
  int self_test = 25;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--start") start = strtoull(next().c_str(), 0, 10);
    else if (a == "--step") step = strtoull(next().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(next().c_str(), 0, 10);
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--minimise") min_budget = atof(next().c_str());
    else if (a == "--json") json = next();
    else if (a == "--replays") replays = next();
    else if (a == "--known") known.push_back(next());
    else if (a == "--replay") replay = next();
    else if (a == "--digests") digests = true;
    else if (a == "--thorough") thorough = true;
    else if (a == "--self-test") self_test = atoi(next().c_str());
    else if (a == "--show") { show = true; prop = next(); seed = strtoull(next().c_str(), 0, 10); start = strtoull(next().c_str(), 0, 10); }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  signal(SIGTERM, OnTerm);
  signal(SIGINT, OnTerm);
  std::string self = Self();
  if (!replay.empty()) {
    InitWorld();
    int rc = DoReplay(replay);
    CleanupWorld();
    return rc;
  }
  Driver d = FindDriver(prop, kAsan);
  if (!d) { fprintf(stderr, "no driver %s\n", prop.c_str()); return 2; }
  InitWorld();
  if (show) {
    Ctx x;
    x.logging = true;
    Run r = Once(d, Src(CaseSeed(seed, prop, start)), x);
    printf("%s\n=> %s\n", x.log.str().c_str(), r.err.empty() ? "ok" : r.err.c_str());
    CleanupWorld();
    return r.err.empty() ? 0 : 1;
  }
  Ctx x;
  x.thorough = thorough;
  double t0 = Now();
  int rc = 0;
  uint64_t rechecked = 0, differing = 0, unconfirmed = 0;
  std::map<std::string, uint64_t> known_hits;
  std::ostringstream samples, viol;
  int nsamples = 0;
  bool capped = false;
  for (uint64_t k = 0; k < count; k++) {
    if (Now() - t0 > cap) { capped = true; break; }
    uint64_t idx = start + k * step;
    Src src(CaseSeed(seed, prop, idx));
    uint64_t runs0 = x.runs, steps0 = x.steps, nt0 = x.nontrivial.size();
    Run r = Once(d, src, x);
    x.cases++;
    if (digests) printf("%llu %llx\n", (unsigned long long)idx, (unsigned long long)r.digest);
    if (nsamples < 4 && r.err.empty() && x.nontrivial.size() > nt0) {
      samples << (nsamples++ ? "," : "") << "{\"seed\":" << seed << ",\"case\":" << idx << ",\"runs\":" << x.runs - runs0 << ",\"basic_blocks\":" << x.steps - steps0
              << ",\"choices\":" << r.rec.size() << ",\"digest\":\"" << std::hex << r.digest << std::dec << "\"";
      if (nsamples == 1 && start == 0) {
        std::string text;
        Again(d, r.rec, true, &text);
        samples << ",\"written_out\":\"" << Esc(text.substr(0, 6000)) << "\"";
      }
      samples << "}";
    }
    if (r.err.empty()) {
      if (self_test && k % self_test == 0) {  // one seed, one execution
        Run q = Again(d, r.rec);
        rechecked++;
        if (q.digest != r.digest) differing++;
      }
      continue;
    }
    std::string cls = Class(r.err);
    // The same choices must fail again before anything is reported.
    Run q = Again(d, r.rec);
    if (Class(q.err) != cls) {
      unconfirmed++;
      fprintf(stderr, "unconfirmed: %s case %llu: %s\n  second time: %s\n", prop.c_str(), (unsigned long long)idx, r.err.c_str(), q.err.c_str());
      continue;
    }
    bool is_known = false;
    for (auto& kn : known)
      if (r.err.find(kn) != std::string::npos) { known_hits[kn]++; is_known = true; break; }
    if (is_known) continue;
    int tried = 0;
    auto small = Minimise(d, r.rec, cls, min_budget, &tried);
    Run m = Again(d, small);
    if (Class(m.err) != cls) { small = r.rec; m = q; }
    std::string text;
    Run logged = Again(d, small, true, &text);
    (void)logged;
    std::string file = replays + "/" + prop + (kAsan ? "-asan" : "") + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    m.rec = small;
    WriteReplay(file, prop, seed, idx, m, text, r.rec.size(), tried);
    if (!FreshReplay(self, file)) {
      WriteReplay(file, prop, seed, idx, r, text, r.rec.size(), tried);
      if (!FreshReplay(self, file)) {
        unconfirmed++;
        fprintf(stderr, "not reproduced by a fresh process: %s\n", r.err.c_str());
        continue;
      }
    }
    std::string one = m.err;
    for (auto& ch : one) if (ch == '\n') ch = ' ';
    printf("FOUND %s %s %s\n", prop.c_str(), file.c_str(), one.c_str());
    viol << "{\"case\":" << idx << ",\"replay\":\"" << Esc(file) << "\",\"message\":\"" << Esc(m.err) << "\"}";
    rc = 1;
    break;
  }
  double wall = Now() - t0;
  if (!json.empty()) {
    std::ofstream o(json);
    o << "{\"cases\":" << x.cases << ",\"runs\":" << x.runs << ",\"steps\":" << x.steps << ",\"ops\":" << x.ops << ",\"bytes_in\":" << x.bytes_in << ",\"bytes_out\":" << x.bytes_out
      << ",\"switches\":" << x.switches << ",\"clock_reads\":" << x.clock_reads << ",\"allocs\":" << x.allocs << ",\"crashes\":" << x.crashes << ",\"exit0\":" << x.exit0
      << ",\"exit_fail\":" << x.exit_fail << ",\"killed\":" << x.killed << ",\"virtual_seconds\":" << x.vt_s << ",\"wall\":" << wall << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"rechecked\":" << rechecked << ",\"differing\":" << differing << ",\"unconfirmed\":" << unconfirmed;
    o << ",\"fired\":{";
    for (int i = 0; i < F_NKINDS; i++) o << (i ? "," : "") << "\"" << kFaultName[i] << "\":[" << x.fired[i] << "," << x.runs_with[i] << "]";
    o << "},\"probes\":{";
    bool first = true;
    for (auto& p : x.probes) { o << (first ? "" : ",") << "\"" << Esc(p.first) << "\":" << p.second; first = false; }
    o << "},\"known\":{";
    first = true;
    for (auto& p : known_hits) { o << (first ? "" : ",") << "\"" << Esc(p.first) << "\":" << p.second; first = false; }
    o << "},\"samples\":[" << samples.str() << "],\"violations\":[" << viol.str() << "]";
    auto set = [&](const char* n, const std::unordered_set<uint64_t>& s) {
      o << ",\"" << n << "\":[";
      bool f = true;
      for (auto v : s) { o << (f ? "" : ",") << "\"" << std::hex << v << std::dec << "\""; f = false; }
      o << "]";
    };
    set("traces", x.traces);
    set("nontrivial", x.nontrivial);
    set("interleavings", x.interleavings);
    set("scripts", x.scripts);
    o << "}\n";
  }
  CleanupWorld();
  if (rc) return 1;
  if (unconfirmed) return 2;
  return 0;
}

#ifdef SIM_ASAN
// A sanitizer that finds something must not look like a clean "exit 1".
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=86:abort_on_error=0:symbolize=0:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=86:print_stacktrace=0:symbolize=0"; }
#endif
