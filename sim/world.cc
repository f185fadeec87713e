// Explorer side of the simulated world: scratch directory, fork, results.
#include "world.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <clocale>
#include <fstream>
#include <locale>
#include <iostream>
#include <sstream>

#include "absl/base/internal/cycleclock.h"
#include "absl/base/internal/sysinfo.h"
#include "absl/flags/parse.h"
#include "absl/log/initialize.h"
#include "heap.h"
#include "tasks.h"
#include "stl-to-ps/stl-to-ps.h"

int stl2ps_tool_main(int argc, char** argv);

// The stand-in for absl/log: what the real one would print by default.
namespace verif_shim_log {
void Emit(int sev, const char* file, int line, const std::string& msg) {
  if (sev < 2) return;
  const char* b = strrchr(file, '/');
  fprintf(stderr, "%c %s:%d] %s\n", "IWEF"[sev & 3], b ? b + 1 : file, line, msg.c_str());
}
}  // namespace verif_shim_log

namespace sim {
namespace {
int g_err_fd = -1, g_out_fd = -1, g_full_fd = -1;
std::string g_base;

int High(int fd) {
  int r = fcntl(fd, F_DUPFD_CLOEXEC, 300);
  close(fd);
  return r;
}

void Wipe(const std::string& dir) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  std::vector<std::pair<std::string, bool>> l;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    bool isdir = e->d_type == DT_DIR;
    l.emplace_back(dir + "/" + n, isdir);
  }
  closedir(d);
  for (auto& x : l) {
    if (x.second) { Wipe(x.first); rmdir(x.first.c_str()); }
    else unlink(x.first.c_str());
  }
}

void List(const std::string& dir, const std::string& rel, Files* out) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  std::vector<std::string> l;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") l.push_back(n);
  }
  closedir(d);
  for (auto& n : l) {
    std::string p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      (*out)[r + "/"] = "";
      List(p, r, out);
    } else if (S_ISLNK(st.st_mode)) {
      char b[4096];
      ssize_t k = readlink(p.c_str(), b, sizeof b);
      (*out)[r] = "-> " + std::string(b, k > 0 ? k : 0);
    } else {
      std::string s;
      ReadFileRaw(r, &s);
      (*out)[r] = s;
    }
  }
}

std::string ReadFd(int fd) {
  std::string r;
  struct stat st;
  if (fstat(fd, &st) || st.st_size == 0) return r;
  r.resize(std::min<off_t>(st.st_size, 4 << 20));
  ssize_t k = pread(fd, &r[0], r.size(), 0);
  r.resize(k > 0 ? k : 0);
  return r;
}
void MkDirs(const std::string& p) {  // all directories above p
  for (size_t i = g_scratch.size() + 1; (i = p.find('/', i)) != std::string::npos; i++)
    mkdir(p.substr(0, i).c_str(), 0777);
}

// ---- the child
void Pay(int i, const char* p, size_t n) {
  if (g_sh->pay_used + n > sizeof(g_sh->payload)) n = 0;
  memcpy(g_sh->payload + g_sh->pay_used, p, n);
  g_sh->pay_off[i] = g_sh->pay_used;
  g_sh->pay_len[i] = n;
  g_sh->pay_used += n;
}

// A string stream whose sink can fail: the "given stream" of library users.
class LimitBuf : public std::stringbuf {
 public:
  LimitBuf(int64_t limit, int fail_sync) : std::stringbuf(std::ios::out), limit_(limit), fail_sync_(fail_sync) {}

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize k = n;
    if (limit_ >= 0) k = std::min<int64_t>(n, std::max<int64_t>(0, limit_ - sent_));
    std::streamsize r = std::stringbuf::xsputn(s, k);
    sent_ += r;
    if (k < n) g_sh->fired[F_STREAM_ERR]++;
    return r;
  }
  int overflow(int c) override {
    if (limit_ >= 0 && sent_ >= limit_) { g_sh->fired[F_STREAM_ERR]++; return EOF; }
    if (c != EOF) sent_++;
    return std::stringbuf::overflow(c);
  }
  int sync() override {
    syncs_++;
    if (fail_sync_ && syncs_ == fail_sync_) { g_sh->fired[F_STREAM_ERR]++; return -1; }
    return 0;
  }

 private:
  int64_t limit_, sent_ = 0;
  int fail_sync_, syncs_ = 0;
};

// A source that hands out what it has a few characters at a time, through a
// buffer of its own or none, and does not say what is still to come.
class DripBuf : public std::streambuf {
 public:
  DripBuf(std::string t, uint64_t seed) : t_(std::move(t)), r_(seed), kind_(r_.below(4)) {}

 protected:
  int underflow() override {
    if (kind_ == 0) return at_ < t_.size() ? static_cast<unsigned char>(t_[at_]) : EOF;
    if (gptr() < egptr()) return static_cast<unsigned char>(*gptr());
    size_t n = std::min<size_t>(t_.size() - at_, 1 + r_.below(kind_ == 1 ? 2 : kind_ == 2 ? 16 : sizeof b_));
    if (!n) return EOF;
    memcpy(b_, t_.data() + at_, n);
    at_ += n;
    setg(b_, b_, b_ + n);
    return static_cast<unsigned char>(b_[0]);
  }
  int uflow() override {
    if (kind_ != 0) return std::streambuf::uflow();
    return at_ < t_.size() ? static_cast<unsigned char>(t_[at_++]) : EOF;
  }
  std::streamsize showmanyc() override { return 0; }

 private:
  std::string t_;
  size_t at_ = 0;
  Rng r_;
  uint64_t kind_;
  char b_[300];
};
// The ways of some country nobody has been to.
class OddPunct : public std::numpunct<char> {
 protected:
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1\2"; }
  std::string do_truename() const override { return "jawohl"; }
};
void Habits(uint64_t seed, std::ios* s, const std::locale& odd) {
  Rng r(seed);
  auto on = [&] { return r.below(3) == 0; };
  if (on()) s->setf(r.below(2) ? std::ios::hex : std::ios::oct, std::ios::basefield);
  if (on()) s->setf(r.below(2) ? std::ios::fixed : std::ios::scientific, std::ios::floatfield);
  if (on()) s->setf(std::ios::showpos | std::ios::showpoint);
  if (on()) s->setf(std::ios::showbase | std::ios::uppercase);
  if (on()) s->setf(std::ios::boolalpha | std::ios::internal);
  if (on()) s->setf(std::ios::unitbuf);
  if (on()) s->unsetf(std::ios::skipws);
  if (on()) s->precision(int(r.below(20)));
  if (on()) s->imbue(odd);
}
void HostConvert(size_t i, const Act& a, int* ret) {
  const std::locale odd(std::locale::classic(), new OddPunct);
  Rng r(a.host);
  if (!a.c_locale.empty()) setlocale(LC_ALL, a.c_locale.c_str());
  if (r.below(2)) std::locale::global(odd);
  LimitBuf buf(-1, 0);
  std::ostream out(&buf);
  out << a.head;
  Habits(a.host + 1, &out, odd);
  if (r.below(2)) out.fill('*');
  errno = int(r.below(100));
  std::string lead(a.lead.size(), ' ');
  if (a.file.empty()) {
    std::istringstream whole(a.lead + a.text);
    DripBuf drip(a.lead + a.text, a.host + 3);
    std::istream in(r.below(2) ? static_cast<std::streambuf*>(&drip) : whole.rdbuf());
    in.read(&lead[0], lead.size());
    Habits(a.host + 2, &in, odd);
    *ret = stl2ps::ScriptToPS(a.src, in, out);
  } else {
    std::ifstream in(a.file);
    Habits(a.host + 2, &in, odd);
    *ret = stl2ps::ScriptToPS(a.src, in, out);
  }
  if (!out) *ret |= 4;
  std::string s = buf.str();
  if (s.compare(0, a.head.size(), a.head) == 0) s.erase(0, a.head.size());
  else s = "(what was in the stream is gone) " + s;
  Pay(int(i), s.data(), s.size());
}

void Convert(size_t i) {
  const Act& a = g_plan->acts[i];
  int r = -1;
  if (a.host) {
    try {
      HostConvert(i, a, &r);
    } catch (...) {
      r = 2;
    }
    g_sh->ret[i] = r;
    g_sh->act_steps[i] = g_sh->steps;
    return;
  }
  try {
    if (a.out.empty()) {
      LimitBuf buf(a.out_limit, a.out_fail_sync);
      std::ostream out(&buf);
      if (a.file.empty()) {
        std::istringstream in(a.text);
        r = stl2ps::ScriptToPS(a.src, in, out);
      } else {
        std::ifstream in(a.file);
        r = stl2ps::ScriptToPS(a.src, in, out);
      }
      if (!out) r |= 4;  // the stream did not take everything
      std::string s = buf.str();
      Pay(i, s.data(), s.size());
    } else {
      std::ofstream out(a.out, std::ios::out | std::ios::trunc);
      if (a.file.empty()) {
        std::istringstream in(a.text);
        r = stl2ps::ScriptToPS(a.src, in, out);
      } else {
        std::ifstream in(a.file);
        r = stl2ps::ScriptToPS(a.src, in, out);
      }
      out.close();
      if (!out) r |= 4;
    }
  } catch (...) {
    r = 2;
  }
  g_sh->ret[i] = r;
  g_sh->act_steps[i] = g_sh->steps;
}

std::vector<char*> g_args;
void ToolBody() noexcept {
  int rc = stl2ps_tool_main(int(g_args.size()) - 1, g_args.data());
  g_sh->phase = 2;
  exit(rc);
}
std::vector<size_t> g_conv;
void LibBody() noexcept {
  {
    absl::ParseCommandLine(int(g_args.size()) - 1, g_args.data());
    absl::InitializeLog();
  }
  if (!g_plan->c_locale.empty()) setlocale(LC_ALL, g_plan->c_locale.c_str());
  if (g_plan->mode == M_LIBSEQ) {
    for (size_t i = 0; i < g_plan->acts.size(); i++) {
      const Act& a = g_plan->acts[i];
      if (a.k == Act::CONVERT) {
        Convert(i);
      } else {
        Outside o;
        g_in_sim = false;
        if (a.k == Act::WRITE_FILE) WriteFileRaw(a.out, a.text);
        else unlink((g_scratch + "/" + a.out).c_str());
        g_in_sim = true;
        g_sh->ret[i] = 1;
      }
      LiveHeap(&g_sh->live_n[i], &g_sh->live_b[i]);
      g_sh->fds[i] = RealOpenFds();
    }
  } else {
    for (size_t i = 0; i < g_plan->acts.size(); i++) g_conv.push_back(i);
    RunThreads(g_conv.size(), [](size_t i) { Convert(i); });
  }
  g_sh->phase = 2;
  exit(0);
}

ucontext_t g_uc_tool, g_uc_back;

[[noreturn]] void Child() {
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl = {25, 26};
  setrlimit(RLIMIT_CPU, &rl);
  for (int sig : {SIGPIPE, SIGTERM, SIGINT, SIGHUP, SIGALRM, SIGUSR1, SIGQUIT}) signal(sig, SIG_DFL);
  struct itimerval none = {};
  setitimer(ITIMER_REAL, &none, nullptr);
  if (chdir(g_scratch.c_str())) _exit(98);
  dup2(g_out_fd, 1);
  dup2(g_plan->stderr_mode == 1 ? g_full_fd : g_err_fd, 2);
  if (g_plan->stderr_mode == 1) g_sh->fired[F_STDERR_BROKEN]++;
  int nul = open("/dev/null", O_RDONLY);
  if (nul != 0) { dup2(nul, 0); close(nul); }
  if (g_plan->stdin_mode == 1) {
    int in = memfd_create("in", MFD_CLOEXEC);
    if (write(in, g_plan->stdin_text.data(), g_plan->stdin_text.size()) < 0 || lseek(in, 0, SEEK_SET) != 0) _exit(98);
    dup2(in, 0);
    close(in);
  } else if (g_plan->stdin_mode == 2) {
    close(0);
  } else if (g_plan->stdin_mode == 3) {
    int e[2];  // the other end stays open and nothing ever comes
    if (pipe2(e, O_CLOEXEC)) _exit(98);
    dup2(e[0], 0);
    close(e[0]);
    g_sh->fired[F_SILENT_TTY]++;
  }
  clearenv();
  for (auto& e : g_plan->env) setenv(e.first.c_str(), e.second.c_str(), 1);
  for (auto& a : g_plan->argv) g_args.push_back(strdup(a.c_str()));
  g_args.push_back(nullptr);
  HeapStart();
  g_conv.reserve(kActs);
  g_sh->phase = 1;
  void (*body)() = g_plan->mode == M_PROC ? static_cast<void (*)()>(ToolBody) : static_cast<void (*)()>(LibBody);
  SimStart();
  g_heap_sim = true;
#ifdef SIM_ASAN
  body();
#else
  const size_t kStack = 16 << 20;
  char* st = static_cast<char*>(mmap(reinterpret_cast<void*>(0x280000000000ULL), kStack, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
  if (st == MAP_FAILED) _exit(98);
  ScrubStack(st + kStack - (512 << 10), 512 << 10);
  getcontext(&g_uc_tool);
  g_uc_tool.uc_stack.ss_sp = st;
  g_uc_tool.uc_stack.ss_size = kStack - size_t(g_plan->stack_shift % 4096) * 16;
  g_uc_tool.uc_link = &g_uc_back;
  makecontext(&g_uc_tool, body, 0);
  swapcontext(&g_uc_back, &g_uc_tool);
#endif
  _exit(98);
}
// Runs among the exit handlers, after those of the code under test.
void AtExit() {
  if (!g_in_sim) return;
  g_heap_sim = false;
  SimStop();
  g_sh->phase = 3;
  fflush(stdout);
}
}  // namespace

uint64_t g_mtime_seed = 0;

void WriteFileRaw(const std::string& rel, const std::string& data) {
  std::string p = g_scratch + "/" + rel;
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { MkDirs(p); fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); }
  if (fd < 0) return;
  size_t o = 0;
  while (o < data.size()) {
    ssize_t k = write(fd, data.data() + o, data.size() - o);
    if (k <= 0) { perror("sim: scratch"); _exit(98); }
    o += k;
  }
  // It was made at some time long before the run.
  int64_t v = 946684800 + int64_t((Hash(rel) ^ g_mtime_seed * 0x9E3779B97F4A7C15ULL) % 50000000);
  struct timespec ts[2] = {{v, 0}, {v, 0}};
  futimens(fd, ts);
  close(fd);
}

bool ReadFileRaw(const std::string& rel, std::string* out) {
  int fd = open((g_scratch + "/" + rel).c_str(), O_RDONLY);
  if (fd < 0) return false;
  struct stat st;
  fstat(fd, &st);
  out->resize(st.st_size);
  size_t o = 0;
  while (o < out->size()) {
    ssize_t k = read(fd, &(*out)[o], out->size() - o);
    if (k <= 0) break;
    o += k;
  }
  out->resize(o);
  close(fd);
  return true;
}

void ResetScratch(const Files& files) {
  Wipe(g_scratch);
  for (auto d : {"rootfs", "rootfs/tmp", "rootfs/var", "rootfs/var/tmp", "rootfs/up"}) mkdir((g_scratch + "/" + d).c_str(), 0777);
  for (auto& f : files) {
    if (f.first.back() == '/') {
      std::string p = g_scratch + "/" + f.first;
      MkDirs(p);
      mkdir(p.c_str(), 0777);
    } else {
      WriteFileRaw(f.first, f.second);
    }
  }
}

Files ReadScratch() {
  Files r;
  List(g_scratch, "", &r);
  return r;
}

void InitWorld() {
  MovedInit();

  // Abseil measures the processor's clock when a mutex is waited for for the
  // first time: the one thing that no simulated clock can make repeatable.
  absl::base_internal::NumCPUs();
  absl::base_internal::NominalCPUFrequency();
  absl::base_internal::CycleClock::Frequency();
  {  // What the C++ library makes at first use must not depend on what the explorer did before.
    auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
    char all[256], to[256];
    for (int i = 0; i < 256; i++) all[i] = char(i);
    ct.widen(all, all + 256, to);
    ct.narrow(all, all + 256, '?', to);
    for (int i = 0; i < 256; i++) { ct.widen(char(i)); ct.narrow(char(i), '?'); }
    std::ostringstream o;
    o << 1 << ' ' << 1.5 << std::endl;
    std::istringstream in("1 1.5 x\n");
    int a;
    double b;
    std::string t;
    in >> a >> b;
    std::getline(in, t);
  }
  for (int i = 3; i < 300; i++) close(i);
  const char* root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  g_scratch = std::string(root) + "/s2p.XXXXXX";
  if (!mkdtemp(&g_scratch[0])) { perror("mkdtemp"); exit(2); }
  if (strcmp(root, "/tmp") == 0) g_scratch += "";
  g_base = g_scratch;
  g_err_fd = High(memfd_create("err", 0));
  g_out_fd = High(memfd_create("out", 0));
  g_full_fd = High(open("/dev/full", O_WRONLY));
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_sh == MAP_FAILED) { perror("mmap"); exit(2); }
  atexit(AtExit);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = [](int) {};
  sigaction(SIGALRM, &sa, nullptr);  // interrupts waitpid()
  itimerval it = {{5, 0}, {5, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  g_world_up = true;
}

void CleanupWorld() {
  if (g_scratch.empty()) return;
  Wipe(g_scratch);
  rmdir(g_scratch.c_str());
}

static unsigned long long CpuOf(pid_t pid) {
  char b[1024];
  snprintf(b, sizeof b, "/proc/%d/stat", int(pid));
  int fd = open(b, O_RDONLY);
  if (fd < 0) return 0;
  ssize_t n = read(fd, b, sizeof b - 1);
  close(fd);
  if (n <= 0) return 0;
  b[n] = 0;
  const char* p = strrchr(b, ')');
  unsigned long long u = 0, k = 0;
  if (!p || sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &u, &k) != 2) return 0;
  return u + k;
}
Outcome Exec(const Plan& plan, bool want_events) {
  Plan p = plan;
  g_plan = &p;
  memset(static_cast<void*>(g_sh), 0, offsetof(Shared, notes));
  g_sh->notes_len = 0;
  g_sh->opens_len = 0;
  g_sh->pay_used = 0;
  for (int& r : g_sh->ret) r = -1;
  (void)!ftruncate(g_err_fd, 0);
  (void)!ftruncate(g_out_fd, 0);
  lseek(g_err_fd, 0, SEEK_SET);
  lseek(g_out_fd, 0, SEEK_SET);
  for (size_t i = 0; i < p.swaps.size(); i++) {
    Swap& w = p.swaps[i];
    const std::string rel = "../" + g_scratch.substr(g_scratch.rfind('/') + 1) + ".new" + std::to_string(i);
    w.from = g_scratch + "/" + rel;
    w.to = g_scratch + "/" + RealPath(w.path);
    w.path = Norm(w.path);
    struct stat st;
    if (!w.gone) WriteFileRaw(rel, w.data);
    w.ino = !w.gone && stat(w.from.c_str(), &st) == 0 ? st.st_ino : 0;
  }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) Child();
  int st = 0;
  // Nothing the simulated process does can block but by the scheduler's will.
  // Should it sleep all the same (20 s without any use of the processor), it
  // is stuck for good.
  int idle = 0;
  unsigned long long cpu = ~0ULL;
  bool stuck = false;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    unsigned long long c = CpuOf(pid);
    idle = c == cpu ? idle + 1 : 0;
    cpu = c;
    if (idle >= 4 && !stuck) { stuck = true; kill(pid, SIGKILL); }
  }
  for (auto& w : p.swaps) unlink(w.from.c_str());
  if (stuck && !g_sh->end_reason) g_sh->end_reason = E_DEADLOCK;
  Outcome o;
  o.exited = WIFEXITED(st);
  o.code = o.exited ? WEXITSTATUS(st) : -1;
  o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  o.end_reason = g_sh->end_reason;
  if (!o.end_reason && p.crash_sig && o.sig == p.crash_sig && g_sh->fired[F_SIGNAL]) o.end_reason = E_CRASH;
  o.phase = g_sh->phase;
  if (o.exited && o.code == 98 && o.phase < 2) {
    fprintf(stderr, "sim: child could not start: %s\n", ReadFd(g_err_fd).c_str());
    exit(2);
  }
  o.steps = g_sh->steps;
  o.ops = g_sh->ops;
  o.allocs = g_sh->allocs;
  o.allocs_failed = g_sh->allocs_failed;
  o.clock_reads = g_sh->clock_reads;
  o.switches = g_sh->switches;
  o.il_hash = g_sh->il_hash;
  o.peak_b = g_sh->peak_b;
  o.moved = g_sh->moved;
  o.slept_ns = g_sh->slept_ns;
  o.bytes_in = g_sh->bytes_in;
  o.bytes_out = g_sh->bytes_out;
  memcpy(o.fired, g_sh->fired, sizeof o.fired);
  for (int i = 0; i < g_sh->nseg; i++) o.clock.emplace_back(g_sh->seg[i][0], g_sh->seg[i][1]);
  o.err = ReadFd(g_err_fd);
  o.out1 = ReadFd(g_out_fd);
  o.notes.assign(g_sh->notes, g_sh->notes_len);
  o.opens.assign(g_sh->opens, g_sh->opens_len);
  for (size_t i = 0; i < p.acts.size() && i < size_t(kActs); i++) {
    o.ret.push_back(g_sh->ret[i]);
    o.pay.emplace_back(g_sh->payload + g_sh->pay_off[i], g_sh->pay_len[i]);
    o.live_n.push_back(g_sh->live_n[i]);
    o.live_b.push_back(g_sh->live_b[i]);
    o.fds.push_back(g_sh->fds[i]);
    o.act_steps.push_back(g_sh->act_steps[i]);
  }
  // One number for everything observable about the run.
  static const bool dbg = getenv("SIM_DBG") != nullptr;  // for finding what is not repeatable
  if (dbg) {
    printf("RUN ev=%llx il=%llx steps=%llu ops=%llu st=%d end=%d err=%llx allocs=%llu pay=", (unsigned long long)g_sh->ev_hash, (unsigned long long)g_sh->il_hash, (unsigned long long)o.steps,
           (unsigned long long)o.ops, st, o.end_reason, (unsigned long long)Hash(o.err), (unsigned long long)o.allocs);
    for (auto& q : o.pay) printf("%llx ", (unsigned long long)Hash(q));
    printf("sw=%d env_any=%d clock_reads=%d jumps=%d\n", int(o.switches), int(p.env_any), int(o.clock_reads), int(p.jumps.size()));
  }
  uint64_t v[6] = {g_sh->ev_hash, g_sh->il_hash, o.steps, o.ops, uint64_t(st), uint64_t(o.end_reason)};
  o.ev_hash = Hash(v, sizeof v);
#ifndef SIM_ASAN
  o.ev_hash = Hash(o.err.data(), o.err.size(), o.ev_hash);
  o.ev_hash = Hash(&o.allocs, 8, o.ev_hash);
#endif
  for (auto& s : o.pay) o.ev_hash = Hash(s.data(), s.size(), o.ev_hash);
  if (want_events) {
    std::ostringstream os;
    for (uint64_t i = 0; i < g_sh->nev && i < 400; i++) {
      const Ev& e = g_sh->ev[i];
      os << e.task << " " << char(e.op) << " path#" << int(e.path) << " errno=" << e.err << " " << e.a << " " << e.b << "\n";
    }
    o.events = os.str();
  }
  g_plan = nullptr;
  return o;
}

std::string Outcome::brief() const {
  std::ostringstream os;
  if (exited && !end_reason) os << "exit " << code;
  else if (sig) os << "signal " << sig;
  static const char* const n[] = {"", "crashed by the simulator", "step limit", "operation limit", "deadlock"};
  if (end_reason) os << n[end_reason];
  os << " steps=" << steps << " ops=" << ops;
  return os.str();
}
}  // namespace sim
