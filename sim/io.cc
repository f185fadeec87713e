// Simulated operating system: files, clock, identity, randomness.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/auxv.h>
#include <sys/statvfs.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <random>
#include <string>

#include "heap.h"
#include "tasks.h"
#include "world.h"

namespace sim {
bool g_in_sim = false, g_world_up = false;
Plan* g_plan = nullptr;
Shared* g_sh = nullptr;
std::string g_scratch;

const char* const kFaultName[F_NKINDS] = {
    "open_fail", "read_error", "read_early_eof", "write_error", "close_error",
    "short_read", "short_write", "read_eintr", "write_eintr", "not_seekable",
    "crash_at_op", "crash_at_output_byte", "crash_at_basic_block",
    "alloc_failure", "clock_jump", "latency", "preemption", "stderr_full",
    "storage_damage", "stale_output", "environment_noise", "dirty_memory", "stream_error", "phantom_file", "other_host", "locale", "signal", "file_replaced", "file_locked", "silent_terminal"};

uint64_t Hash(const void* p, size_t n, uint64_t h) {
  auto* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}

namespace {
template <class F> F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

constexpr int kMaxFd = 1024;
struct FdState {
  bool sim = false, wr = false;
  std::string path;
  int64_t off = 0;
  Delivery* d = nullptr;
  Rng rng;
};
FdState g_fd[kMaxFd];
struct PathState { std::string path; int64_t opens = 0, written = 0; };
PathState g_path[256];
int g_npath = 0;
int64_t g_out_bytes = 0;
size_t g_next_jump = 0;
int64_t g_vt_extra = 0;  // everything but steps
int64_t g_seg_start = 0;

PathState& PathOf(const std::string& p) {
  for (int i = 0; i < g_npath; i++) if (g_path[i].path == p) return g_path[i];
  if (g_npath == 255) return g_path[255];
  g_path[g_npath].path = p;
  return g_path[g_npath++];
}
int PathId(const std::string& p) { return int(&PathOf(p) - g_path); }

int64_t Vt() { return g_plan->clock_base_ns + int64_t(g_sh->steps * g_plan->per_step_ns) + g_vt_extra; }
void CloseSeg() {
  if (g_sh->nseg < 256) {
    g_sh->seg[g_sh->nseg][0] = g_seg_start;
    g_sh->seg[g_sh->nseg][1] = Vt();
    g_sh->nseg++;
  }
}
void Jumps(int on, uint64_t idx) {
  for (auto& j : g_plan->jumps) {
    if (j.on != on || j.at != idx) continue;
    CloseSeg();
    g_vt_extra += j.delta_ns;
    g_seg_start = Vt();
    g_sh->fired[F_CLOCK_JUMP]++;
  }
}

void Event(uint8_t op, int path, int err, int64_t a, int64_t b) {
  Ev e{op, uint8_t(path), int16_t(err), int32_t(CurTask()), a, b};
  g_sh->ev_hash = Hash(&e, sizeof e, g_sh->ev_hash);
  if (g_sh->nev < 2048) g_sh->ev[g_sh->nev] = e;
  g_sh->nev++;
}

bool System(const std::string& p) {
  static const char* const pre[] = {"/usr/share/zoneinfo", "/etc/localtime", "/dev/null", "/proc/self/", "/sys/", "/proc/cpuinfo"};
  for (auto s : pre) if (p.compare(0, strlen(s), s) == 0) return true;
  return false;
}

std::string NormRaw(const std::string& p);
std::string RealPathRaw(const std::string& n);
bool Above(const std::string& n) { return n == ".." || n.compare(0, 3, "../") == 0; }

// Does every ".." of a path come after a directory that exists?
bool UpsResolve(const std::string& p) {
  for (size_t i = p.find("/.."); i != std::string::npos; i = p.find("/..", i + 1)) {
    if (i + 3 < p.size() && p[i + 3] != '/') continue;
    const std::string n = NormRaw(p.substr(0, i));
    if (n.empty() || n == "/" || n == ".." || (n.size() > 2 && n.compare(n.size() - 3, 3, "/..") == 0)) continue;
    struct stat st;
    const std::string pre = g_scratch + "/" + RealPathRaw(n);
    if (RawSyscall(SYS_newfstatat, AT_FDCWD, long(pre.c_str()), long(&st), 0) != 0 || !S_ISDIR(st.st_mode)) return false;
  }
  return true;
}

// Where a path of the simulated process really is.
std::string Map(const char* path, bool* system) {
  std::string p = FromCwd(path);
  *system = false;
  if (p.empty()) return p;
  if (p == g_scratch) return p;
  if (p.compare(0, g_scratch.size() + 1, g_scratch + "/") == 0) {
    if (p.find("..") == std::string::npos) return p;
    p = p.substr(g_scratch.size() + 1);
    while (!p.empty() && p[0] == '/') p.erase(0, 1);
    if (p.empty()) return g_scratch;
  }
  if (p[0] != '/') {
    std::string n = NormRaw(p);  // out of the working directory
    if (!Above(n)) return p;
    return g_scratch + "/" + (UpsResolve(p) ? RealPathRaw(n) : "no such directory/x");
  }
  if (System(p)) { *system = true; return p; }
  if (p.find("/..") == std::string::npos) return g_scratch + "/rootfs" + p;
  return g_scratch + (UpsResolve(p) ? "/rootfs" + NormRaw(p) : "/no such directory/x");
}

void LogOpen(char rw, bool ok, const std::string& n) {
  size_t need = n.size() + 4;
  if (g_sh->opens_len + need > sizeof(g_sh->opens)) return;
  char* o = g_sh->opens + g_sh->opens_len;
  o[0] = rw;
  o[1] = ok ? '+' : '-';
  memcpy(o + 2, n.data(), n.size());
  o[2 + n.size()] = '\n';
  g_sh->opens_len += n.size() + 3;
}

Fault* Find(FaultKind k, const std::string& path) {
  for (auto& f : g_plan->faults)
    if (f.kind == k && (f.count < 0 || f.used < f.count) && (f.path == path || f.path == "*")) return &f;
  return nullptr;
}
void Fired(Fault* f) { f->used++; g_sh->fired[f->kind]++; }

Delivery* DeliveryOf(const std::string& path) {
  for (auto& d : g_plan->delivery) if (d.path == path || d.path == "*") return &d;
  return nullptr;
}

// Decide an open; returns true and sets errno if it must fail.
bool OpenFault(const std::string& n) {
  PathState& ps = PathOf(n);
  int64_t idx = ps.opens++;
  if (g_plan->fd_limit) {
    int open = 0;
    for (auto& f : g_fd) open += f.sim;
    if (open >= g_plan->fd_limit) {
      Event('o', PathId(n), EMFILE, idx, -1);
      LogOpen('r', false, n);
      errno = EMFILE;
      return true;
    }
  }
  for (auto& f : g_plan->faults) {
    if (f.kind != F_OPEN_FAIL || !(f.path == n || f.path == "*")) continue;
    if (idx < f.at || (f.count >= 0 && f.used >= f.count)) continue;
    Fired(&f);
    Event('o', PathId(n), f.err, idx, -1);
    LogOpen('r', false, n);
    errno = f.err;
    return true;
  }
  return false;
}

// A file that is none of the inputs and was not mentioned by anyone (a
// configuration, a list of replacements, a lock) may exist: what it says must
// not matter.
bool Phantom(const std::string& n) {
  if (!g_plan->phantom || n.empty() || n == "/") return false;
  for (auto& k : g_plan->known)
    if (k == n || (k.size() > n.size() && k[n.size()] == '/' && k.compare(0, n.size(), n) == 0)) return false;
  g_sh->fired[F_PHANTOM]++;
  return true;
}
std::string PhantomText(const std::string& n) {
  static const char* const t[] = {"1\n", "", "name = \"other\"\nscale = 3\ntimestamp = 0\nload_path = /elsewhere\nfont Times 7\n", "on", "0 0 0\n1 2 3\n4 5 6\n"};
  return t[Hash(n.data(), n.size(), g_plan->phantom) % 5];
}
int OpenPhantom(const std::string& n) {
  int fd = int(RawSyscall(SYS_memfd_create, long("phantom"), 0));
  std::string t = PhantomText(n);
  RawSyscall(SYS_write, fd, long(t.data()), t.size());
  RawSyscall(SYS_lseek, fd, 0, SEEK_SET);
  return fd;
}

// A file written by the simulated process has the simulated time on it.
void Stamp(int fd) {
  int64_t v = Vt();
  struct timespec ts[2] = {{v / 1000000000, v % 1000000000}, {v / 1000000000, v % 1000000000}};
  RawSyscall(SYS_utimensat, fd, 0, long(ts), 0);
}
// What stat() tells about a file of the simulated world.
void Virtual(struct stat* st, const std::string& n) {
  st->st_dev = 1;
  uint64_t version = 0;
  for (size_t i = 0; i < g_plan->swaps.size(); i++)
    if (g_plan->swaps[i].ino && g_plan->swaps[i].ino == st->st_ino && g_plan->swaps[i].path == n) version = i + 1;
  st->st_ino = Hash(n) % 1000003 + 2 + version * 1000003;
  if (g_plan->fresh) {
    int64_t v = Vt() - int64_t(Hash(n) % 2000000000);
    st->st_mtim = {v / 1000000000, v % 1000000000};
  }
  st->st_atim = st->st_ctim = st->st_mtim;
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
}

void Register(int fd, const std::string& n, bool wr) {
  if (fd < 0 || fd >= kMaxFd) return;
  FdState& s = g_fd[fd];
  s.sim = true;
  s.wr = wr;
  s.path = n;
  s.off = 0;
  s.d = DeliveryOf(n);
  s.rng = Rng(s.d ? s.d->seed + uint64_t(PathOf(n).opens) * 7919 : 0);
}

void Yield() {}  // calls are made from instrumented code; its blocks are the yield points
}  // namespace

uint64_t NextJumpStep() {
  uint64_t r = ~0ULL;
  for (auto& j : g_plan->jumps) if (j.on == 0 && j.at > g_sh->steps && j.at < r) r = j.at;
  return r;
}

void Note(const char* op, const char* path) {
  if (!g_in_sim) return;
  size_t n = strlen(op) + strlen(path) + 2;
  if (g_sh->notes_len + n > sizeof(g_sh->notes)) return;
  char* o = g_sh->notes + g_sh->notes_len;
  memcpy(o, op, strlen(op));
  o[strlen(op)] = ' ';
  memcpy(o + strlen(op) + 1, path, strlen(path));
  o[n - 1] = '\n';
  g_sh->notes_len += n;
}

// The name of the working directory, as the simulated process sees it.
std::string Cwd() {
  uint64_t id = g_in_sim && g_plan ? g_plan->id_seed : 0;
  if (!id) return "/home/sim";
  static const char* const d[] = {"/home/sim", "/home/other/job", "/var/lib/a dir/b", "/w", "/srv/stl-to-ps/run"};
  uint64_t i = Hash("cwd", 3, id) % 6;
  return i < 5 ? d[i] : "/tmp/job" + std::to_string(id);
}
// Where the simulated process went by chdir(): relative to where it started,
// or absolute.
std::string g_cd;
std::string FromCwd(const std::string& p) {
  if (p.empty()) return p;
  if (p[0] != '/') return g_in_sim && !g_cd.empty() ? g_cd + "/" + p : p;
  std::string c = Cwd();
  if (p.compare(0, c.size(), c) != 0 || (p.size() > c.size() && p[c.size()] != '/')) return p;
  return g_scratch + p.substr(c.size());
}
std::string ToCwd(const std::string& p) {
  if (p.compare(0, g_scratch.size() + 7, g_scratch + "/rootfs") == 0) return p.size() == g_scratch.size() + 7 ? "/" : p.substr(g_scratch.size() + 7);
  return p.compare(0, g_scratch.size(), g_scratch) == 0 ? Cwd() + p.substr(g_scratch.size()) : p;
}
std::string CwdNow() {
  if (g_cd.empty()) return Cwd();
  if (g_cd[0] == '/') return g_cd;
  std::string n = NormRaw(Cwd() + "/" + g_cd);
  return n.empty() ? "/" : n;
}
std::string Norm(const std::string& in) { return in.empty() ? in : NormRaw(FromCwd(in)); }
namespace {
std::string NormRaw(const std::string& in) {
  std::string p = in;
  if (p.compare(0, g_scratch.size() + 1, g_scratch + "/") == 0) p = p.substr(g_scratch.size() + 1);
  std::string r;
  size_t i = 0;
  bool abs = !p.empty() && p[0] == '/';
  std::vector<std::string> parts;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    std::string c = p.substr(i, j - i);
    if (!c.empty() && c != ".") {
      if (c == ".." && !parts.empty() && parts.back() != "..") parts.pop_back();
      else if (c == ".." && abs) {}
      else parts.push_back(c);
    }
    i = j + 1;
  }
  if (abs) r = "/";
  for (size_t k = 0; k < parts.size(); k++) { if (k) r += '/'; r += parts[k]; }
  return r;
}
}  // namespace

void Die(int reason) {
  g_sh->end_reason = reason;
  if (reason == E_CRASH) {}
  CloseSeg();
  RawSyscall(SYS_exit_group, 97);
  for (;;) {}
}

// A signal that comes from outside, or from an alarm of the program's own.
static int64_t g_alarm_at = 0, g_alarm_every = 0;
int g_pending_sig = 0;
void SignalSoon(int sig) {
  g_pending_sig = sig;
  g_next_stop = 0;
}
static void CheckAlarm() {
  if (!g_alarm_at || Vt() < g_alarm_at) return;
  g_alarm_at = g_alarm_every ? Vt() + g_alarm_every : 0;
  SignalSoon(SIGALRM);
}
static int64_t SetAlarm(int64_t ns, int64_t every) {
  int64_t left = g_alarm_at ? std::max<int64_t>(1, g_alarm_at - Vt()) : 0;
  g_alarm_at = ns ? Vt() + ns : 0;
  g_alarm_every = every;
  return left;
}

void SlowStep() {
  uint64_t n = g_sh->steps;
  if (g_plan->crash_step >= 0 && n == uint64_t(g_plan->crash_step)) {
    if (g_plan->crash_sig) {
      g_sh->fired[F_SIGNAL]++;
      g_pending_sig = g_plan->crash_sig;
    } else {
      g_sh->fired[F_CRASH_STEP]++;
      Die(E_CRASH);
    }
  }
  if (g_pending_sig) {
    int sig = g_pending_sig;
    g_pending_sig = 0;
    SetStop();
    CloseSeg();
    raise(sig);
  }
  if (n >= g_plan->max_steps) Die(E_STEPS);
  {
    Outside o;
    Jumps(0, n);
  }
  SchedStep();
  SetStop();
}

void SysStep(int) {
  uint64_t n = ++g_sh->ops;
  for (auto& w : g_plan->swaps) {
    if (n != uint64_t(w.op)) continue;
    Outside o;
    long r = w.gone ? RawSyscall(SYS_unlink, long(w.to.c_str())) : RawSyscall(SYS_rename, long(w.from.c_str()), long(w.to.c_str()));
    if (r == 0) g_sh->fired[F_SWAP]++;
    Event('x', PathId(w.path), int(-r), w.gone, 0);
  }
  g_vt_extra += g_plan->per_op_ns;
  if (g_plan->crash_op >= 0 && n == uint64_t(g_plan->crash_op)) {
    if (g_plan->crash_sig) {
      g_sh->fired[F_SIGNAL]++;
      SignalSoon(g_plan->crash_sig);
    } else {
      g_sh->fired[F_CRASH_OP]++;
      Die(E_CRASH);
    }
  }
  CheckAlarm();
  if (n >= g_plan->max_ops) Die(E_OPS);
  Jumps(1, n);
}

int64_t ClockRead() {
  uint64_t n = ++g_sh->clock_reads;
  Jumps(2, n);
  int64_t v = Vt();
  g_vt_extra += g_plan->per_read_ns;
  return v;
}

int64_t RealOpenFds() {
  int64_t n = 0;
  for (int i = 0; i < kMaxFd; i++) if (g_fd[i].sim) n++;
  // descriptors opened behind the interposers' back
  for (int i = 3; i < 200; i++)
    if (!g_fd[i].sim && RawSyscall(SYS_fcntl, i, F_GETFD) >= 0) n++;
  return n;
}

void SimStart() {
  for (auto& f : g_fd) f = FdState();
  g_cd.clear();
  for (auto& p : g_path) p = PathState();
  g_npath = 0;
  g_out_bytes = 0;
  g_vt_extra = 0;
  g_seg_start = g_plan->clock_base_ns;
  g_sh->ev_hash = g_sh->il_hash = 1469598103934665603ULL;
  SchedStart();
  SetStop();
  g_in_sim = true;
}
void SimStop() {
  g_in_sim = false;
  g_sh->vt = Vt();
  CloseSeg();
}

// ------------------------------------------------------------ data transfer
namespace {
void Latency(Delivery* d) {
  if (d && d->latency_ns) { g_vt_extra += d->latency_ns; g_sh->fired[F_LATENCY]++; }
}

// Reads n bytes from a simulated fd; pos>=0: pread.
ssize_t DoRead(int fd, void* buf, size_t n, int64_t pos) {
  FdState& s = g_fd[fd];
  int id = PathId(s.path);
  SysStep(0);
  Latency(s.d);
  if (s.d && s.d->eintr_per_1k && s.rng.below(1000) < s.d->eintr_per_1k) {
    g_sh->fired[F_READ_EINTR]++;
    Event('r', id, EINTR, int64_t(n), -1);
    errno = EINTR;
    return -1;
  }
  int64_t off = pos >= 0 ? pos : s.off;
  size_t want = n;
  for (auto& f : g_plan->faults) {
    if (!(f.path == s.path || f.path == "*") || (f.count >= 0 && f.used >= f.count)) continue;
    if (f.kind == F_READ_ERR) {
      if (off >= f.at) {
        Fired(&f);
        Event('r', id, f.err, int64_t(n), -1);
        errno = f.err;
        return -1;
      }
      want = std::min<size_t>(want, f.at - off);
    } else if (f.kind == F_READ_EOF) {
      if (off >= f.at) {
        Fired(&f);
        Event('r', id, 0, int64_t(n), 0);
        return 0;
      }
      want = std::min<size_t>(want, f.at - off);
    }
  }
  if (s.d && s.d->max_read && want) {
    size_t c = 1 + s.rng.below(s.d->max_read);
    if (c < want) { want = c; g_sh->fired[F_READ_SHORT]++; }
  }
  long r = RawErr(pos >= 0 ? RawSyscall(SYS_pread64, fd, long(buf), want, pos) : RawSyscall(SYS_read, fd, long(buf), want));
  if (r > 0 && pos < 0) s.off += r;
  if (r > 0) g_sh->bytes_in += r;
  Event('r', id, r < 0 ? errno : 0, int64_t(n), r);
  return r;
}

ssize_t DoWrite(int fd, const void* buf, size_t n, int64_t pos) {
  FdState& s = g_fd[fd];
  int id = PathId(s.path);
  SysStep(1);
  Latency(s.d);
  if (s.d && s.d->eintr_per_1k && s.rng.below(1000) < s.d->eintr_per_1k) {
    g_sh->fired[F_WRITE_EINTR]++;
    Event('w', id, EINTR, int64_t(n), -1);
    errno = EINTR;
    return -1;
  }
  PathState& ps = PathOf(s.path);
  size_t want = n;
  for (auto& f : g_plan->faults) {
    if (f.kind != F_WRITE_ERR || !(f.path == s.path || f.path == "*") || (f.count >= 0 && f.used >= f.count)) continue;
    if (ps.written >= f.at) {
      if (n == 0) continue;
      Fired(&f);
      Event('w', id, f.err, int64_t(n), -1);
      errno = f.err;
      return -1;
    }
    want = std::min<size_t>(want, f.at - ps.written);
  }
  if (s.d && s.d->max_write && want) {
    size_t c = 1 + s.rng.below(s.d->max_write);
    if (c < want) { want = c; g_sh->fired[F_WRITE_SHORT]++; }
  }
  bool die = false;
  if (g_plan->crash_byte >= 0 && g_out_bytes + int64_t(want) >= g_plan->crash_byte && want) {
    want = g_plan->crash_byte - g_out_bytes;
    die = true;
  }
  long r = want == 0 && n ? 0 : RawErr(pos >= 0 ? RawSyscall(SYS_pwrite64, fd, long(buf), want, pos) : RawSyscall(SYS_write, fd, long(buf), want));
  if (die) { Stamp(fd); g_sh->fired[F_CRASH_BYTE]++; Die(E_CRASH); }
  if (r > 0) { ps.written += r; g_out_bytes += r; g_sh->bytes_out += r; Stamp(fd); }
  uint64_t h = r > 0 ? Hash(buf, size_t(r)) : 0;
  g_sh->ev_hash = Hash(&h, 8, g_sh->ev_hash);
  Event('w', id, r < 0 ? errno : 0, int64_t(n), r);
  return r;
}

bool SimFd(int fd) { return g_in_sim && fd >= 0 && fd < kMaxFd && g_fd[fd].sim; }

int DoOpen(int dirfd, const char* path, int flags, mode_t mode) {
  Outside o;
  bool sys;
  std::string full;
  if (path[0] && path[0] != '/' && dirfd != AT_FDCWD && SimFd(dirfd)) {
    const std::string& d = g_fd[dirfd].path;
    full = (d.empty() || d[0] != '/' ? Cwd() + "/" : "") + d + "/" + path;
    path = full.c_str();
  }
  std::string real = Map(path, &sys), n = Norm(path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (sys) return int(RawErr(RawSyscall(SYS_openat, dirfd, long(path), flags, mode)));
  SysStep(2);
  if (OpenFault(n)) return -1;
  int fd = int(RawErr(RawSyscall(SYS_openat, dirfd, long(real.c_str()), flags, mode)));
  int e = errno;
  if (fd < 0 && e == ENOENT && !wr && Phantom(n)) {
    fd = OpenPhantom(n);
    Event('o', PathId(n), 0, flags, fd);
    return fd;
  }
  Event('o', PathId(n), fd < 0 ? e : 0, flags, fd);
  LogOpen(wr ? 'w' : 'r', fd >= 0, n);
  if (fd >= 0) Register(fd, n, wr);
  if (fd >= 0 && (flags & (O_CREAT | O_TRUNC))) Stamp(fd);
  errno = e;
  return fd;
}

FILE* DoFopen(const char* path, const char* mode) {
  static auto real = Real<FILE* (*)(const char*, const char*)>("fopen64");
  if (!g_in_sim) return real(path, mode);
  std::string m, n;
  bool sys, wr;
  {
    Outside o;
    m = Map(path, &sys);
    n = Norm(path);
    wr = strpbrk(mode, "wa+") != nullptr;
    if (!sys) {
      SysStep(2);
      if (OpenFault(n)) return nullptr;
    }
  }
  FILE* f = real(m.c_str(), mode);
  int e = errno;
  Outside o;
  if (!f && !sys && e == ENOENT && !wr && Phantom(n)) {
    f = fdopen(OpenPhantom(n), mode);
    Event('o', PathId(n), 0, 0, 0);
    { std::string().swap(m); std::string().swap(n); }
    return f;
  }
  if (!sys) {
    int fd = f ? fileno(f) : -1;
    Event('o', PathId(n), f ? 0 : e, wr, fd);
    LogOpen(wr ? 'w' : 'r', f != nullptr, n);
    if (f) Register(fd, n, wr);
    if (f && strpbrk(mode, "w")) Stamp(fd);
  }
  errno = e;
  { std::string().swap(m); std::string().swap(n); }
  return f;
}

int CloseFault(int fd) {  // errno or 0; forgets the fd
  FdState& s = g_fd[fd];
  int e = 0;
  if (Fault* f = Find(F_CLOSE_ERR, s.path)) { Fired(f); e = f->err; }
  Event('c', PathId(s.path), e, fd, 0);
  s.sim = false;
  return e;
}

int Mutate(const char* op, const char* a, const char* b, long (*call)(const char*, const char*, long), long x) {
  Outside o;
  SysStep(3);
  bool s1, s2 = false;
  std::string ra = Map(a, &s1), rb = b ? Map(b, &s2) : "";
  std::string t = Norm(a) + (b ? " " + Norm(b) : "");
  Note(op, t.c_str());
  if (s1 || s2) { errno = EACCES; return -1; }
  long r = RawErr(call(ra.c_str(), rb.c_str(), x));
  Event('m', PathId(Norm(a)), r < 0 ? errno : 0, 0, r);
  return int(r);
}
}  // namespace
std::string RealPath(const std::string& name) { return RealPathRaw(Norm(name)); }
namespace {
std::string RealPathRaw(const std::string& name) {
  std::string n = name;
  if (!n.empty() && n[0] == '/') return "rootfs" + n;
  if (n != ".." && n.compare(0, 3, "../") != 0) return n;
  std::string pre = "rootfs";
  while (n.compare(0, 3, "../") == 0) { pre += "/up"; n = n.substr(3); }
  if (n == "..") return pre + "/up";
  return pre + "/" + n;
}
}  // namespace
}  // namespace sim

using namespace sim;

extern "C" {
#define PASS(...) return int(RawErr(RawSyscall(__VA_ARGS__)))

int open(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  if (!g_in_sim) PASS(SYS_openat, AT_FDCWD, long(p), fl, m);
  return DoOpen(AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  if (!g_in_sim) PASS(SYS_openat, AT_FDCWD, long(p), fl | O_LARGEFILE, m);
  return DoOpen(AT_FDCWD, p, fl, m);
}
int openat(int d, const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  if (!g_in_sim) PASS(SYS_openat, d, long(p), fl, m);
  return DoOpen(d, p, fl, m);
}
int openat64(int d, const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  if (!g_in_sim) PASS(SYS_openat, d, long(p), fl, m);
  return DoOpen(d, p, fl, m);
}
int creat(const char* p, mode_t m) {
  if (!g_in_sim) PASS(SYS_openat, AT_FDCWD, long(p), O_CREAT | O_WRONLY | O_TRUNC, m);
  return DoOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
FILE* fopen(const char* p, const char* m) { return DoFopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return DoFopen(p, m); }

// Who asks a terminal nobody sits at waits for ever.
static void Silent(int fd) {
  if (fd == 0 && g_in_sim && g_plan->stdin_mode == 3) Die(E_DEADLOCK);
}
ssize_t read(int fd, void* b, size_t n) {
  if (SimFd(fd)) { Outside o; return DoRead(fd, b, n, -1); }
  Silent(fd);
  return RawErr(RawSyscall(SYS_read, fd, long(b), n));
}
ssize_t pread(int fd, void* b, size_t n, off_t o_) {
  if (SimFd(fd)) { Outside o; return DoRead(fd, b, n, o_); }
  return RawErr(RawSyscall(SYS_pread64, fd, long(b), n, o_));
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o_) { return pread(fd, b, n, o_); }
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!SimFd(fd)) Silent(fd);
  if (!SimFd(fd)) return RawErr(RawSyscall(SYS_readv, fd, long(v), c));
  Outside o;
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = DoRead(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if (size_t(r) < v[i].iov_len) break;
  }
  return t;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (SimFd(fd)) { Outside o; return DoWrite(fd, b, n, -1); }
  return RawErr(RawSyscall(SYS_write, fd, long(b), n));
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t p) {
  if (SimFd(fd)) { Outside o; return DoWrite(fd, b, n, p); }
  return RawErr(RawSyscall(SYS_pwrite64, fd, long(b), n, p));
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t p) { return pwrite(fd, b, n, p); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!SimFd(fd)) return RawErr(RawSyscall(SYS_writev, fd, long(v), c));
  Outside o;
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = DoWrite(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if (size_t(r) < v[i].iov_len) break;
  }
  return t;
}
int close(int fd) {
  if (!SimFd(fd)) PASS(SYS_close, fd);
  Outside o;
  SysStep(4);
  int e = CloseFault(fd);
  int r = int(RawErr(RawSyscall(SYS_close, fd)));
  if (e) { errno = e; return -1; }
  return r;
}
int fclose(FILE* f) {
  static auto real = Real<int (*)(FILE*)>("fclose");
  int fd = f ? fileno(f) : -1;
  if (!SimFd(fd)) return real(f);
  int e;
  { Outside o; SysStep(4); e = CloseFault(fd); }
  int r = real(f);
  if (e) { errno = e; return EOF; }
  return r;
}
off_t lseek(int fd, off_t off, int wh) {
  if (!SimFd(fd)) return RawErr(RawSyscall(SYS_lseek, fd, off, wh));
  Outside o;
  SysStep(5);
  FdState& s = g_fd[fd];
  if (s.d && s.d->noseek) {
    g_sh->fired[F_NOSEEK]++;
    Event('s', PathId(s.path), ESPIPE, off, wh);
    errno = ESPIPE;
    return -1;
  }
  long r = RawErr(RawSyscall(SYS_lseek, fd, off, wh));
  if (r >= 0) s.off = r;
  Event('s', PathId(s.path), r < 0 ? errno : 0, off, r);
  return r;
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
int ioctl(int fd, unsigned long req, ...) {
  va_list a; va_start(a, req); void* p = va_arg(a, void*); va_end(a);
  if (fd == 0 && g_in_sim && g_plan->stdin_mode == 3 && req == TCGETS) { memset(p, 0, 36); return 0; }
  long r = RawErr(RawSyscall(SYS_ioctl, fd, req, long(p)));
  if (SimFd(fd) && req == FIONREAD && r == 0 && g_fd[fd].d && g_fd[fd].d->max_read)
    *static_cast<int*>(p) = std::min<int>(*static_cast<int*>(p), 1 + int(g_fd[fd].rng.below(g_fd[fd].d->max_read)));
  // a pipe whose writer has not come round to the rest yet
  if (SimFd(fd) && req == FIONREAD && r == 0 && g_fd[fd].d && g_fd[fd].d->noseek && g_fd[fd].rng.below(2)) *static_cast<int*>(p) = 0;
  return int(r);
}
int poll(struct pollfd* f, nfds_t n, int ms) {
  if (!g_in_sim) PASS(SYS_poll, long(f), n, ms);
  Outside o;
  SysStep(5);
  bool wait = ms >= 0;
  for (nfds_t i = 0; i < n; i++) {
    int fd = f[i].fd;
    wait &= fd >= 0 && SimFd(fd) && g_fd[fd].d && g_fd[fd].d->noseek && g_fd[fd].rng.below(2);
    f[i].revents = 0;
  }
  if (wait && n) {  // nothing has come yet
    g_vt_extra += int64_t(ms) * 1000000;
    return 0;
  }
  return int(RawErr(RawSyscall(SYS_poll, long(f), n, 0)));
}
int ppoll(struct pollfd* f, nfds_t n, const struct timespec* t, const sigset_t*) { return poll(f, n, t ? int(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int fstat(int fd, struct stat* st) {
  long r = RawErr(RawSyscall(SYS_newfstatat, fd, long(""), long(st), AT_EMPTY_PATH));
  if (r == 0 && SimFd(fd) && g_fd[fd].d && g_fd[fd].d->noseek) {
    st->st_mode = (st->st_mode & ~S_IFMT) | S_IFIFO;
    st->st_size = 0;
  }
  if (r == 0 && SimFd(fd)) Virtual(st, g_fd[fd].path);
  if (r == 0 && fd == 0 && g_in_sim && g_plan->stdin_mode == 3) st->st_mode = S_IFCHR | 0620;
  return int(r);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
static int Stat(const char* p, struct stat* st, int fl) {
  if (!g_in_sim) PASS(SYS_newfstatat, AT_FDCWD, long(p), long(st), fl);
  Outside o;
  bool sys;
  std::string m = Map(p, &sys);
  SysStep(6);
  std::string n = Norm(p);
  int r = int(RawErr(RawSyscall(SYS_newfstatat, AT_FDCWD, long(m.c_str()), long(st), fl)));
  int e = errno;
  if (r < 0 && !sys && e == ENOENT && Phantom(n)) {
    memset(st, 0, sizeof *st);
    st->st_mode = (Hash(n.data(), n.size(), g_plan->phantom + 1) % 3 ? S_IFREG | 0644 : S_IFDIR | 0755);
    st->st_nlink = 1;
    st->st_size = off_t(PhantomText(n).size());
    Virtual(st, n);
    r = 0;
  } else if (r == 0 && !sys) {
    if (S_ISREG(st->st_mode)) Virtual(st, n);
    else { st->st_mtim = {}; st->st_ctim = st->st_atim = {}; Virtual(st, n); }
  }
  Event('t', PathId(n), r < 0 ? e : 0, 0, 0);
  errno = e;
  return r;
}
int stat(const char* p, struct stat* st) { return Stat(p, st, 0); }
int stat64(const char* p, struct stat64* st) { return Stat(p, reinterpret_cast<struct stat*>(st), 0); }
int lstat(const char* p, struct stat* st) { return Stat(p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return Stat(p, reinterpret_cast<struct stat*>(st), AT_SYMLINK_NOFOLLOW); }
int access(const char* p, int mode) {
  if (!g_in_sim) PASS(SYS_faccessat, AT_FDCWD, long(p), mode, 0);
  Outside o;
  bool sys;
  std::string m = Map(p, &sys);
  SysStep(6);
  long r = RawErr(RawSyscall(SYS_faccessat, AT_FDCWD, long(m.c_str()), mode, 0));
  int e = errno;
  if (r < 0 && !sys && e == ENOENT && Phantom(Norm(p))) return 0;
  errno = e;
  return int(r);
}
int faccessat(int d, const char* p, int mode, int fl) {
  if (!g_in_sim || (d != AT_FDCWD && p[0] != '/')) PASS(SYS_faccessat, d, long(p), mode, fl);
  return access(p, mode);
}
int euidaccess(const char* p, int mode) { return access(p, mode); }
int eaccess(const char* p, int mode) { return access(p, mode); }
int fstatat(int d, const char* p, struct stat* st, int fl) {
  if (!g_in_sim || (d != AT_FDCWD && p[0] != '/')) PASS(SYS_newfstatat, d, long(p), long(st), fl);
  return Stat(p, st, fl);
}
int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, reinterpret_cast<struct stat*>(st), fl); }
DIR* opendir(const char* p) {
  static auto real = Real<DIR* (*)(const char*)>("opendir");
  if (!g_in_sim) return real(p);
  std::string m;
  bool sys;
  { Outside o; m = Map(p, &sys); SysStep(6); }
  DIR* d = real(m.c_str());
  { std::string().swap(m); }
  return d;
}
ssize_t readlink(const char* p, char* b, size_t n) {
  if (!g_in_sim) return RawErr(RawSyscall(SYS_readlink, long(p), long(b), n));
  Outside o;
  bool sys;
  std::string m = Map(p, &sys);
  SysStep(6);
  return RawErr(RawSyscall(SYS_readlink, long(m.c_str()), long(b), n));
}

// --- calls that change the file system
int unlink(const char* p) {
  if (!g_in_sim) PASS(SYS_unlinkat, AT_FDCWD, long(p), 0);
  return Mutate("unlink", p, nullptr, [](const char* a, const char*, long) { return RawSyscall(SYS_unlinkat, AT_FDCWD, long(a), 0); }, 0);
}
int unlinkat(int d, const char* p, int fl) {
  if (!g_in_sim) PASS(SYS_unlinkat, d, long(p), fl);
  return Mutate("unlinkat", p, nullptr, [](const char* a, const char*, long x) { return RawSyscall(SYS_unlinkat, AT_FDCWD, long(a), x); }, fl);
}
int rmdir(const char* p) {
  if (!g_in_sim) PASS(SYS_unlinkat, AT_FDCWD, long(p), AT_REMOVEDIR);
  return Mutate("rmdir", p, nullptr, [](const char* a, const char*, long) { return RawSyscall(SYS_unlinkat, AT_FDCWD, long(a), AT_REMOVEDIR); }, 0);
}
int remove(const char* p) {
  int r = unlink(p);
  if (r < 0 && errno == EISDIR) return rmdir(p);
  return r;
}
int rename(const char* p, const char* q) {
  if (!g_in_sim) PASS(SYS_renameat2, AT_FDCWD, long(p), AT_FDCWD, long(q), 0);
  return Mutate("rename", p, q, [](const char* a, const char* b, long) { return RawSyscall(SYS_renameat2, AT_FDCWD, long(a), AT_FDCWD, long(b), 0); }, 0);
}
int mkdir(const char* p, mode_t m) {
  if (!g_in_sim) PASS(SYS_mkdirat, AT_FDCWD, long(p), m);
  return Mutate("mkdir", p, nullptr, [](const char* a, const char*, long x) { return RawSyscall(SYS_mkdirat, AT_FDCWD, long(a), x); }, m);
}
int symlink(const char* p, const char* q) {
  if (!g_in_sim) PASS(SYS_symlinkat, long(p), AT_FDCWD, long(q));
  return Mutate("symlink", p, q, [](const char* a, const char* b, long) { return RawSyscall(SYS_symlinkat, long(a), AT_FDCWD, long(b)); }, 0);
}
int link(const char* p, const char* q) {
  if (!g_in_sim) PASS(SYS_linkat, AT_FDCWD, long(p), AT_FDCWD, long(q), 0);
  return Mutate("link", p, q, [](const char* a, const char* b, long) { return RawSyscall(SYS_linkat, AT_FDCWD, long(a), AT_FDCWD, long(b), 0); }, 0);
}
int truncate(const char* p, off_t n) {
  if (!g_in_sim) PASS(SYS_truncate, long(p), n);
  return Mutate("truncate", p, nullptr, [](const char* a, const char*, long x) { return RawSyscall(SYS_truncate, long(a), x); }, n);
}
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int chmod(const char* p, mode_t m) {
  if (!g_in_sim) PASS(SYS_fchmodat, AT_FDCWD, long(p), m);
  return Mutate("chmod", p, nullptr, [](const char* a, const char*, long x) { return RawSyscall(SYS_fchmodat, AT_FDCWD, long(a), x); }, m);
}
// The same by way of a directory's handle.
static std::string Under(int d, const char* p) {
  Outside o;
  if (!p) return d >= 0 && SimFd(d) ? g_fd[d].path : std::string();
  if (p[0] == '/' || d == AT_FDCWD || d < 0 || !SimFd(d)) return p;
  return g_fd[d].path == "." ? std::string(p) : g_fd[d].path + "/" + p;
}
int renameat2(int d, const char* p, int e, const char* q, unsigned fl) {
  if (!g_in_sim) PASS(SYS_renameat2, d, long(p), e, long(q), fl);
  std::string a = Under(d, p), b = Under(e, q);
  return Mutate("rename", a.c_str(), b.c_str(), [](const char* x, const char* y, long f) { return RawSyscall(SYS_renameat2, AT_FDCWD, long(x), AT_FDCWD, long(y), f); }, fl);
}
int renameat(int d, const char* p, int e, const char* q) { return renameat2(d, p, e, q, 0); }
int mkdirat(int d, const char* p, mode_t m) {
  if (!g_in_sim) PASS(SYS_mkdirat, d, long(p), m);
  return mkdir(Under(d, p).c_str(), m);
}
int symlinkat(const char* p, int d, const char* q) {
  if (!g_in_sim) PASS(SYS_symlinkat, long(p), d, long(q));
  return symlink(p, Under(d, q).c_str());
}
int linkat(int d, const char* p, int e, const char* q, int fl) {
  if (!g_in_sim) PASS(SYS_linkat, d, long(p), e, long(q), fl);
  return link(Under(d, p).c_str(), Under(e, q).c_str());
}
int mknod(const char* p, mode_t m, dev_t) {
  if (!g_in_sim) PASS(SYS_mknodat, AT_FDCWD, long(p), m, 0);
  return Mutate("mknod", p, nullptr, [](const char* a, const char*, long x) { return RawSyscall(SYS_mknodat, AT_FDCWD, long(a), (x & 07777) | (S_ISFIFO(x) ? S_IFIFO : S_IFREG), 0); }, m);
}
int mknodat(int d, const char* p, mode_t m, dev_t v) { return mknod(Under(d, p).c_str(), m, v); }
int mkfifo(const char* p, mode_t m) { return mknod(p, (m & 07777) | S_IFIFO, 0); }
int mkfifoat(int d, const char* p, mode_t m) { return mknod(Under(d, p).c_str(), (m & 07777) | S_IFIFO, 0); }
// Modes, owners, times and attributes: noted, and not carried out.
static int Meta(const char* op, int d, const char* p) {
  std::string a = Under(d, p);
  return Mutate(op, a.c_str(), nullptr, [](const char* x, const char*, long) { return RawSyscall(SYS_faccessat, AT_FDCWD, long(x), F_OK); }, 0);
}
int lchmod(const char* p, mode_t m) { return chmod(p, m); }
int fchmodat(int d, const char* p, mode_t m, int fl) {
  if (!g_in_sim) PASS(SYS_fchmodat, d, long(p), m, fl);
  return chmod(Under(d, p).c_str(), m);
}
int fchmod(int fd, mode_t m) {
  if (!SimFd(fd)) PASS(SYS_fchmod, fd, m);
  return Meta("chmod", fd, nullptr);
}
int chown(const char* p, uid_t u, gid_t g) { if (!g_in_sim) PASS(SYS_fchownat, AT_FDCWD, long(p), u, g, 0); return Meta("chown", AT_FDCWD, p); }
int lchown(const char* p, uid_t u, gid_t g) { if (!g_in_sim) PASS(SYS_fchownat, AT_FDCWD, long(p), u, g, AT_SYMLINK_NOFOLLOW); return Meta("chown", AT_FDCWD, p); }
int fchownat(int d, const char* p, uid_t u, gid_t g, int fl) { if (!g_in_sim) PASS(SYS_fchownat, d, long(p), u, g, fl); return Meta("chown", d, p); }
int fchown(int fd, uid_t u, gid_t g) { if (!SimFd(fd)) PASS(SYS_fchown, fd, u, g); return Meta("chown", fd, nullptr); }
int utimensat(int d, const char* p, const struct timespec* t, int fl) { if (!g_in_sim) PASS(SYS_utimensat, d, long(p), long(t), fl); return Meta("utime", d, p); }
int futimens(int fd, const struct timespec* t) { if (!SimFd(fd)) PASS(SYS_utimensat, fd, 0, long(t), 0); return Meta("utime", fd, nullptr); }
int utime(const char* p, const struct utimbuf* t) { if (!g_in_sim) PASS(SYS_utime, long(p), long(t)); return Meta("utime", AT_FDCWD, p); }
int utimes(const char* p, const struct timeval* t) { if (!g_in_sim) PASS(SYS_utimes, long(p), long(t)); return Meta("utime", AT_FDCWD, p); }
int lutimes(const char* p, const struct timeval*) { return Meta("utime", AT_FDCWD, p); }
int futimes(int fd, const struct timeval*) { return SimFd(fd) ? Meta("utime", fd, nullptr) : 0; }
int futimesat(int d, const char* p, const struct timeval* t) { if (!g_in_sim) PASS(SYS_futimesat, d, long(p), long(t)); return Meta("utime", d, p); }
int setxattr(const char* p, const char* n, const void* v, size_t l, int fl) { if (!g_in_sim) PASS(SYS_setxattr, long(p), long(n), long(v), l, fl); return Meta("setxattr", AT_FDCWD, p); }
int lsetxattr(const char* p, const char* n, const void* v, size_t l, int fl) { if (!g_in_sim) PASS(SYS_lsetxattr, long(p), long(n), long(v), l, fl); return Meta("setxattr", AT_FDCWD, p); }
int fsetxattr(int fd, const char* n, const void* v, size_t l, int fl) { if (!SimFd(fd)) PASS(SYS_fsetxattr, fd, long(n), long(v), l, fl); return Meta("setxattr", fd, nullptr); }
int removexattr(const char* p, const char* n) { if (!g_in_sim) PASS(SYS_removexattr, long(p), long(n)); return Meta("removexattr", AT_FDCWD, p); }

// Locks: free, or held by another process that does not let go.
static int Lock(bool wait) {
  if (!g_plan->locks) return 0;
  g_sh->fired[F_LOCKED]++;
  if (wait) Die(E_DEADLOCK);
  errno = EWOULDBLOCK;
  return -1;
}
int flock(int fd, int op) {
  if (!SimFd(fd)) PASS(SYS_flock, fd, op);
  Outside o;
  SysStep(3);
  return (op & LOCK_UN) ? 0 : Lock(!(op & LOCK_NB));
}
int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
  bool set = cmd == F_SETLK || cmd == F_OFD_SETLK, wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW, get = cmd == F_GETLK || cmd == F_OFD_GETLK;
  if (!SimFd(fd) || !(set || wait || get)) PASS(SYS_fcntl, fd, cmd, arg);
  Outside o;
  SysStep(3);
  auto* l = reinterpret_cast<struct flock*>(arg);
  if (get) { if (!g_plan->locks) l->l_type = F_UNLCK; return 0; }
  return l->l_type == F_UNLCK ? 0 : Lock(wait);
}
int fcntl64(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
  return fcntl(fd, cmd, arg);
}
int lockf(int fd, int cmd, off_t) {
  if (!SimFd(fd)) return 0;
  Outside o;
  SysStep(3);
  return cmd == F_ULOCK ? 0 : Lock(cmd == F_LOCK);
}
int lockf64(int fd, int cmd, off64_t n) { return lockf(fd, cmd, n); }
int ftruncate(int fd, off_t n) {
  if (SimFd(fd)) {
    Outside o;
    SysStep(3);
    Note("ftruncate", g_fd[fd].path.c_str());
  }
  PASS(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
static int MkTemp(char* t, int suffix, int flags) {
  size_t n = strlen(t);
  static int seq = 0;
  char d[8];
  snprintf(d, sizeof d, "%06d", ++seq % 1000000);
  memcpy(t + n - suffix - 6, d, 6);
  Note("mkstemp", t);
  return DoOpen(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
}
int mkstemp(char* t) {
  static auto real = Real<int (*)(char*)>("mkstemp");
  return g_in_sim ? MkTemp(t, 0, 0) : real(t);
}
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t, int f) {
  static auto real = Real<int (*)(char*, int)>("mkostemp");
  return g_in_sim ? MkTemp(t, 0, f) : real(t, f);
}
int mkstemps(char* t, int s) {
  static auto real = Real<int (*)(char*, int)>("mkstemps");
  return g_in_sim ? MkTemp(t, s, 0) : real(t, s);
}
FILE* tmpfile() {
  static auto real = Real<FILE* (*)()>("tmpfile");
  Note("tmpfile", "");
  return real();
}
FILE* tmpfile64() { return tmpfile(); }
FILE* popen(const char* c, const char* m) {
  static auto real = Real<FILE* (*)(const char*, const char*)>("popen");
  if (!g_in_sim) return real(c, m);
  Note("popen", c);
  errno = EPERM;
  return nullptr;
}
int system(const char* c) {
  static auto real = Real<int (*)(const char*)>("system");
  if (!g_in_sim) return real(c);
  Note("system", c ? c : "");
  return -1;
}
int execve(const char* p, char* const a[], char* const e[]) {
  if (!g_in_sim) PASS(SYS_execve, long(p), long(a), long(e));
  Note("execve", p);
  errno = EPERM;
  return -1;
}
int chdir(const char* p) {
  if (!g_in_sim) PASS(SYS_chdir, long(p));
  Outside o;
  bool sys;
  struct stat st;
  SysStep(6);
  std::string m = Map(p, &sys);
  if (sys) { errno = EACCES; return -1; }
  if (RawErr(RawSyscall(SYS_newfstatat, AT_FDCWD, long(m.c_str()), long(&st), 0)) < 0) return -1;
  if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
  g_cd = Norm(p);
  return 0;
}
int fchdir(int fd) {
  if (!g_in_sim) PASS(SYS_fchdir, fd);
  Outside o;
  struct stat st;
  SysStep(6);
  if (RawErr(RawSyscall(SYS_fstat, fd, long(&st))) < 0) return -1;
  if (!S_ISDIR(st.st_mode) || !SimFd(fd)) { errno = ENOTDIR; return -1; }
  g_cd = g_fd[fd].path;
  return 0;
}

// --- clock
// Before main() the simulated clock stands still, so that static initialisers
// read the same time in every execution.
static const int64_t kBeforeMain = 1600000000;
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_world_up) { ts->tv_sec = kBeforeMain; ts->tv_nsec = 0; return 0; }
  if (!g_in_sim) PASS(SYS_clock_gettime, c, long(ts));
  Outside o;
  int64_t v = ClockRead();
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (!g_world_up) { tv->tv_sec = kBeforeMain; tv->tv_usec = 0; return 0; }
  if (!g_in_sim) PASS(SYS_gettimeofday, long(tv), 0);
  Outside o;
  int64_t v = ClockRead();
  tv->tv_sec = v / 1000000000;
  tv->tv_usec = v % 1000000000 / 1000;
  return 0;
}
time_t time(time_t* t) {
  time_t r;
  if (!g_world_up) r = kBeforeMain;
  else if (!g_in_sim) r = RawSyscall(SYS_time, 0);
  else { Outside o; r = ClockRead() / 1000000000; }
  if (t) *t = r;
  return r;
}
clock_t clock() {
  if (!g_in_sim) { static auto real = Real<clock_t (*)()>("clock"); return real(); }
  return clock_t(g_sh->steps);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!g_in_sim) PASS(SYS_nanosleep, long(a), long(b));
  g_sh->slept_ns += a->tv_sec * 1000000000LL + a->tv_nsec;
  g_vt_extra += a->tv_sec * 1000000000LL + a->tv_nsec;
  SchedYield();
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (!g_in_sim) PASS(SYS_clock_nanosleep, c, fl, long(a), long(b));
  if (fl & TIMER_ABSTIME) {
    int64_t w = a->tv_sec * 1000000000LL + a->tv_nsec - Vt();
    if (w > 0) { g_vt_extra += w; g_sh->slept_ns += w; }
  } else {
    g_sh->slept_ns += a->tv_sec * 1000000000LL + a->tv_nsec;
    g_vt_extra += a->tv_sec * 1000000000LL + a->tv_nsec;
  }
  SchedYield();
  return 0;
}
unsigned alarm(unsigned s) {
  if (!g_in_sim) { struct itimerval n = {{0, 0}, {time_t(s), 0}}; RawSyscall(SYS_setitimer, ITIMER_REAL, long(&n), 0); return 0; }
  return unsigned((SetAlarm(int64_t(s) * 1000000000, 0) + 999999999) / 1000000000);
}
useconds_t ualarm(useconds_t u, useconds_t e) { return useconds_t(SetAlarm(int64_t(u) * 1000, int64_t(e) * 1000) / 1000); }
int setitimer(__itimer_which_t w, const struct itimerval* n, struct itimerval* old) {
  if (!g_in_sim || w != ITIMER_REAL) return int(RawErr(RawSyscall(SYS_setitimer, w, long(n), long(old))));
  auto ns = [](const struct timeval& t) { return t.tv_sec * 1000000000LL + t.tv_usec * 1000LL; };
  int64_t every = g_alarm_every, left = SetAlarm(n ? ns(n->it_value) : 0, n ? ns(n->it_interval) : 0);
  if (old) *old = {{time_t(every / 1000000000), suseconds_t(every % 1000000000 / 1000)}, {time_t(left / 1000000000), suseconds_t(left % 1000000000 / 1000)}};
  return 0;
}
int usleep(useconds_t u) {
  struct timespec t = {time_t(u / 1000000), long(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec t = {time_t(s), 0};
  nanosleep(&t, nullptr);
  return 0;
}
int sched_yield() {
  if (g_in_sim) SchedYield();
  else RawSyscall(SYS_sched_yield);
  return 0;
}

// --- environment
// A variable nobody documented may be set to anything.
static char* EnvNoise(const char* n) {
  static const char* const vals[] = {"1", "0", "", "yes", "other", "/nowhere", "de_DE.UTF-8", "%s%n", "-1", "4096", ".", "/tmp", "/home/user", "1234567890", "86400"};
  static const char* const known[] = {"TZ", "TZDIR", "LOCALTIME", "LANG", "LANGUAGE", "LC_ALL", "SIM_REEXEC"};
  for (auto k : known) if (strcmp(n, k) == 0) return nullptr;
  if (strncmp(n, "LC_", 3) == 0) return nullptr;
  return const_cast<char*>(vals[Hash(n, strlen(n), g_plan->env_any) % 15]);
}
static char* Getenv(const char* n) {
  size_t l = strlen(n);
  for (char** e = environ; e && *e; e++)
    if (strncmp(*e, n, l) == 0 && (*e)[l] == '=') return *e + l + 1;
  if (g_in_sim && g_plan->env_any) return EnvNoise(n);
  return nullptr;
}
char* getenv(const char* n) { return Getenv(n); }
char* secure_getenv(const char* n) { return Getenv(n); }

// --- identity and randomness
pid_t getpid() { return g_in_sim ? g_plan->pid : pid_t(RawSyscall(SYS_getpid)); }
static void Random(void* b, size_t n) {
  static Rng r(0);
  static uint64_t seeded = ~0ULL;
  if (seeded != g_plan->rnd_seed) { r = Rng(g_plan->rnd_seed); seeded = g_plan->rnd_seed; }
  auto* p = static_cast<unsigned char*>(b);
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(r.next() >> 24);
}
ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (!g_in_sim) return RawErr(RawSyscall(SYS_getrandom, long(b), n, fl));
  Random(b, n);
  return n;
}
int getentropy(void* b, size_t n) {
  if (!g_in_sim) return int(RawErr(RawSyscall(SYS_getrandom, long(b), n, 0))) >= 0 ? 0 : -1;
  Random(b, n);
  return 0;
}
pid_t gettid() { return g_in_sim ? g_plan->pid : pid_t(RawSyscall(SYS_gettid)); }
unsigned long getauxval(unsigned long k) {
  static auto real = Real<unsigned long (*)(unsigned long)>("getauxval");
  static unsigned char bytes[16];
  if (!g_in_sim || k != AT_RANDOM) return real(k);
  Random(bytes, sizeof bytes);
  return reinterpret_cast<unsigned long>(bytes);
}
uint32_t arc4random() {
  uint32_t v;
  if (g_in_sim) Random(&v, 4);
  else RawSyscall(SYS_getrandom, long(&v), 4, 0);
  return v;
}
void arc4random_buf(void* b, size_t n) {
  if (g_in_sim) Random(b, n);
  else RawSyscall(SYS_getrandom, long(b), n, 0);
}

// --- the machine, the user, the terminal
#define ID(bound) (Hash(__func__, strlen(__func__), g_plan->id_seed) % (bound))
#define OTHER (g_in_sim && g_plan->id_seed)
int gethostname(char* b, size_t n) {
  if (OTHER) { snprintf(b, n, "host%d", int(ID(1000))); return 0; }
  static auto real = Real<int (*)(char*, size_t)>("gethostname");
  return real(b, n);
}
int uname(struct utsname* u) {
  long r = RawErr(RawSyscall(SYS_uname, long(u)));
  if (OTHER) {
    snprintf(u->nodename, sizeof u->nodename, "host%d", int(ID(1000)));
    snprintf(u->release, sizeof u->release, "%d.1.%d", int(2 + ID(6)), int(ID(100)));
    strcpy(u->machine, ID(2) ? "aarch64" : "riscv64");
  }
  return int(r);
}
uid_t getuid() { return OTHER ? uid_t(ID(3) ? ID(3000) : 0) : uid_t(RawSyscall(SYS_getuid)); }
uid_t geteuid() { return OTHER ? uid_t(ID(3) ? ID(3000) : 0) : uid_t(RawSyscall(SYS_geteuid)); }
gid_t getgid() { return OTHER ? gid_t(ID(3) ? ID(3000) : 0) : gid_t(RawSyscall(SYS_getgid)); }
gid_t getegid() { return OTHER ? gid_t(ID(3) ? ID(3000) : 0) : gid_t(RawSyscall(SYS_getegid)); }
pid_t getppid() { return g_in_sim ? pid_t(OTHER && !ID(3) ? 1 : 77 + int(g_plan->id_seed)) : pid_t(RawSyscall(SYS_getppid)); }
char* getlogin() {
  static char b[16];
  if (!OTHER) return nullptr;
  snprintf(b, sizeof b, "user%d", int(ID(100)));
  return b;
}
int isatty(int fd) {
  if (fd == 0 && g_in_sim && g_plan->stdin_mode == 3) return 1;
  if (OTHER) return int(Hash(&fd, sizeof fd, g_plan->id_seed) % 2);
  struct termios t;
  return RawErr(RawSyscall(SYS_ioctl, fd, TCGETS, long(&t))) == 0;
}
int get_nprocs() { return OTHER ? 1 + int(ID(64)) : 4; }
int get_nprocs_conf() { return get_nprocs(); }
int sched_getcpu() { return OTHER ? int(ID(64)) : 0; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t* s) {
  long r = RawSyscall(SYS_sched_getaffinity, p, n, long(s));
  if (r < 0) return int(RawErr(r));
  if (size_t(r) < n) memset(reinterpret_cast<char*>(s) + r, 0, n - size_t(r));
  if (g_in_sim) {
    CPU_ZERO_S(n, s);
    for (int i = 0, k = get_nprocs(); i < k; i++) CPU_SET_S(size_t(i), n, s);
  }
  return 0;
}
static void OtherSpace(struct statvfs* s) {
  s->f_bfree = s->f_bavail = ID(4) ? ID(100000000) : 0;
  s->f_ffree = s->f_favail = ID(4) ? ID(100000000) : 0;
  s->f_fsid = ID(1000000);
  s->f_bsize = 512u << ID(8);
}
int statvfs(const char* p, struct statvfs* s) {
  static auto real = Real<int (*)(const char*, struct statvfs*)>("statvfs");
  if (!g_in_sim) return real(p, s);
  Outside o;
  bool sys;
  std::string m = Map(p, &sys);
  int r = real(m.c_str(), s);
  if (r == 0 && OTHER) OtherSpace(s);
  return r;
}
int statvfs64(const char* p, struct statvfs64* s) { return statvfs(p, reinterpret_cast<struct statvfs*>(s)); }
int fstatvfs(int fd, struct statvfs* s) {
  static auto real = Real<int (*)(int, struct statvfs*)>("fstatvfs");
  int r = real(fd, s);
  if (r == 0 && OTHER) OtherSpace(s);
  return r;
}
int fstatvfs64(int fd, struct statvfs64* s) { return fstatvfs(fd, reinterpret_cast<struct statvfs*>(s)); }
long sysconf(int k) {
  static auto real = Real<long (*)(int)>("sysconf");
  if (g_in_sim && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return get_nprocs();
  if (OTHER && (k == _SC_PHYS_PAGES || k == _SC_AVPHYS_PAGES)) return long(1000 + ID(1000000));
  return real(k);
}
int getrusage(__rusage_who_t who, struct rusage* u) {
  long r = RawErr(RawSyscall(SYS_getrusage, who, long(u)));
  if (g_in_sim) { memset(u, 0, sizeof *u); u->ru_maxrss = long(10000 + (OTHER ? ID(100000000) : 0)); u->ru_utime.tv_sec = Vt() / 1000000000 % 1000; }
  return int(r);
}
clock_t times(struct tms* t) {
  if (!g_in_sim) return clock_t(RawErr(RawSyscall(SYS_times, long(t))));
  if (t) memset(t, 0, sizeof *t);
  return clock_t(ClockRead() / 10000000);
}
int sysinfo(struct sysinfo* s) {
  long r = RawErr(RawSyscall(SYS_sysinfo, long(s)));
  if (g_in_sim) {
    memset(s, 0, sizeof *s);
    s->mem_unit = 1;
    s->totalram = s->freeram = 1000000000UL * (1 + (OTHER ? ID(60) : 7));
    s->uptime = long(OTHER ? ID(1000000) : 1000);
    s->procs = (unsigned short)(OTHER ? ID(1000) : 100);
  }
  return int(r);
}
static char* GiveString(const std::string& t, char* b, size_t n) {
  if (b && n <= t.size()) { errno = ERANGE; return nullptr; }
  if (!b) b = static_cast<char*>(malloc(std::max(n, t.size() + 1)));
  if (b) memcpy(b, t.c_str(), t.size() + 1);
  return b;
}
char* getcwd(char* b, size_t n) {
  static auto real = Real<char* (*)(char*, size_t)>("getcwd");
  if (!g_in_sim) return real(b, n);
  std::string c;
  { Outside o; c = CwdNow(); }
  char* r = GiveString(c, b, n);
  { Outside o; std::string().swap(c); }
  return r;
}
char* get_current_dir_name() { return getcwd(nullptr, 0); }
char* realpath(const char* p, char* b) {
  static auto real = Real<char* (*)(const char*, char*)>("realpath");
  if (!g_in_sim) return real(p, b);
  std::string c;
  char t[PATH_MAX];
  bool ok;
  {
    Outside o;
    bool sys;
    c = Map(p, &sys);
    ok = real(c.c_str(), t) != nullptr;
    if (ok) c = ToCwd(t);
  }
  int e = errno;
  char* r = ok ? GiveString(c, b, b ? PATH_MAX : 0) : nullptr;
  { Outside o; std::string().swap(c); }
  if (!ok) errno = e;
  return r;
}
char* __realpath_chk(const char* p, char* b, size_t) { return realpath(p, b); }
char* __getcwd_chk(char* b, size_t n, size_t) { return getcwd(b, n); }
char* canonicalize_file_name(const char* p) { return realpath(p, nullptr); }
int getrlimit64(__rlimit_resource_t k, struct rlimit64* r) {
  long e = RawErr(RawSyscall(SYS_prlimit64, 0, k, 0, long(r)));
  if (e == 0 && OTHER) {
    static const uint64_t st[] = {RLIM_INFINITY, 64 << 20, 1 << 20, 8 << 20, 256 << 10};
    if (k == RLIMIT_STACK) r->rlim_cur = st[ID(5)];
    if (k == RLIMIT_AS || k == RLIMIT_DATA || k == RLIMIT_FSIZE) r->rlim_cur = ID(2) ? RLIM_INFINITY : 4000000000UL;
    if (k == RLIMIT_NOFILE) r->rlim_cur = 20 + ID(2000);
  }
  return int(e);
}
int getrlimit(__rlimit_resource_t k, struct rlimit* r) { return getrlimit64(k, reinterpret_cast<struct rlimit64*>(r)); }
int getloadavg(double* v, int n) {
  for (int i = 0; i < n; i++) v[i] = g_in_sim && !OTHER ? 0.5 : double((g_plan ? g_plan->id_seed : 0) % 90);
  return n;
}
}

// libstdc++ asks the processor, which cannot be told what to answer.
std::random_device::result_type std::random_device::_M_getval() {
  result_type v;
  if (getentropy(&v, sizeof v)) abort();
  return v;
}
