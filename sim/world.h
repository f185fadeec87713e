// The simulated world: one child process per simulated run.  The parent
// (explorer) fills a Plan and the scratch directory, forks, and reads the
// results from a shared block and from the scratch directory.
#ifndef SIM_WORLD_H_
#define SIM_WORLD_H_
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- faults
enum FaultKind : int {
  F_OPEN_FAIL, F_READ_ERR, F_READ_EOF, F_WRITE_ERR, F_CLOSE_ERR,
  F_READ_SHORT, F_WRITE_SHORT, F_READ_EINTR, F_WRITE_EINTR, F_NOSEEK,
  F_CRASH_OP, F_CRASH_BYTE, F_CRASH_STEP,
  F_ALLOC, F_CLOCK_JUMP, F_LATENCY, F_PREEMPT, F_STDERR_BROKEN,
  F_STORAGE, F_STALE_OUTPUT, F_ENV_NOISE, F_DIRTY_MEM, F_STREAM_ERR, F_PHANTOM, F_HOST, F_LOCALE,
  F_SIGNAL, F_SWAP, F_LOCKED, F_SILENT_TTY,
  F_NKINDS
};
extern const char* const kFaultName[F_NKINDS];

struct Fault {
  FaultKind kind;
  std::string path;   // normalised path the fault applies to ("*": any)
  int64_t at = 0;     // open index / byte offset
  int err = 5;        // errno
  int64_t count = 1;  // how many calls fail; <0: all of them
  int64_t used = 0;
};

struct Delivery {     // how I/O on a path is delivered
  std::string path;   // "*": every simulated file
  uint64_t seed = 0;
  uint32_t max_read = 0, max_write = 0;  // 0: whole
  uint32_t eintr_per_1k = 0;
  bool noseek = false;
  uint64_t latency_ns = 0;
};

struct Jump {
  int on;        // 0: step, 1: op, 2: clock read
  uint64_t at;
  int64_t delta_ns;
};

enum AllocMode : int { A_NONE, A_NTH, A_FROM, A_SIZE };

enum Mode : int { M_PROC, M_LIBSEQ, M_THREADS };

// Another process puts a new file in the place of one (by rename, in one step)
// or removes it, just before an operation of the simulated process.
struct Swap {
  int64_t op = 1;
  std::string path;      // as named in the scenario
  bool gone = false;
  std::string data;
  std::string from, to;  // real names, filled in by Exec
  uint64_t ino = 0;      // of the real file that comes
};

// An action of a library-mode child.
struct Act {
  enum K : int { CONVERT, WRITE_FILE, REMOVE_FILE } k = CONVERT;
  std::string src;        // name passed as the script's name
  std::string file;       // CONVERT: script path to open ("" : use text)
  std::string text;       // script text for string streams / file content
  std::string out;        // output path; "" : string stream
  int64_t out_limit = -1; // string-stream output: fails after that many bytes
  int out_fail_sync = 0;  // k-th sync fails
  uint64_t host = 0;      // >0: the caller has its own idea of streams and locales
  std::string lead, head; // what the caller read, and wrote, before
  std::string c_locale;   // what the caller gave to setlocale()
};

struct Plan {
  Mode mode = M_PROC;
  std::vector<std::string> argv;
  std::vector<std::pair<std::string, std::string>> env;
  std::vector<Fault> faults;
  std::vector<Delivery> delivery;
  int64_t crash_op = -1, crash_byte = -1, crash_step = -1;
  int crash_sig = 0;        // >0: no sudden death at that point but a signal
  // clock
  int64_t clock_base_ns = 1600000000LL * 1000000000LL;
  uint64_t per_step_ns = 0, per_op_ns = 0, per_read_ns = 0;
  std::vector<Jump> jumps;
  // memory
  uint64_t fill_seed = 1;
  int fill_mode = 0;
  uint32_t heap_shift = 0;  // pages the heap is displaced by
  uint32_t stack_shift = 0; // 16-byte units
  uint64_t heap_scatter = 0; // >0: blocks come from all over the heap, in any order
  AllocMode alloc_mode = A_NONE;
  int64_t alloc_n = 0, alloc_size = 0;
  std::vector<Swap> swaps;
  int stderr_mode = 0;      // 0: capture, 1: /dev/full
  int stdin_mode = 0;       // 0: empty, 1: with stdin_text to read, 2: closed, 3: a silent terminal
  int fresh = 0;            // 1: every file was written just now, whenever one looks
  int locks = 0;            // 1: another process holds a lock on every file
  std::string stdin_text;
  uint64_t rnd_seed = 7;
  int pid = 4242;
  uint64_t env_any = 0;     // >0: every variable that is asked for has a value
  uint64_t id_seed = 0;     // >0: another host, user, machine, terminal
  uint64_t phantom = 0;     // >0: files nobody named are there for whoever looks
  std::set<std::string> known;  // names that are no phantoms
  int fd_limit = 0;         // >0: how many files may be open at once
  // limits
  uint64_t max_steps = 400000000ULL, max_ops = 30000000ULL;
  // library modes
  std::vector<Act> acts;
  std::string c_locale;     // what the caller gave to setlocale() in the beginning
  // threads
  std::vector<std::pair<uint64_t, uint32_t>> preempt;  // (global step, task)
  uint64_t quantum_seed = 0, quantum_max = 0;          // >0: quantum mode
  // >0: every place of the code gets about the same number of switches, however
  // often it is passed: the more often it was, the less likely the next one.
  uint64_t places = 0;
};

// ---------------------------------------------------------------- results
const int kActs = 640;      // most actions of a library-mode child
struct Ev { uint8_t op; uint8_t path; int16_t err; int32_t task; int64_t a, b; };
enum EndReason : int { E_NONE, E_CRASH, E_STEPS, E_OPS, E_DEADLOCK };

struct Shared {
  int phase;        // 1 entered, 2 returned, 3 exiting
  int end_reason;
  uint64_t steps, ops, allocs, allocs_failed, clock_reads, switches;
  uint64_t ev_hash, il_hash;
  uint64_t nev;
  Ev ev[2048];
  uint32_t fired[F_NKINDS];
  int64_t seg[256][2];
  int nseg;
  int64_t vt;       // final virtual time
  int64_t peak_b;   // most memory in use at once
  uint64_t moved;   // bytes that went through memcpy() and its like
  int64_t slept_ns;
  uint64_t bytes_in, bytes_out;
  // library modes, per action
  int nact;
  int ret[kActs];           // -1 not run, 0 false, 1 true, 2 exception
  int64_t live_n[kActs], live_b[kActs], fds[kActs];
  uint64_t act_steps[kActs];
  uint32_t pay_off[kActs], pay_len[kActs];
  // forbidden or noteworthy calls, "op path\n"
  uint32_t notes_len;
  char notes[1 << 15];
  uint32_t opens_len;       // every path opened: "r|w ok|fail path\n"
  char opens[1 << 16];
  uint32_t pay_used;
  char payload[24 << 20];
};

struct Outcome {
  bool exited = false;
  int code = 0, sig = 0;
  int end_reason = 0, phase = 0;
  uint64_t steps = 0, ops = 0, allocs = 0, allocs_failed = 0, clock_reads = 0, switches = 0;
  uint64_t ev_hash = 0, il_hash = 0, bytes_in = 0, bytes_out = 0;
  int64_t peak_b = 0, slept_ns = 0;
  uint64_t moved = 0;
  std::string err, out1;     // stderr, stdout
  std::string notes, opens;
  uint32_t fired[F_NKINDS] = {};
  std::vector<std::pair<int64_t, int64_t>> clock;  // virtual-time segments
  std::vector<int> ret;
  std::vector<std::string> pay;
  std::vector<int64_t> live_n, live_b, fds;
  std::vector<uint64_t> act_steps;
  std::string events;        // printable, only filled when asked for
  bool hang() const { return end_reason == E_STEPS || end_reason == E_OPS || end_reason == E_DEADLOCK || sig == 24; }
  std::string brief() const;
};

typedef std::map<std::string, std::string> Files;  // path -> content; "d/" dirs

extern Plan* g_plan;       // plan of the run about to start / running
extern Shared* g_sh;
extern std::string g_scratch;
extern uint64_t g_mtime_seed;  // ages of the files a case starts with

void InitWorld();                       // once per explorer process
void ResetScratch(const Files& files);  // scratch := exactly these files
Files ReadScratch();                    // everything in it
bool ReadFileRaw(const std::string& rel, std::string* out);
void WriteFileRaw(const std::string& rel, const std::string& data);
Outcome Exec(const Plan& plan, bool want_events = false);
void CleanupWorld();

// ---- used by the interposers
extern bool g_in_sim, g_world_up;
std::string Norm(const std::string& p);
std::string FromCwd(const std::string& p);
std::string RealPath(const std::string& p);  // of a simulated path, below the scratch directory
void SimStart();
void SimStop();
void Die(int reason);
void SignalSoon(int sig); // at the next basic block
void SysStep(int kind);  // account an operation, maybe crash, advance time
int64_t ClockRead();
int64_t RealOpenFds();
void LiveHeap(int64_t* n, int64_t* bytes);
void HeapStart();
void MovedInit();
void ScrubStack(char* base, size_t n);
void Note(const char* op, const char* path);
void RunThreads(size_t n, void (*body)(size_t));
void SchedYield();       // a blocking primitive would block: run someone else
bool InTask();

uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t Hash(const std::string& s) { return Hash(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  // Mixed well: neighbouring seeds must not give the same sequence, shifted.
  explicit Rng(uint64_t seed = 1) : s(seed * 0xD1342543DE82EF95ULL + 0x1234567) { s = next() ^ seed << 17; }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n < 2 ? 0 : next() % n; }
};

}  // namespace sim
#endif
