// The simulated heap: inside the simulation every allocation of the process
// comes from an arena at an address the plan decides, filled with garbage the
// plan decides, and can be made to fail.
#include <sys/mman.h>

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>

#include "heap.h"
#include "world.h"

namespace sim {
bool g_heap_sim = false;

#ifdef SIM_ASAN
void HeapStart() {}
void LiveHeap(int64_t* n, int64_t* b) { *n = *b = 0; }
void ScrubStack(char*, size_t) {}
#else
namespace {
constexpr uintptr_t kBase = 0x200000000000ULL;
constexpr size_t kSize = 4ULL << 30;
constexpr uint64_t kMagic = 0x51ABBA5EULL, kFreed = 0xDEADF1EEULL;
struct Hdr { uint64_t size; uint32_t magic, cls; };
static_assert(sizeof(Hdr) == 16, "");
struct FreeNode { FreeNode* next; };
FreeNode* g_free[512];
constexpr int kRegions = 8;
constexpr size_t kRegion = 128ULL << 20;  // all but the first
char *g_cur[kRegions], *g_end[kRegions];
uint64_t g_scatter;
int64_t g_live_n, g_live_b;
uint64_t g_fill;

void FillMem(char* p, size_t n) {
  const int mode = g_plan->fill_mode;
  auto* w = reinterpret_cast<uint64_t*>(p);
  size_t k = n / 8;
  switch (mode) {
    case 1: memset(p, 0, n); return;
    case 2: memset(p, 0xff, n); return;
    case 3: for (size_t i = 0; i < k; i++) w[i] = (g_fill + i) % 7; return;
    case 4: {
      double d = 1.0 + (g_fill++ % 1000) * 0.37;
      uint64_t v;
      memcpy(&v, &d, 8);
      for (size_t i = 0; i < k; i++) w[i] = v;
      return;
    }
    default: {
      uint64_t x = (g_fill += 0x9E3779B97F4A7C15ULL);
      for (size_t i = 0; i < k; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        w[i] = x;
      }
    }
  }
}

// class index and rounded size
uint32_t Class(size_t n, size_t* r) {
  if (n <= 2048) {
    size_t c = (n + 15) / 16;
    if (!c) c = 1;
    *r = c * 16;
    return c;
  }
  size_t p = 2048;
  uint32_t c = 129;
  for (;;) {
    for (int q = 5; q <= 8; q++, c++) {
      size_t s = p / 4 * q;
      if (n <= s) { *r = s; return c; }
    }
    p *= 2;
  }
}

bool ShouldFail(size_t n) {
  g_sh->allocs++;
  bool f = false;
  switch (g_plan->alloc_mode) {
    case A_NTH: f = int64_t(g_sh->allocs) == g_plan->alloc_n; break;
    case A_FROM: f = int64_t(g_sh->allocs) >= g_plan->alloc_n; break;
    case A_SIZE: f = int64_t(n) >= g_plan->alloc_size && int64_t(g_sh->allocs) >= g_plan->alloc_n; break;
    default: break;
  }
  if (f) { g_sh->allocs_failed++; g_sh->fired[F_ALLOC]++; }
  return f;
}

bool Mine(void* p) {
  auto u = reinterpret_cast<uintptr_t>(p);
  return u >= kBase && u < kBase + kSize + (64ULL << 20);
}

void* Get(size_t n) {
  if (ShouldFail(n) || n > (2ULL << 30)) { errno = ENOMEM; return nullptr; }
  size_t r;
  uint32_t c = Class(n, &r);
  Hdr* h;
  uint64_t dice = 0;
  if (g_scatter) {
    g_scatter ^= g_scatter << 13; g_scatter ^= g_scatter >> 7; g_scatter ^= g_scatter << 17;
    dice = g_scatter >> 20;
  }
  if (g_free[c] && dice % 4 < 2) {
    h = reinterpret_cast<Hdr*>(g_free[c]) - 1;
    g_free[c] = g_free[c]->next;
  } else {
    int k = r > (1 << 20) ? 0 : (dice >> 4) % kRegions;
    if (g_cur[k] + r + 16 > g_end[k]) k = 0;
    if (g_cur[k] + r + 16 > g_end[k]) { errno = ENOMEM; return nullptr; }
    h = reinterpret_cast<Hdr*>(g_cur[k]);
    g_cur[k] += r + 16;
  }
  h->size = n;
  h->magic = kMagic;
  h->cls = c;
  FillMem(reinterpret_cast<char*>(h + 1), r);
  g_live_n++;
  g_live_b += n;
  if (g_sh && g_live_b > g_sh->peak_b) g_sh->peak_b = g_live_b;
  return h + 1;
}

void Put(void* p) {
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic != kMagic) { abort(); }  // double or wild free
  h->magic = kFreed;
  g_live_n--;
  g_live_b -= h->size;
  size_t r;
  uint32_t c = Class(h->size, &r);
  // Only the head: enough for stale pointers and lengths, cheap for buffers.
  FillMem(reinterpret_cast<char*>(p), r < 256 ? r : 256);
  auto* f = reinterpret_cast<FreeNode*>(p);
  f->next = g_free[c];
  g_free[c] = f;
}
}  // namespace

void HeapStart() {
  size_t off = size_t(g_plan->heap_shift % 4096) * 4096;
  void* want = reinterpret_cast<void*>(kBase);
  void* got = mmap(want, kSize + (64ULL << 20), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (got != want) { static const char m[] = "sim: no arena\n"; (void)!::write(2, m, sizeof(m) - 1); _Exit(98); }
  uintptr_t top = kBase + kSize;
  for (int i = 1; i < kRegions; i++) {
    g_end[i] = reinterpret_cast<char*>(top);
    top -= kRegion;
    g_cur[i] = reinterpret_cast<char*>(top);
  }
  g_cur[0] = reinterpret_cast<char*>(kBase + off);
  g_end[0] = reinterpret_cast<char*>(top);
  g_scatter = g_plan->heap_scatter ? g_plan->heap_scatter * 0x9E3779B97F4A7C15ULL | 1 : 0;
  memset(g_free, 0, sizeof(g_free));
  g_live_n = g_live_b = 0;
  g_fill = g_plan->fill_seed;
}
void LiveHeap(int64_t* n, int64_t* b) { *n = g_live_n; *b = g_live_b; }
void ScrubStack(char* base, size_t n) { FillMem(base, n); }
#endif
}  // namespace sim

#ifndef SIM_ASAN
using namespace sim;
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);

void* malloc(size_t n) { return g_heap_sim ? Get(n) : __libc_malloc(n); }
void free(void* p) {
  if (!p) return;
  if (Mine(p)) { Put(p); return; }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!g_heap_sim) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = Get(n);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!Mine(p)) return __libc_realloc(p, n);
  if (n == 0) { Put(p); return nullptr; }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (!g_heap_sim) {  // simulator code growing a block of the tool: not expected
    void* q = __libc_malloc(n);
    if (q) { memcpy(q, p, h->size < n ? h->size : n); Put(p); }
    return q;
  }
  void* q = Get(n);
  if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n);
  Put(p);
  return q;
}
void* memalign(size_t al, size_t n) {
  if (!g_heap_sim || al > 16) {
    if (g_heap_sim && ShouldFail(n)) { errno = ENOMEM; return nullptr; }
    return __libc_memalign(al, n);
  }
  return Get(n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (Mine(p)) return (reinterpret_cast<Hdr*>(p) - 1)->size;
  return reinterpret_cast<size_t*>(p)[-1] & ~size_t(7);
}
}
#endif
