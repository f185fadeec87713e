// Work that is done outside of the instrumented code: the bytes that the
// block operations of the C library go through.  (Basic blocks count what the
// code under test does itself; a std::string grown from inside libstdc++, or a
// search from the beginning of a text again and again, is only seen here.)
#ifndef SIM_ASAN
#include <dlfcn.h>
#include <stddef.h>

#include "heap.h"
#include "world.h"

namespace {
template <class F> F* Find(F** p, const char* name) {
  if (!*p) *p = reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
  return *p;
}
inline void Count(size_t n) {
  if (sim::g_in_sim && sim::g_heap_sim) sim::g_sh->moved += n;
}
void* (*g_memcpy)(void*, const void*, size_t);
void* (*g_memmove)(void*, const void*, size_t);
void* (*g_memset)(void*, int, size_t);
void* (*g_memchr)(const void*, int, size_t);
int (*g_memcmp)(const void*, const void*, size_t);
size_t (*g_strlen)(const char*);
void* Fwd(void* d, const void* s, size_t n) {
  auto *a = static_cast<volatile char*>(d);
  auto *b = static_cast<const volatile char*>(s);
  for (size_t i = 0; i < n; i++) a[i] = b[i];
  return d;
}
}  // namespace

namespace sim {
void MovedInit() {
  g_memcpy = reinterpret_cast<decltype(g_memcpy)>(dlsym(RTLD_NEXT, "memcpy"));
  g_memmove = reinterpret_cast<decltype(g_memmove)>(dlsym(RTLD_NEXT, "memmove"));
  g_memset = reinterpret_cast<decltype(g_memset)>(dlsym(RTLD_NEXT, "memset"));
  g_memchr = reinterpret_cast<decltype(g_memchr)>(dlsym(RTLD_NEXT, "memchr"));
  g_memcmp = reinterpret_cast<decltype(g_memcmp)>(dlsym(RTLD_NEXT, "memcmp"));
  g_strlen = reinterpret_cast<decltype(g_strlen)>(dlsym(RTLD_NEXT, "strlen"));
}
}  // namespace sim

extern "C" {
void* memcpy(void* d, const void* s, size_t n) {
  Count(n);
  return g_memcpy ? g_memcpy(d, s, n) : Fwd(d, s, n);
}
void* memmove(void* d, const void* s, size_t n) {
  Count(n);
  if (g_memmove) return g_memmove(d, s, n);
  if (d <= s || static_cast<const char*>(s) + n <= d) return Fwd(d, s, n);
  auto *a = static_cast<volatile char*>(d);
  auto *b = static_cast<const volatile char*>(s);
  while (n--) a[n] = b[n];
  return d;
}
void* memset(void* d, int c, size_t n) {
  Count(n);
  if (g_memset) return g_memset(d, c, n);
  auto *a = static_cast<volatile char*>(d);
  for (size_t i = 0; i < n; i++) a[i] = char(c);
  return d;
}
void* memchr(const void* d, int c, size_t n) {
  auto *a = static_cast<const volatile unsigned char*>(d);
  void* r = nullptr;
  if (g_memchr) r = g_memchr(d, c, n);
  else for (size_t i = 0; i < n && !r; i++) if (a[i] == static_cast<unsigned char>(c)) r = const_cast<unsigned char*>(a) + i;
  Count(r ? static_cast<const char*>(r) - static_cast<const char*>(d) : n);
  return r;
}
int memcmp(const void* x, const void* y, size_t n) {
  Count(n);
  if (g_memcmp) return g_memcmp(x, y, n);
  auto *a = static_cast<const volatile unsigned char*>(x), *b = static_cast<const volatile unsigned char*>(y);
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
size_t strlen(const char* s) {
  size_t n = 0;
  if (g_strlen) n = g_strlen(s);
  else for (auto *v = static_cast<const volatile char*>(s); v[n];) n++;
  Count(n);
  return n;
}
}
#else
namespace sim { void MovedInit() {} }
#endif
