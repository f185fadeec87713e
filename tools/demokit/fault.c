// Preloaded into the command: makes chosen I/O calls fail.
// FAULT_READ=suffix:offset:errno[:times]   reads of the file fail once offset bytes were read
// FAULT_WRITE=suffix:offset:errno[:times]  writes fail once offset bytes were written
// FAULT_OPEN=suffix:errno[:times]          opens fail
// FAULT_CLOSE=suffix:errno                 close reports an error
// FAULT_CHUNK=n                            reads and writes transfer at most n bytes
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

typedef struct { int on; char suffix[256]; long off; int err; long times; long seen; } Rule;
static Rule rd, wr, op, cl;
static long chunk;

static void parse(Rule* r, const char* env, int has_off) {
  const char* s = getenv(env);
  if (!s || !*s) return;
  char b[600];
  snprintf(b, sizeof b, "%s", s);
  char* save;
  char* p = strtok_r(b, ":", &save);
  snprintf(r->suffix, sizeof r->suffix, "%s", p);
  if (has_off && (p = strtok_r(0, ":", &save))) r->off = atol(p);
  if ((p = strtok_r(0, ":", &save))) r->err = atoi(p);
  r->times = (p = strtok_r(0, ":", &save)) ? atol(p) : 1000000000L;
  r->on = 1;
}
__attribute__((constructor)) static void init(void) {
  parse(&rd, "FAULT_READ", 1);
  parse(&wr, "FAULT_WRITE", 1);
  parse(&op, "FAULT_OPEN", 0);
  parse(&cl, "FAULT_CLOSE", 0);
  if (getenv("FAULT_CHUNK")) chunk = atol(getenv("FAULT_CHUNK"));
  unsetenv("LD_PRELOAD");
}
static int ends(const char* s, const char* e) {
  size_t a = strlen(s), b = strlen(e);
  return a >= b && !strcmp(s + a - b, e);
}
static int is(int fd, Rule* r) {
  char l[64], p[4096];
  if (!r->on) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, p, sizeof p - 1);
  if (n < 0) return 0;
  p[n] = 0;
  return ends(p, r->suffix);
}
static long regular(int fd) { char l[64], p[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, p, sizeof p - 1); if (n < 0) return 0; p[n] = 0; return p[0] == '/' && strncmp(p, "/dev", 4) && strncmp(p, "/proc", 5); }

ssize_t read(int fd, void* b, size_t n) {
  static ssize_t (*f)(int, void*, size_t);
  if (!f) f = dlsym(RTLD_NEXT, "read");
  if (is(fd, &rd)) {
    if (rd.seen >= rd.off && rd.times > 0) { rd.times--; errno = rd.err; return -1; }
    if (rd.seen < rd.off && n > (size_t)(rd.off - rd.seen)) n = rd.off - rd.seen;
    if (chunk && n > (size_t)chunk) n = chunk;
    ssize_t k = f(fd, b, n);
    if (k > 0) rd.seen += k;
    return k;
  }
  if (chunk && n > (size_t)chunk && fd > 2) n = chunk;
  return f(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  static ssize_t (*f)(int, const void*, size_t);
  if (!f) f = dlsym(RTLD_NEXT, "write");
  if (is(fd, &wr)) {
    if (wr.seen >= wr.off && wr.times > 0) { wr.times--; errno = wr.err; return -1; }
    if (wr.seen < wr.off && n > (size_t)(wr.off - wr.seen)) n = wr.off - wr.seen;
    if (chunk && n > (size_t)chunk) n = chunk;
    ssize_t k = f(fd, b, n);
    if (k > 0) wr.seen += k;
    return k;
  }
  if (chunk && n > (size_t)chunk && fd > 2 && regular(fd)) n = chunk;
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
static int bad_open(const char* p) {
  if (op.on && op.times > 0 && ends(p, op.suffix)) { op.times--; errno = op.err; return 1; }
  return 0;
}
FILE* fopen(const char* p, const char* m) {
  static FILE* (*f)(const char*, const char*);
  if (!f) f = dlsym(RTLD_NEXT, "fopen");
  return bad_open(p) ? 0 : f(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  static FILE* (*f)(const char*, const char*);
  if (!f) f = dlsym(RTLD_NEXT, "fopen64");
  return bad_open(p) ? 0 : f(p, m);
}
int open(const char* p, int fl, ...) {
  static int (*f)(const char*, int, ...);
  if (!f) f = dlsym(RTLD_NEXT, "open");
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  return bad_open(p) ? -1 : f(p, fl, mode);
}
int open64(const char* p, int fl, ...) {
  static int (*f)(const char*, int, ...);
  if (!f) f = dlsym(RTLD_NEXT, "open64");
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  return bad_open(p) ? -1 : f(p, fl, mode);
}
int fclose(FILE* s) {
  static int (*f)(FILE*);
  if (!f) f = dlsym(RTLD_NEXT, "fclose");
  int hit = is(fileno(s), &cl);
  int r = f(s);
  if (hit) { errno = cl.err; return EOF; }
  return r;
}
