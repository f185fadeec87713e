// Offline stand-in for absl/log (Abseil 2023+), which the sandbox's Abseil
// (20220623) does not ship. Same macro surface; sink semantics follow the
// original: severities below ERROR go to the log sink only, ERROR and above
// also go to stderr, FATAL and failed CHECKs abort.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>

namespace verif_shim_log {
enum Sev { S_INFO = 0, S_WARNING = 1, S_ERROR = 2, S_FATAL = 3 };
// Weak: the simulator provides its own sink; standalone builds use this one.
void Emit(int sev, const char* file, int line, const std::string& msg);

class Message {
 public:
  Message(int sev, const char* file, int line)
      : sev_(sev), file_(file), line_(line) {}
  ~Message() {
    Emit(sev_, file_, line_, os_.str());
    if (sev_ == S_FATAL) std::abort();
  }
  std::ostream& stream() { return os_; }

 private:
  int sev_;
  const char* file_;
  int line_;
  std::ostringstream os_;
};
class FatalMessage {
 public:
  FatalMessage(const char* file, int line, const char* what)
      : file_(file), line_(line) {
    os_ << what;
  }
  [[noreturn]] ~FatalMessage() {
    Emit(S_FATAL, file_, line_, os_.str());
    std::abort();
  }
  std::ostream& stream() { return os_; }

 private:
  const char* file_;
  int line_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&(std::ostream&) const {}
};
// operator<< that works for temporaries and keeps ADL.
template <class A, class B>
std::unique_ptr<std::string> OpFail(const A& a, const B& b, const char* e) {
  std::ostringstream o;
  o << e;
  return std::unique_ptr<std::string>(new std::string(o.str()));
}
inline bool EveryN(long* c, long n) { return ((*c)++ % n) == 0; }
inline bool FirstN(long* c, long n) { return (*c)++ < n; }
}  // namespace verif_shim_log

#define VERIF_LOG_SEV_INFO ::verif_shim_log::Message(0, __FILE__, __LINE__).stream()
#define VERIF_LOG_SEV_WARNING ::verif_shim_log::Message(1, __FILE__, __LINE__).stream()
#define VERIF_LOG_SEV_ERROR ::verif_shim_log::Message(2, __FILE__, __LINE__).stream()
#define VERIF_LOG_SEV_FATAL ::verif_shim_log::FatalMessage(__FILE__, __LINE__, "").stream()
#define VERIF_LOG_SEV_QFATAL ::verif_shim_log::FatalMessage(__FILE__, __LINE__, "").stream()
#ifdef NDEBUG
#define VERIF_LOG_SEV_DFATAL VERIF_LOG_SEV_ERROR
#else
#define VERIF_LOG_SEV_DFATAL VERIF_LOG_SEV_FATAL
#endif

#define LOG(sev) ::verif_shim_log::Voidify() & VERIF_LOG_SEV_##sev
#undef LOG
#define LOG(sev) VERIF_LOG_SEV_##sev
#define LOG_IF(sev, cond) \
  switch (0)              \
  default:                \
    !(cond) ? (void)0 : ::verif_shim_log::Voidify() & LOG(sev)
#define PLOG(sev) LOG(sev)
#define PLOG_IF(sev, cond) LOG_IF(sev, cond)
#define DLOG(sev) LOG(sev)
#define DLOG_IF(sev, cond) LOG_IF(sev, cond)
#define VLOG(n) LOG_IF(INFO, false)
#define DVLOG(n) LOG_IF(INFO, false)
#define VLOG_IS_ON(n) (false)
#define VERIF_LOG_COUNTED(sev, fn, n)                                \
  for (static long verif_log_c = 0, verif_log_once = 0;              \
       (verif_log_once = !verif_log_once) != 0;)                     \
  LOG_IF(sev, ::verif_shim_log::fn(&verif_log_c, n))
#define LOG_EVERY_N(sev, n) VERIF_LOG_COUNTED(sev, EveryN, n)
#define LOG_FIRST_N(sev, n) VERIF_LOG_COUNTED(sev, FirstN, n)
#define LOG_EVERY_POW_2(sev) VERIF_LOG_COUNTED(sev, EveryN, 1)
#define LOG_EVERY_N_SEC(sev, s) VERIF_LOG_COUNTED(sev, EveryN, 1)
#define ABSL_LOG(sev) LOG(sev)
#define ABSL_LOG_IF(sev, cond) LOG_IF(sev, cond)

#include "absl/log/check.h"
#endif
