#include <cstdio>
#include <cstring>
#include <string>
namespace verif_shim_log {
void Emit(int sev, const char* file, int line, const std::string& msg) {
  if (sev < 2) return;
  const char* b = strrchr(file, '/');
  fprintf(stderr, "%c %s:%d] %s\n", "IWEF"[sev & 3], b ? b + 1 : file, line, msg.c_str());
}
}  // namespace verif_shim_log
