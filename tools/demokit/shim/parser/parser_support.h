// Stand-in for @bazel_rules//parser:parser_support (not available offline).
// ScannerExtra carries the file name into flex/bison; Error reports one
// message at a bison location in the "file:line" form that the repository's
// own testcases/input_test.sh greps for.
#ifndef VERIF_SHIM_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_SUPPORT_H_
#include <iostream>
#include <string>
namespace parser_support {
struct ScannerExtra {
  std::string* filename = nullptr;
};
template <class L>
void Error(const L& l, const std::string& msg, ScannerExtra* = nullptr) {
  std::string s = l.begin.filename ? *l.begin.filename : std::string("??");
  s += ":" + std::to_string(l.begin.line) + ": [" +
       std::to_string(l.begin.column) + "-" + std::to_string(l.end.column) +
       "]: " + msg + "\n";
  std::cerr << s << std::flush;
}
}  // namespace parser_support
#endif
