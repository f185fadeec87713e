// Declarations for the installed libre2.so.10 (RE2 20230301), whose headers
// the sandbox does not have. The code that runs is the real library; the
// object is given opaque storage larger than the library's class.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#include <cstddef>
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>

namespace re2 {
class StringPiece {
 public:
  using const_iterator = const char*;
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s) : data_(s), size_(s ? std::strlen(s) : 0) {}
  StringPiece(const char* s, size_t n) : data_(s), size_(n) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  size_t length() const { return size_; }
  bool empty() const { return size_ == 0; }
  const_iterator begin() const { return data_; }
  const_iterator end() const { return data_ + size_; }
  char operator[](size_t i) const { return data_[i]; }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
  void remove_suffix(size_t n) { size_ -= n; }
  std::string as_string() const { return std::string(data_, size_); }
  std::string ToString() const { return std::string(data_, size_); }
  explicit operator std::string() const { return std::string(data_, size_); }
  operator std::string_view() const { return std::string_view(data_, size_); }
  static const size_t npos = static_cast<size_t>(-1);

 private:
  const char* data_;
  size_t size_;
};
inline std::ostream& operator<<(std::ostream& o, const StringPiece& s) {
  return o.write(s.data(), s.size());
}

namespace re2_internal {
template <typename T>
bool Parse(const char* str, size_t n, T* dest);
template <typename T>
bool Parse(const char* str, size_t n, T* dest, int radix);
template <> bool Parse(const char*, size_t, void*);
template <> bool Parse(const char*, size_t, std::string*);
template <> bool Parse(const char*, size_t, StringPiece*);
template <> bool Parse(const char*, size_t, char*);
template <> bool Parse(const char*, size_t, signed char*);
template <> bool Parse(const char*, size_t, unsigned char*);
template <> bool Parse(const char*, size_t, double*);
template <> bool Parse(const char*, size_t, float*);
template <> bool Parse(const char*, size_t, long*, int);
template <> bool Parse(const char*, size_t, unsigned long*, int);
template <> bool Parse(const char*, size_t, short*, int);
template <> bool Parse(const char*, size_t, unsigned short*, int);
template <> bool Parse(const char*, size_t, int*, int);
template <> bool Parse(const char*, size_t, unsigned int*, int);
template <> bool Parse(const char*, size_t, long long*, int);
template <> bool Parse(const char*, size_t, unsigned long long*, int);
template <typename T> struct Ary4 : std::false_type {};
template <> struct Ary4<long> : std::true_type {};
template <> struct Ary4<unsigned long> : std::true_type {};
template <> struct Ary4<short> : std::true_type {};
template <> struct Ary4<unsigned short> : std::true_type {};
template <> struct Ary4<int> : std::true_type {};
template <> struct Ary4<unsigned int> : std::true_type {};
template <> struct Ary4<long long> : std::true_type {};
template <> struct Ary4<unsigned long long> : std::true_type {};
}  // namespace re2_internal

class RE2 {
 public:
  class Arg {
   public:
    Arg() : Arg(nullptr) {}
    Arg(std::nullptr_t) : arg_(nullptr), parser_(DoNothing) {}
    template <typename T>
    Arg(T* ptr) : arg_(ptr), parser_(Do<T>) {}
    bool Parse(const char* s, size_t n) const { return (*parser_)(s, n, arg_); }

   private:
    typedef bool (*Parser)(const char* str, size_t n, void* dest);
    static bool DoNothing(const char*, size_t, void*) { return true; }
    template <typename T>
    static bool Do(const char* s, size_t n, void* d) {
      if constexpr (re2_internal::Ary4<T>::value)
        return re2_internal::Parse(s, n, reinterpret_cast<T*>(d), 10);
      else if constexpr (std::is_same<T, std::string_view>::value)
        return *reinterpret_cast<T*>(d) = T(s, n), true;
      else
        return re2_internal::Parse(s, n, reinterpret_cast<T*>(d));
    }
    void* arg_;
    Parser parser_;
  };
  RE2(const char* pattern);
  RE2(const std::string& pattern);
  RE2(const StringPiece& pattern);
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  ~RE2();

  static bool FullMatchN(const StringPiece&, const RE2&, const Arg* const[], int);
  static bool PartialMatchN(const StringPiece&, const RE2&, const Arg* const[], int);
  static bool ConsumeN(StringPiece*, const RE2&, const Arg* const[], int);
  static bool FindAndConsumeN(StringPiece*, const RE2&, const Arg* const[], int);
  static bool Replace(std::string*, const RE2&, const StringPiece&);
  static int GlobalReplace(std::string*, const RE2&, const StringPiece&);
  static bool Extract(const StringPiece&, const RE2&, const StringPiece&, std::string*);
  static std::string QuoteMeta(const StringPiece&);

  template <typename... A>
  static bool FullMatch(const StringPiece& t, const RE2& re, A&&... a) {
    return Apply(FullMatchN, t, re, Arg(a)...);
  }
  template <typename... A>
  static bool PartialMatch(const StringPiece& t, const RE2& re, A&&... a) {
    return Apply(PartialMatchN, t, re, Arg(a)...);
  }
  template <typename... A>
  static bool Consume(StringPiece* t, const RE2& re, A&&... a) {
    return Apply(ConsumeN, t, re, Arg(a)...);
  }
  template <typename... A>
  static bool FindAndConsume(StringPiece* t, const RE2& re, A&&... a) {
    return Apply(FindAndConsumeN, t, re, Arg(a)...);
  }

 private:
  template <typename F, typename SP>
  static bool Apply(F f, SP sp, const RE2& re) {
    return f(sp, re, nullptr, 0);
  }
  template <typename F, typename SP, typename... A>
  static bool Apply(F f, SP sp, const RE2& re, const A&... a) {
    const Arg* const args[] = {&a...};
    return f(sp, re, args, static_cast<int>(sizeof...(a)));
  }
  alignas(16) char opaque_[1024];
};
}  // namespace re2
using re2::RE2;
#endif
