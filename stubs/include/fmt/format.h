// Stand-in for {fmt}: "{}" substitution for strings and concrete integers.
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <stdexcept>
extern "C" int verif_is_symbolic(uint64_t);
namespace fmt {
struct format_error : std::runtime_error { using std::runtime_error::runtime_error; };
namespace stub {
inline void put(std::string &o, const std::string &s) { o += s; }
inline void put(std::string &o, const char *s) { o += s; }
inline void put(std::string &o, std::string_view s) { o.append(s.data(), s.size()); }
template <class T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, int> = 0>
inline void put(std::string &o, T v) {
  if constexpr (std::is_same_v<T, bool>) o += v ? "true" : "false";
  else if constexpr (std::is_floating_point_v<T>) o += "<fp>";
  else if constexpr (std::is_same_v<T, char>) o += v;
  else {
    if (verif_is_symbolic((uint64_t)v)) { o += "<n>"; return; }
    if constexpr (std::is_enum_v<T>) o += std::to_string((long long)v);
    else if constexpr (std::is_signed_v<T>) o += std::to_string((long long)v);
    else o += std::to_string((unsigned long long)v);
  }
}
template <class T> inline void put(std::string &o, T *) { o += "<ptr>"; }
inline void lit(std::string &o, const char *&f) {
  while (*f) {
    if (f[0] == '{' && f[1] == '{') { o += '{'; f += 2; continue; }
    if (f[0] == '}' && f[1] == '}') { o += '}'; f += 2; continue; }
    if (f[0] == '{') { while (*f && *f != '}') f++; if (*f) f++; return; }
    o += *f++;
  }
}
}
template <class... A> inline std::string format(const char *f, const A &...a) {
  std::string o;
  ((stub::lit(o, f), stub::put(o, a)), ...);
  stub::lit(o, f);
  return o;
}
template <class... A> inline std::string format(const std::string &f, const A &...a) { return format(f.c_str(), a...); }
template <class... A> inline std::string sprintf(const char *f, const A &...) { return f; }
}
