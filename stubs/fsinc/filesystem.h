// Stand-in for <filesystem>: paths are plain strings, files live in vfs.
#pragma once
#include <system_error>
#include <string>
#include <stdexcept>
#include "vfs.h"
namespace fs {
class path {
public:
  using value_type = char; using string_type = std::string;
  path() = default; path(const std::string &s) : s(s) {} path(const char *s) : s(s) {} path(const std::wstring &w) : s(w.begin(), w.end()) {}
  path &operator=(const std::string &o) { s = o; return *this; }
  const char *c_str() const { return s.c_str(); } const std::string &native() const { return s; } operator std::string() const { return s; }
  std::string string() const { return s; } std::string u8string() const { return s; } std::string generic_string() const { return s; } std::wstring wstring() const { return std::wstring(s.begin(), s.end()); }
  bool empty() const { return s.empty(); }
  path parent_path() const { size_t p = s.rfind('/'); return p == std::string::npos ? path() : path(s.substr(0, p)); }
  path filename() const { size_t p = s.rfind('/'); return p == std::string::npos ? *this : path(s.substr(p + 1)); }
  path extension() const { std::string f = filename().s; size_t p = f.rfind('.'); return p == std::string::npos || p == 0 ? path() : path(f.substr(p)); }
  path stem() const { std::string f = filename().s; size_t p = f.rfind('.'); return p == std::string::npos || p == 0 ? path(f) : path(f.substr(0, p)); }
  bool is_absolute() const { return !s.empty() && s[0] == '/'; } bool is_relative() const { return !is_absolute(); } bool has_parent_path() const { return s.find('/') != std::string::npos; }
  path &operator/=(const path &o) { if (o.is_absolute() || s.empty()) s = o.s; else s += "/" + o.s; return *this; }
  path &operator+=(const std::string &o) { s += o; return *this; }
  friend path operator/(const path &a, const path &b) { path r = a; r /= b; return r; }
  friend bool operator==(const path &a, const path &b) { return a.s == b.s; } friend bool operator!=(const path &a, const path &b) { return a.s != b.s; } friend bool operator<(const path &a, const path &b) { return a.s < b.s; }
  path lexically_normal() const;
private: std::string s;
};
inline path u8path(const std::string &s) { return path(s); }
struct filesystem_error : std::system_error { using std::system_error::system_error; };
enum class copy_options { none, recursive, overwrite_existing };
inline bool exists(const path &p) { return vfs::find(p.string()) != nullptr; }
inline bool exists(const path &p, std::error_code &e) { e.clear(); return exists(p); }
inline bool is_directory(const path &p) { auto f = vfs::find(p.string()); return f && f->dir; }
inline bool is_directory(const path &p, std::error_code &e) { e.clear(); return is_directory(p); }
inline bool is_regular_file(const path &p) { auto f = vfs::find(p.string()); return f && !f->dir; }
inline uintmax_t file_size(const path &p, std::error_code &e) { auto f = vfs::find(p.string()); if (!f || f->dir) { e = std::make_error_code(std::errc::no_such_file_or_directory); return (uintmax_t)-1; } e.clear(); return f->data.size(); }
inline uintmax_t file_size(const path &p) { std::error_code e; auto n = file_size(p, e); if (e) throw std::runtime_error("file_size"); return n; }
inline bool remove(const path &p, std::error_code &e) { e.clear(); return vfs::remove(p.string()); }
inline bool remove(const path &p) { return vfs::remove(p.string()); }
inline uintmax_t remove_all(const path &p, std::error_code &e) {
  e.clear(); uintmax_t n = 0; std::string pre = p.string() + "/"; std::vector<std::string> del;
  for (auto &f : vfs::files) if (f->name == p.string() || f->name.compare(0, pre.size(), pre) == 0) del.push_back(f->name);
  for (auto &d : del) { vfs::remove(d); n++; } return n;
}
inline uintmax_t remove_all(const path &p) { std::error_code e; return remove_all(p, e); }
inline void rename(const path &a, const path &b, std::error_code &e) { if (vfs::rename(a.string(), b.string())) e.clear(); else e = std::make_error_code(std::errc::no_such_file_or_directory); }
inline bool create_directories(const path &p, std::error_code &e) { e.clear(); return vfs::mkdir(p.string()); }
inline bool create_directories(const path &p) { return vfs::mkdir(p.string()); }
inline bool create_directory(const path &p) { return vfs::mkdir(p.string()); }
inline path temp_directory_path() { return path("/tmp"); }
inline path current_path() { return path("/cwd"); }
inline void copy(const path &, const path &, copy_options, std::error_code &e) { e = std::make_error_code(std::errc::not_supported); }
inline bool copy_file(const path &a, const path &b) {
  auto f = vfs::find(a.string()); if (!f || vfs::find(b.string())) throw std::runtime_error("copy_file"); std::vector<uint8_t> d = f->data; if (vfs::change()) vfs::create(b.string()); auto g = vfs::find(b.string()); if (g) vfs::write(g, 0, d.data(), d.size()); return true;
}
inline bool copy_file(const path &a, const path &b, copy_options) { vfs::remove(b.string()); return copy_file(a, b); }
struct directory_entry { path p; const fs::path &path() const { return p; } bool is_directory() const { return fs::is_directory(p); } operator const fs::path &() const { return p; } };
struct recursive_directory_iterator {
  std::vector<directory_entry> v; size_t i = 0;
  recursive_directory_iterator() = default; explicit recursive_directory_iterator(const path &p) { std::string pre = p.string() + "/"; for (auto &f : vfs::files) if (f->name.compare(0, pre.size(), pre) == 0) v.push_back({ path(f->name) }); }
  bool operator!=(const recursive_directory_iterator &o) const { return v.size() - i != o.v.size() - o.i; }
  const directory_entry &operator*() const { return v[i]; } const directory_entry *operator->() const { return &v[i]; } recursive_directory_iterator &operator++() { i++; return *this; }
  void disable_recursion_pending() {} void increment(std::error_code &e) { e.clear(); i++; }
  friend recursive_directory_iterator begin(recursive_directory_iterator x) { return x; } friend recursive_directory_iterator end(const recursive_directory_iterator &) { return {}; }
};
using directory_iterator = recursive_directory_iterator;
}
