// Stand-in for mio: a mapping is a copy of the file at the time of mapping.
#pragma once
#include <system_error>
#include <vector>
#include <string>
#include "vfs.h"
namespace mio {
using file_handle_type = int;
class mmap_source {
public:
  std::vector<uint8_t> d; bool mapped = false;
  using const_iterator = const char *;
  bool is_mapped() const { return mapped; } bool is_open() const { return mapped; } bool empty() const { return d.empty(); } size_t size() const { return d.size(); } size_t length() const { return d.size(); }
  const char *data() const { return (const char *)d.data(); } const char *cbegin() const { return data(); } const char *begin() const { return data(); } const char *cend() const { return data() + d.size(); }
  void unmap() { d.clear(); d.shrink_to_fit(); mapped = false; }
};
inline mmap_source make_mmap_source(const std::string &n, std::error_code &e) {
  mmap_source m; auto f = vfs::find(n); if (!f) { e = std::make_error_code(std::errc::no_such_file_or_directory); return m; } if (f->data.empty()) { e = std::make_error_code(std::errc::invalid_argument); return m; }
  e.clear(); m.d = f->data; m.mapped = true; return m;
}
}
