#include "vfs.h"
#include "../harness/verif.h"
#include <cstring>
namespace vfs {
std::vector<std::shared_ptr<File>> files; uint64_t step = 0, crashAt = ~0ull, torn = 0;
File *find(const std::string &n) { for (auto &f : files) if (f->name == n) return f.get(); return nullptr; }
bool change() { return step++ < crashAt; }
File *create(const std::string &n) { auto f = std::make_shared<File>(); f->name = n; files.push_back(f); return f.get(); }
bool truncate(const std::string &n, uint64_t len, bool) { File *f = find(n); if (!f || f->dir) return false; if (f->data.size() != len && change()) f->data.resize(len); return true; }
bool remove(const std::string &n) { for (size_t i = 0; i < files.size(); i++) if (files[i]->name == n) { if (change()) files.erase(files.begin() + i); return true; } return false; }
bool rename(const std::string &a, const std::string &b) {
  File *f = find(a); if (!f) return step >= crashAt; if (!change()) return true;
  for (size_t i = 0; i < files.size(); i++) if (files[i]->name == b) { files.erase(files.begin() + i); break; }
  f->name = b; return true;
}
void write(File *f, uint64_t pos, const uint8_t *p, uint64_t n) {
  uint64_t s = step++; if (s > crashAt) return; if (s == crashAt) n = n < torn ? n : torn;
  if (!n) return;
  if (f->data.size() < pos + n) f->data.resize(pos + n);
  memcpy(f->data.data() + pos, p, n);
}
bool mkdir(const std::string &n) { if (find(n)) return false; if (change()) create(n)->dir = true; return true; }
void reset() { step = 0; crashAt = ~0ull; }
}
extern "C" int truncate(const char *n, long len) noexcept { return vfs::truncate(n, (uint64_t)len) ? 0 : -1; }
