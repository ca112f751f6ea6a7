// Stand-in for CRoaring: a sorted list of 32-bit numbers with the same interface.
#pragma once
#include <vector>
#include <cstdint>
#include <cstring>
#include <stdexcept>
struct roaring_bitmap_t {};
inline roaring_bitmap_t *roaring_bitmap_create_with_capacity(uint32_t) { return nullptr; }
class Roaring {
  std::vector<uint32_t> v;
  size_t lo(uint32_t x) const { size_t i = 0; while (i < v.size() && v[i] < x) i++; return i; }
public:
  Roaring() = default; explicit Roaring(roaring_bitmap_t *) {}
  Roaring(size_t n, const uint32_t *p) { for (size_t i = 0; i < n; i++) add(p[i]); }
  void add(uint32_t x) { size_t i = lo(x); if (i == v.size() || v[i] != x) v.insert(v.begin() + i, x); }
  bool addChecked(uint32_t x) { size_t n = v.size(); add(x); return v.size() != n; }
  void remove(uint32_t x) { size_t i = lo(x); if (i < v.size() && v[i] == x) v.erase(v.begin() + i); }
  bool contains(uint32_t x) const { size_t i = lo(x); return i < v.size() && v[i] == x; }
  uint32_t maximum() const { return v.empty() ? 0 : v.back(); } uint32_t minimum() const { return v.empty() ? UINT32_MAX : v.front(); }
  bool isEmpty() const { return v.empty(); } uint64_t cardinality() const { return v.size(); }
  uint64_t rank(uint32_t x) const { uint64_t n = 0; while (n < v.size() && v[n] <= x) n++; return n; }
  bool runOptimize() { return false; }
  size_t getSizeInBytes(bool = true) const { return 8 + 4 * v.size(); }
  size_t write(char *p, bool = true) const { uint64_t n = v.size(); memcpy(p, &n, 8); if (n) memcpy(p + 8, v.data(), 4 * n); return 8 + 4 * n; }
  static Roaring readSafe(const char *p, size_t len) { if (len < 8) throw std::runtime_error("roaring"); uint64_t n; memcpy(&n, p, 8); if (n > (len - 8) / 4) throw std::runtime_error("roaring"); Roaring r; r.v.resize(n); if (n) memcpy(r.v.data(), p + 8, 4 * n); return r; }
  struct const_iterator { struct { uint32_t current_value; } i; const std::vector<uint32_t> *p; size_t k; void set() { i.current_value = k < p->size() ? (*p)[k] : 0; } uint32_t operator*() const { return i.current_value; } const_iterator &operator++() { k++; set(); return *this; } const_iterator operator++(int) { auto t = *this; ++*this; return t; } bool operator!=(const const_iterator &o) const { return k != o.k; } bool operator==(const const_iterator &o) const { return k == o.k; } };
  const_iterator begin() const { const_iterator c; c.p = &v; c.k = 0; c.set(); return c; } const_iterator end() const { const_iterator c; c.p = &v; c.k = v.size(); c.set(); return c; }
  bool operator==(const Roaring &o) const { return v == o.v; }
};
