#pragma once
// Reference Merkle mountain range: all node hashes of a list of leaves, written from the definition.
#include <Crypto/Hasher.h>
#include <Core/Serialization/Serializer.h>
namespace mmrref {
static inline void be64(std::vector<uint8_t> &b, uint64_t x) { for (int i = 7; i >= 0; i--) b.push_back((uint8_t)(x >> (8 * i))); }
static inline Hash node(const Hash &l, const Hash &r, uint64_t pos) { std::vector<uint8_t> b; be64(b, pos); b.insert(b.end(), l.data(), l.data() + 32); b.insert(b.end(), r.data(), r.data() + 32); return Hasher::Blake2b(b); }
struct Forest {
  std::vector<Hash> h; std::vector<uint64_t> sizes; std::vector<std::vector<std::pair<uint64_t, Hash>>> peaks;
  Forest(const std::vector<std::vector<uint8_t>> &leaves) {
    std::vector<std::pair<uint64_t, Hash>> st; sizes.push_back(0); peaks.push_back(st);
    for (auto &d : leaves) {
      std::vector<uint8_t> b; be64(b, h.size()); b.insert(b.end(), d.begin(), d.end()); Hash x = Hasher::Blake2b(b); h.push_back(x); st.push_back({ 0, x });
      while (st.size() > 1 && st[st.size() - 1].first == st[st.size() - 2].first) { auto r = st.back(); st.pop_back(); Hash p = node(st.back().second, r.second, h.size()); h.push_back(p); st.back() = { r.first + 1, p }; }
      sizes.push_back(h.size()); peaks.push_back(st);
    }
  }
  uint64_t size(uint64_t leaves) const { return sizes[leaves]; }
  Hash at(uint64_t pos) const { return h[pos]; }
  Hash root(uint64_t leaves) const { auto &p = peaks[leaves]; if (p.empty()) return Hash(); Hash a = p.back().second; for (size_t i = p.size() - 1; i-- > 0;) a = node(p[i].second, a, sizes[leaves]); return a; }
};
}
