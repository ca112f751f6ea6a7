//@stubs env hash fs
//@flags -I$VERIF/stubs/fsinc -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/PMMR/Common/*.cpp
//@bounds ranges of 8 leaves of which the first 7 (thorough: 8 of 9, and 4 of 6 with longer histories) may be compacted away in any spent combination, then every sequence of 2 (four compacted leaves: 3, thorough 4) operations among append, spend, rewind to any point not before the compaction with any outputs restored, commit, rollback and restart; prune lists built from the leaves of any subset in four orders; leaf contents unconstrained
//@outside hash collisions (an arbitrary hash function); CRoaring (a sorted list with the same interface)
#include "verif.h"
#include "vfs.h"
#include "env.h"
#include "mmrref.h"
#include "PMMR/Common/PruneableMMR.h"
#include <Core/Models/OutputIdentifier.h>
namespace vhash { extern int injective; }
typedef PruneableMMR<34, OutputIdentifier> Pmmr;
static void put(const std::string &n, const std::vector<uint8_t> &d) { vfs::create(n)->data = d; }
// roots of the maximal perfect subtrees whose leaves are all in spent, by position; leaves[] their leaf ranges
struct Pruned { std::vector<uint64_t> root, lo, hi; };
static Pruned prune(uint64_t n, uint32_t spent) {
  Pruned p; struct T { uint64_t lo, h, pos; bool all; }; std::vector<T> st; uint64_t pos = 0;
  auto emit = [&](const T &t) { if (t.all) { p.root.push_back(t.pos); p.lo.push_back(t.lo); p.hi.push_back(t.lo + (1ull << t.h)); } };
  for (uint64_t i = 0; i < n; i++) {
    st.push_back({ i, 0, pos++, ((spent >> i) & 1) != 0 });
    while (st.size() > 1 && st.back().h == st[st.size() - 2].h) { T r = st.back(); st.pop_back(); T l = st.back(); st.pop_back(); if (!(l.all && r.all)) { emit(l); emit(r); } st.push_back({ l.lo, l.h + 1, pos++, l.all && r.all }); }
  }
  for (auto &t : st) emit(t);
  for (size_t i = 0; i < p.root.size(); i++) for (size_t j = i + 1; j < p.root.size(); j++) if (p.root[j] < p.root[i]) { std::swap(p.root[i], p.root[j]); std::swap(p.lo[i], p.lo[j]); std::swap(p.hi[i], p.hi[j]); }
  return p;
}
static uint64_t leafPos(uint64_t i) { return 2 * i - __builtin_popcountll(i); }
struct World {
  std::vector<std::vector<uint8_t>> leaves; uint32_t spent = 0; uint64_t keep; Pruned pr; std::shared_ptr<Pmmr> mmr; size_t next;
  std::vector<std::vector<uint8_t>> pool; std::vector<std::vector<uint8_t>> dLeaves; uint32_t dSpent = 0;
  bool gone(uint64_t leaf) const { for (size_t k = 0; k < pr.root.size(); k++) if (leaf >= pr.lo[k] && leaf < pr.hi[k] && pr.hi[k] - pr.lo[k] > 1) return true; return false; }
  bool compacted(uint64_t pos) const { for (size_t k = 0; k < pr.root.size(); k++) if (pos < pr.root[k] && pos + 2 * (pr.hi[k] - pr.lo[k]) - 1 > pr.root[k]) return true; return false; }
  void load() { mmr = std::make_shared<Pmmr>(HashFile::Load("/d/hash"), LeafSet::Load("/d/leaf"), PruneList::Load("/d/prun"), DataFile<34>::Load("/d/data")); }
  void start(uint64_t n, uint64_t k, uint32_t sp) {
    for (uint8_t i = 0; i < 14; i++) { auto b = v_bytes("output", 34); b[0] = i & 1; b[1] = i; pool.push_back(b); }
    leaves.assign(pool.begin(), pool.begin() + n); next = n; keep = k; spent = sp; pr = prune(k, sp); mmrref::Forest f(leaves);
    std::vector<uint8_t> hf, df; Roaring live; for (uint64_t p = 0; p < f.size(n); p++) if (!compacted(p)) { Hash x = f.at(p); hf.insert(hf.end(), x.data(), x.data() + 32); }
    for (uint64_t i = 0; i < n; i++) { if (!gone(i)) df.insert(df.end(), leaves[i].begin(), leaves[i].end()); if (!((sp >> i) & 1)) live.add((uint32_t)leafPos(i) + 1); }
    put("/d/hash", hf); put("/d/data", df); BitmapFile::Create("/d/leaf", live); Roaring r; for (uint64_t x : pr.root) r.add((uint32_t)x + 1); std::vector<uint8_t> rb(r.getSizeInBytes()); r.write((char *)rb.data()); if (!pr.root.empty() || v_fork("empty list")) put("/d/prun", rb);
    load(); dLeaves = leaves; dSpent = spent;
  }
  void compare() {
    mmrref::Forest f(leaves); uint64_t n = leaves.size(), size = f.size(n); CHECK(mmr->GetSize() == size, "size-counts-pruned-nodes");
    for (uint64_t k = keep ? keep : 1; k <= n; k++) CHECK(mmr->Root(f.size(k)) == f.root(k), "root-is-the-unpruned-root");
    for (uint64_t p = 0; p < size; p++) { auto h = mmr->GetHashAt(Index::At(p)); CHECK((h == nullptr) == compacted(p), "exactly-the-compacted-hashes-are-missing"); if (h) CHECK(*h == f.at(p), "hash-of-every-kept-node"); }
    std::vector<uint64_t> live; for (uint64_t i = 0; i <= n; i++) {
      bool in = i < n && !((spent >> i) & 1); if (in) live.push_back(i); auto o = mmr->GetAt(LeafIndex::At(i)); CHECK((o != nullptr) == in && mmr->IsUnpruned(LeafIndex::At(i)) == in, "exactly-the-unspent-leaves-are-found");
      if (o) CHECK(o->Serialized() == leaves[i], "leaf-is-the-one-appended"); }
    auto last = mmr->GetLastLeafHashes(2); bool ok = last.size() == (live.size() < 2 ? live.size() : 2); for (size_t k = 0; ok && k < last.size(); k++) ok = last[k] == f.at(leafPos(live[live.size() - 1 - k])); CHECK(ok, "last-unspent-hashes");
  }
  void step() {
    switch (v_choose("op", 0, 5)) {
    case 0: { ByteBuffer b{ std::vector<uint8_t>(pool[next]) }; mmr->Append(OutputIdentifier::Deserialize(b)); leaves.push_back(pool[next++]); break; }
    case 1: { uint64_t i = v_choose("spend", 0, leaves.size()); bool had = i < leaves.size() && !((spent >> i) & 1), ok = true; try { mmr->Remove(LeafIndex::At(i)); } catch (...) { ok = false; } CHECK(ok == had, "only-unspent-leaves-can-be-spent"); if (had) spent |= 1u << i; break; }
    case 2: {
      uint64_t to = v_choose("to", keep ? keep : 1, leaves.size()); std::vector<uint64_t> add; for (uint64_t i = 0; i < leaves.size(); i++) if (((spent >> i) & 1) && !gone(i) && add.size() < 2 && v_fork("restore")) add.push_back(i);
      mmr->Rewind(to, add); leaves.resize(to); for (uint64_t i : add) spent &= ~(1u << i); spent &= (1u << to) - 1; break; }
    case 3: mmr->Commit(); dLeaves = leaves; dSpent = spent; break;
    case 4: mmr->Rollback(); leaves = dLeaves; spent = dSpent; break;
    case 5: mmr.reset(); load(); leaves = dLeaves; spent = dSpent; break;
    }
    compare();
  }
};
static void go(uint64_t n, uint64_t keep, int steps) { vhash::injective = 0; vfs::reset(); World w; w.start(n, keep, (uint32_t)v_choose("spent", 0, (1u << keep) - 1)); w.compare(); while (steps--) w.step(); REACH("compared"); }
HARNESS(pruned) { if (verif_tier()) go(9, 8, 2); else go(8, 7, 2); REACH("compared"); }
HARNESS(history) { go(6, 4, verif_tier() ? 4 : 3); REACH("compared"); }
HARNESS(list) {
  vfs::reset(); uint64_t n = verif_tier() ? 10 : 8; uint32_t spent = (uint32_t)v_choose("spent", 0, (1u << n) - 1); auto l = PruneList::Load("/d/prun"); Pruned p = prune(n, spent); uint64_t order = v_choose("order", 0, 3);
  for (uint64_t k = 0; k < n; k++) { uint64_t i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k * 3) % n : (k * 5 + 3) % n; if (n == 10 && order > 1) i = order == 2 ? (k * 3) % 10 : (k * 7 + 3) % 10; if (n == 8 && order == 2) i = (k * 3 + 1) % 8; if ((spent >> i) & 1) l->Add(LeafIndex::At(i).GetIndex()); }
  l->Flush();
  for (int again = 0; again < 2; again++) {
    uint64_t shift = 0, leafShift = 0; size_t k = 0;
    for (uint64_t pos = 0; pos < leafPos(n); pos++) {
      bool root = false, below = false; for (size_t j = 0; j < p.root.size(); j++) { if (p.root[j] == pos) root = true; else if (pos < p.root[j] && pos + 2 * (p.hi[j] - p.lo[j]) - 1 > p.root[j]) below = true; }
      if (root) { shift += 2 * (p.hi[k] - p.lo[k] - 1); leafShift += p.hi[k] - p.lo[k] > 1 ? p.hi[k] - p.lo[k] : 0; k++; }
      Index x = Index::At(pos); CHECK(l->IsPruned(x) == (root || below) && l->IsPrunedRoot(x) == root && l->IsCompacted(x) == below, "pruned-nodes");
      CHECK(l->GetShift(x) == shift, "shift-counts-removed-hashes"); CHECK(l->GetLeafShift(x) == leafShift, "shift-counts-removed-leaves");
    }
    CHECK(l->GetTotalShift() == shift, "shift-counts-removed-hashes"); l = PruneList::Load("/d/prun");
  }
  REACH("list");
}
