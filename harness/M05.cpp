//@stubs env hash fs
//@flags -I$VERIF/stubs/fsinc -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Global.cpp src/Core/Traits/*.cpp src/Core/Util/*.cpp src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/PMMR/Common/*.cpp src/PMMR/HeaderMMRImpl.cpp src/PMMR/KernelMMR.cpp
//@bounds every sequence of 4 (thorough 5) operations among appending one or three headers or kernels, rewinding to any earlier number, committing, rolling back (for the header MMR also abandoning the batch) and restarting, from an empty or a six-leaf range; the root of every size, every leaf hash and every stored kernel compared after each step; kernel excesses and signatures unconstrained
//@outside hash collisions (an arbitrary injective hash)
#include "verif.h"
#include "vfs.h"
#include "env.h"
#include "fakes.h"
#include "mmrref.h"
#include "PMMR/HeaderMMRImpl.h"
#include "PMMR/KernelMMR.h"
static std::vector<BlockHeaderPtr> pool; static std::vector<std::vector<uint8_t>> cyc;
static void headerPool(size_t n) {
  for (size_t i = 0; i < n; i++) {
    HeaderSpec s; s.height = i; s.edgeBits = 29; s.nonces = { i + 1, 2 * i + 3 }; s.hash = hashOf((uint8_t)(i + 1)); pool.push_back(s.make());
    Serializer z; pool.back()->GetProofOfWork().SerializeCycle(z); cyc.push_back(z.vec());
  }
}
namespace vhash { extern int injective; }
HARNESS(headers) {
  vhash::injective = 0; vfs::reset(); headerPool(12); auto mmr = HeaderMMR::Load("/d/header_mmr.bin"); auto locked = std::make_shared<Locked<IHeaderMMR>>(mmr);
  std::vector<size_t> now, disk; size_t next = 0; std::unique_ptr<Writer<IHeaderMMR>> w; int n = verif_tier() ? 5 : 4;
  auto open = [&]() { if (!w) w = std::make_unique<Writer<IHeaderMMR>>(locked->BatchWrite()); };
  auto add = [&](int k) { while (k--) { (*w)->AddHeader(*pool[next]); now.push_back(next++ % 12); } };
  open(); if (v_fork("six")) { add(6); (*w)->Commit(); disk = now; }
  for (int i = 0; i < n && next < 9; i++) {
    open();
    switch (v_choose("op", 0, 5)) {
    case 0: add(1); break;
    case 1: add(3); break;
    case 2: { uint64_t to = v_choose("to", 0, now.size()); (*w)->Rewind(to); now.resize(to); break; }
    case 3: (*w)->Commit(); disk = now; break;
    case 4: if (v_fork("abandon")) { w.reset(); } else (*w)->Rollback(); now = disk; break;
    case 5: w.reset(); locked.reset(); mmr.reset(); mmr = HeaderMMR::Load("/d/header_mmr.bin"); locked = std::make_shared<Locked<IHeaderMMR>>(mmr); now = disk; break;
    }
    std::vector<std::vector<uint8_t>> l; for (size_t k : now) l.push_back(cyc[k]); mmrref::Forest f(l);
    for (uint64_t h = 0; h < now.size(); h++) CHECK(mmr->Root(h) == f.root(h + 1), "root-of-every-height");
  }
  REACH("headers");
}
static TransactionKernel kernel(uint8_t tag) {
  auto e = v_bytes("excess", 33), s = v_bytes("sig", 64); e[0] = tag;
  return TransactionKernel((EKernelFeatures)(tag & 1 ? 0 : 2), Fee(0, 7000 + tag), tag & 1 ? 0 : 100 + tag, Commitment(CBigInteger<33>(e.data())), Signature(CBigInteger<64>(s.data())));
}
HARNESS(kernels) {
  vhash::injective = 0; vfs::reset(); std::vector<TransactionKernel> ks; for (uint8_t i = 0; i < 12; i++) ks.push_back(kernel(i));
  HeaderSpec hs; std::vector<TransactionKernel> g{ ks[0] }; venv::genesis = std::make_unique<FullBlock>(hs.make(), TransactionBody({}, {}, std::move(g)));
  std::vector<std::vector<uint8_t>> ser; for (auto &k : ks) { Serializer z; z.Append<uint8_t>((uint8_t)k.GetFeatures()); z.Append<uint64_t>(k.GetFee()); z.Append<uint64_t>(k.GetLockHeight()); z.AppendBigInteger(k.GetExcessCommitment().GetBytes()); z.AppendBigInteger(k.GetExcessSignature().GetSignatureBytes()); ser.push_back(z.vec()); }
  auto mmr = KernelMMR::Load("/d"); size_t next = 1; std::vector<size_t> now{ 0 }, disk = now; int n = verif_tier() ? 5 : 4;
  auto add = [&](int k) { while (k--) { mmr->ApplyKernel(ks[next]); now.push_back(next++); } };
  if (v_fork("six")) { add(5); mmr->Commit(); disk = now; }
  for (int i = 0; i < n && next < 9; i++) {
    switch (v_choose("op", 0, 5)) {
    case 0: add(1); break;
    case 1: add(3); break;
    case 2: { uint64_t to = v_choose("to", 1, now.size()); mmr->Rewind(to); now.resize(to); break; }
    case 3: mmr->Commit(); disk = now; break;
    case 4: mmr->Rollback(); now = disk; break;
    case 5: mmr.reset(); mmr = KernelMMR::Load("/d"); now = disk; break;
    }
    std::vector<std::vector<uint8_t>> l; for (size_t k : now) l.push_back(ser[k]); mmrref::Forest f(l);
    CHECK(mmr->GetSize() == f.size(now.size()) && mmr->GetNumKernels() == now.size(), "size-follows-the-leaves");
    for (uint64_t k = 1; k <= now.size(); k++) CHECK(mmr->Root(f.size(k)) == f.root(k), "root-of-every-size");
    for (uint64_t k = 0; k < now.size(); k++) { auto p = mmr->GetKernelAt(LeafIndex::At(k)); CHECK(p && p->Serialized() == ser[now[k]], "kernel-is-the-one-appended"); }
    for (uint64_t p = 0; p < f.size(now.size()); p++) CHECK(*mmr->GetHashAt(Index::At(p)) == f.at(p), "hash-of-every-node");
    auto last = mmr->GetLastLeafHashes(2); bool ok = last.size() == (now.size() < 2 ? now.size() : 2); for (size_t k = 0; ok && k < last.size(); k++) ok = last[k] == f.at(f.size(now.size() - 1 - k)); CHECK(ok, "last-leaf-hashes");
  }
  REACH("kernels");
}
