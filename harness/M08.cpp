//@stubs env hash fs
//@flags -I$VERIF/stubs/fsinc -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/**/*.cpp src/Crypto/Hasher.cpp src/Crypto/Models/*.cpp src/PMMR/Common/*.cpp src/PMMR/KernelMMR.cpp src/PMMR/TxHashSetImpl.cpp src/PMMR/TxHashSetValidator.cpp
//@bounds a chain of two headers with 3 outputs and 2 kernels and any unspent set; the received hash files, the data of outputs and kernels, eight bytes of every range proof, the unspent bits and the prune list are whatever a peer sends (all bytes unconstrained; prune lists: none or the first two leaves); every outcome of the sums, range proofs and signatures
//@outside larger states; the zip container; the elliptic curve checks themselves (B02) whose inputs are compared instead
#include "verif.h"
#include "vfs.h"
#include "env.h"
#include "fakes.h"
#include "fakechain.h"
#include "mmrref.h"
#include "PMMR/TxHashSetImpl.h"
#include "PMMR/TxHashSetValidator.h"
#include <Core/Models/Transaction.h>
#include <P2P/SyncStatus.h>
#include <Crypto/Crypto.h>
static Commitment com(uint8_t k) { std::vector<uint8_t> b(33, k); b[0] = 8; return Commitment(CBigInteger<33>(b.data())); }
static TransactionOutput output(uint8_t k) { std::vector<uint8_t> p(675, k); return TransactionOutput(EOutputFeatures::DEFAULT, com(k), RangeProof(std::move(p))); }
static TransactionKernel kern(uint8_t k) { std::vector<uint8_t> e(33, k), s(64, k); e[0] = 8; return TransactionKernel(EKernelFeatures::DEFAULT_KERNEL, Fee(0, 100 + k), 0, Commitment(CBigInteger<33>(e.data())), Signature(CBigInteger<64>(s.data()))); }
static struct { bool sums = true, proofs = true, sigs = true; std::vector<Commitment> outs, kernels, proofOf; std::vector<std::vector<uint8_t>> proof; std::vector<Commitment> signedBy; uint64_t supply = 0; size_t expected = 0; } world;
Commitment Crypto::CommitTransparent(const uint64_t v) { world.supply = v; return com(200); }
Commitment Crypto::CommitBlinded(const uint64_t, const BlindingFactor &) { return com(202); }
// leaving out committed outputs unbalances the sums
Commitment Crypto::AddCommitments(const std::vector<Commitment> &pos, const std::vector<Commitment> &neg) { if (!neg.empty()) { world.outs = pos; bool part = pos.size() < world.expected; for (auto &c : pos) part = part & ((c == com(0)) | (c == com(1)) | (c == com(2))); return com(world.sums && !part ? 210 : 211); } if (pos.size() == 2 && pos[1] == com(202)) return com(210); world.kernels = pos; return com(209); }
bool Crypto::VerifyRangeProofs(const std::vector<std::pair<Commitment, RangeProof>> &v) { for (auto &p : v) { world.proofOf.push_back(p.first); world.proof.push_back(p.second.GetProofBytes()); } return world.proofs; }
bool Crypto::VerifyKernelSignatures(const std::vector<const Signature *> &, const std::vector<const Commitment *> &c, const std::vector<const Hash *> &) { for (auto p : c) world.signedBy.push_back(*p); return world.sigs; }
struct HeaderChain : public FakeBlockChain { std::vector<BlockHeaderPtr> h; BlockHeaderPtr GetBlockHeaderByHeight(const uint64_t i, const EChainType) const override { return i < h.size() ? h[i] : nullptr; } };
static void put(const std::string &n, const std::vector<uint8_t> &d) { auto f = vfs::find(n); (f ? f : vfs::create(n))->data = d; }
static std::vector<uint8_t> hashes(const mmrref::Forest &f, uint64_t from) { std::vector<uint8_t> r; for (uint64_t i = from; i < f.h.size(); i++) { Hash x = f.at(i); r.insert(r.end(), x.data(), x.data() + 32); } return r; }
// received(k): which of the files are the peer's choice
static void sync(unsigned evil, bool pruneChoice) {
  vfs::reset(); uint32_t live = evil && evil != 4 ? (v_fork("spent") ? 5 : 7) : (uint32_t)v_choose("unspent", 0, 7); world.expected = __builtin_popcount(live); std::vector<std::vector<uint8_t>> ol, pl, kl; for (uint8_t i = 0; i < 3; i++) { ol.push_back(OutputIdentifier::FromOutput(output(i)).Serialized()); pl.push_back(output(i).GetRangeProof().Serialized()); } for (uint8_t i = 0; i < 2; i++) kl.push_back(kern(i).Serialized());
  mmrref::Forest o(ol), p(pl), k(kl); std::vector<uint8_t> bits(128, 0); for (int i = 0; i < 3; i++) if ((live >> i) & 1) bits[0] |= 0x80 >> i; mmrref::Forest u({ bits });
  HeaderSpec a, b; a.hash = hashOf(1); a.kernSize = 1; a.kernelRoot = k.root(1); a.outSize = 1; b.hash = hashOf(2); b.height = 1; b.version = 3; b.kernSize = 3; b.kernelRoot = k.root(2); b.outSize = 4; b.rproofRoot = p.root(3); b.outputRoot = mmrref::node(o.root(3), u.root(1), 4); b.offset = BlindingFactor(hashOf(7));
  HeaderChain chain; chain.h = { a.make(), b.make() }; std::vector<TransactionOutput> go{ output(0) }; std::vector<TransactionKernel> gk{ kern(0) }; venv::genesis = std::make_unique<FullBlock>(chain.h[0], TransactionBody({}, std::move(go), std::move(gk)));
  bool pruned = pruneChoice && v_fork("compacted"); uint64_t from = pruned ? 2 : 0; bool evilBits = evil & 4; uint8_t got = bits[0]; if (evilBits) got = (uint8_t)v_choose("bits", 0, 15) << 4;
  auto od = [&](std::vector<std::vector<uint8_t>> &l) { std::vector<uint8_t> r; for (size_t i = pruned ? 2 : 0; i < l.size(); i++) r.insert(r.end(), l[i].begin(), l[i].end()); return r; };
  std::vector<uint8_t> oh = hashes(o, from), ph = hashes(p, from), kh = hashes(k, 0), odata = od(ol), pdata = od(pl), kdata; for (auto &x : kl) kdata.insert(kdata.end(), x.begin(), x.end());
  if (evil & 1) { oh = v_bytes("output hashes", oh.size()); odata = v_bytes("outputs", odata.size()); }
  if (evil & 2) { kh = v_bytes("kernel hashes", kh.size()); kdata = v_bytes("kernels", kdata.size()); }
  if (evil & 8) { ph = v_bytes("proof hashes", ph.size()); for (size_t i = 0; i < pdata.size(); i += 683) verif_make_symbolic(&pdata[i + 8 + 300], 8, "proof"); }
  auto dir = [](const char *n) { return std::string("/t/") + n; };
  for (const char *n : { "output", "rangeproof" }) { bool out = n[0] == 'o'; put(dir(n) + "/pmmr_hash.bin", out ? oh : ph); put(dir(n) + "/pmmr_data.bin", out ? odata : pdata); Roaring r; for (int i = 0; i < 4; i++) if ((got >> (7 - i)) & 1) r.add((uint32_t)(2 * i - __builtin_popcount(i)) + 1); BitmapFile::Create(dir(n) + "/pmmr_leafset.bin", r); if (pruned) { Roaring q; q.add(3); std::vector<uint8_t> rb(q.getSizeInBytes()); q.write((char *)rb.data()); put(dir(n) + "/pmmr_prun.bin", rb); } }
  put("/t/kernel/pmmr_hash.bin", kh); put("/t/kernel/pmmr_data.bin", kdata);
  if (!evil) { world.sums = v_fork("sums"); world.proofs = v_fork("proofs"); world.sigs = v_fork("signatures"); }
  TxHashSet set(KernelMMR::Load("/t"), OutputPMMR::Load("/t"), RangeProofPMMR::Load("/t"), chain.h[1]); SyncStatus st; auto r = set.ValidateTxHashSet(*chain.h[1], chain, st); bool ok = r != nullptr, honest = !evil && !(pruned && (live & 3));
  if (ok) {
    CHECK(world.sums && (world.signedBy.empty() || world.sigs) && (world.proofOf.empty() || world.proofs), "failed-check-refuses"); CHECK(got == bits[0] && !(pruned && (live & 3)), "only-the-committed-unspent-set");
    CHECK(world.kernels.size() == 2 && world.kernels[0] == kern(0).GetExcessCommitment() && world.kernels[1] == kern(1).GetExcessCommitment() && world.signedBy.size() == 2 && world.signedBy[0] == world.kernels[0] && world.signedBy[1] == world.kernels[1], "only-the-committed-kernels");
    size_t n = 0; bool same = true, proofs = true; for (uint8_t i = 0; i < 3; i++) if ((live >> i) & 1) { if (n >= world.outs.size() || n >= world.proofOf.size()) { same = false; break; } same = same & (world.outs[n] == com(i)) & (world.proofOf[n] == com(i)); proofs = proofs & (world.proof[n] == output(i).GetRangeProof().GetProofBytes()); n++; }
    CHECK(same && n == world.outs.size() && n == world.proofOf.size(), "only-the-committed-outputs"); CHECK(proofs, "only-the-committed-range-proofs"); CHECK(world.supply == 2 * Consensus::REWARD, "supply-of-the-height"); REACH("accepted");
  } else { CHECK(!(honest && world.sums && world.proofs && world.sigs), "honest-state-is-accepted"); REACH("refused"); }
}
HARNESS(honest) { sync(0, true); REACH("accepted"); REACH("refused"); }
HARNESS(outputs) { sync(1, true); REACH("accepted"); }
HARNESS(kernels) { sync(2, false); REACH("accepted"); }
HARNESS(unspent) { sync(4, true); REACH("accepted"); }
HARNESS(proofs) { sync(8, true); REACH("accepted"); }
