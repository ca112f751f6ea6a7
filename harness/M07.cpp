//@stubs env hash fs secp
//@flags -I$VERIF/stubs/fsinc -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/PMMR/Common/*.cpp src/PMMR/KernelMMR.cpp src/PMMR/TxHashSetImpl.cpp
//@bounds chains of a genesis block, a funding block and two (thorough three) further blocks with up to 2 inputs and 2 outputs taken from a pool of 5 commitments (unspent, spent, unknown or duplicated), coinbase or plain outputs, the height of the last block unconstrained; commit or not after every block, then rollback or rewind to any block and reapplying
//@outside compacted states (M06); hash collisions; the database (an exact map)
#include "verif.h"
#include "vfs.h"
#include "env.h"
#include "fakes.h"
#include "mmrref.h"
#include "PMMR/TxHashSetImpl.h"
#include <Core/Models/Transaction.h>
namespace vhash { extern int injective; }
static Commitment com(uint8_t k) { std::vector<uint8_t> b(33, k); b[0] = 8; return Commitment(CBigInteger<33>(b.data())); }
struct Out { uint8_t c; bool cb; uint64_t height; uint8_t id; };
static TransactionOutput output(const Out &o) { std::vector<uint8_t> p(675, o.id); return TransactionOutput(o.cb ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, com(o.c), RangeProof(std::move(p))); }
static TransactionKernel kern(uint8_t k) { std::vector<uint8_t> e(33, k), s(64, k); e[0] = 8; return TransactionKernel(EKernelFeatures::DEFAULT_KERNEL, Fee(0, 100 + k), 0, Commitment(CBigInteger<33>(e.data())), Signature(CBigInteger<64>(s.data()))); }
struct Model { std::vector<Out> outs; std::vector<bool> live; std::vector<uint8_t> kerns; BlockHeaderPtr head; int find(uint8_t c) const { for (size_t i = outs.size(); i-- > 0;) if (live[i] && outs[i].c == c) return (int)i; return -1; } };
struct World {
  std::shared_ptr<FakeBlockDB> db = std::make_shared<FakeBlockDB>(); std::shared_ptr<TxHashSet> set; Model now, disk; std::vector<Model> past; std::vector<std::pair<Commitment, OutputLocation>> dbDisk; uint8_t ids = 1;
  void open() { set = std::make_shared<TxHashSet>(KernelMMR::Load("/t"), OutputPMMR::Load("/t"), RangeProofPMMR::Load("/t"), disk.head); }
  FullBlock block(const std::vector<uint8_t> &in, const std::vector<Out> &outs, uint64_t height, Model &after) {
    std::vector<TransactionInput> ti; std::vector<TransactionOutput> to; std::vector<TransactionKernel> tk{ kern(ids) };
    for (uint8_t c : in) { int at = after.find(c); ti.push_back(TransactionInput(at >= 0 && after.outs[at].cb ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, com(c))); if (at >= 0) after.live[at] = false; }
    for (auto &o : outs) { to.push_back(output(o)); after.outs.push_back(o); after.live.push_back(true); }
    after.kerns.push_back(ids); mmrref::Forest ko(std::vector<std::vector<uint8_t>>(after.kerns.size(), std::vector<uint8_t>(1))), oo(std::vector<std::vector<uint8_t>>(after.outs.size(), std::vector<uint8_t>(1)));
    HeaderSpec s; s.height = height; s.hash = hashOf(ids); if (after.head) s.prev = after.head->GetHash(); s.outSize = oo.size(after.outs.size()); s.kernSize = ko.size(after.kerns.size()); after.head = s.make(); ids++;
    return FullBlock(BlockHeaderPtr(after.head), TransactionBody::NoSort(std::move(ti), std::move(to), std::move(tk)));
  }
  void start() {
    vhash::injective = 0; vfs::reset(); Model m; std::vector<Out> o{ { 0, true, 0, 0 } }; venv::genesis = std::make_unique<FullBlock>(block({}, o, 0, m)); db->blocks.push_back({ m.head->GetHash(), *venv::genesis }); db->AddBlockHeader(m.head); db->AddOutputPosition(com(0), OutputLocation(LeafIndex::At(0), 0));
    now = disk = m; past.push_back(m); dbDisk = db->positions; open();
  }
  // applies a block; true when it was applied
  bool apply(const std::vector<uint8_t> &in, std::vector<Out> outs, uint64_t height) {
    for (uint8_t c : in) for (auto &o : outs) verif_assume(c != o.c); // cut-through (B01)
    Model after = now; bool ok = true; uint64_t maturity = height < 1440 ? 0 : height - 1440;
    for (uint8_t c : in) { int at = after.find(c); if (at < 0) ok = false; else { if (after.outs[at].cb && after.outs[at].height > maturity) ok = false; after.live[at] = false; } }
    std::vector<uint8_t> seen; for (auto &o : outs) { for (uint8_t s : seen) if (s == o.c) ok = false; seen.push_back(o.c); if (now.find(o.c) >= 0) { ok = false; } o.height = height; o.id = ids + 40 * (uint8_t)seen.size(); }
    after = now; FullBlock b = block(in, outs, height, after); auto before = db->positions; auto bs = db->spent; bool got = set->ApplyBlock(db, b);
    CHECK(got == ok, "block-applies-exactly-when-its-inputs-are-spendable-and-outputs-new");
    if (got) { db->AddBlockHeader(after.head); db->AddBlock(b); now = after; past.push_back(after); } else { set->Rollback(); db->positions = dbDisk; db->spent = bs; now = disk; REACH("refused"); }
    return got;
  }
  void commit() { set->Commit(); disk = now; dbDisk = db->positions; }
  mmrref::Forest of(bool proofs) { std::vector<std::vector<uint8_t>> l; for (auto &o : now.outs) l.push_back(proofs ? output(o).GetRangeProof().Serialized() : OutputIdentifier::FromOutput(output(o)).Serialized()); return mmrref::Forest(l); }
  void compare() {
    std::vector<std::vector<uint8_t>> kl; for (uint8_t k : now.kerns) kl.push_back(kern(k).Serialized()); mmrref::Forest k(kl), o = of(false), p = of(true); uint64_t n = now.outs.size();
    CHECK(set->GetKernelMMR()->Root(k.size(kl.size())) == k.root(kl.size()) && set->GetKernelMMR()->GetSize() == k.size(kl.size()), "kernel-root"); CHECK(set->GetOutputPMMR()->Root(o.size(n)) == o.root(n) && set->GetOutputPMMR()->GetSize() == o.size(n), "output-root"); CHECK(set->GetRangeProofPMMR()->Root(p.size(n)) == p.root(n) && set->GetRangeProofPMMR()->GetSize() == p.size(n), "proof-root");
    for (uint64_t i = 0; i < n; i++) { auto a = set->GetOutputPMMR()->GetAt(LeafIndex::At(i)); auto r = set->GetRangeProofPMMR()->GetAt(LeafIndex::At(i)); bool live = now.live[i]; CHECK((a != nullptr) == live && (r != nullptr) == live, "unspent-set"); if (live && a && r) CHECK(a->GetCommitment() == com(now.outs[i].c) && r->GetProofBytes()[0] == now.outs[i].id, "unspent-set"); }
    for (uint8_t c = 0; c < 6; c++) { int at = now.find(c); auto pos = db->GetOutputPosition(com(c)); CHECK((pos != nullptr) == (at >= 0), "output-positions-are-of-the-unspent-outputs"); if (pos && at >= 0) CHECK(pos->GetLeafIndex() == (uint64_t)at && pos->GetBlockHeight() == now.outs[at].height, "output-positions-are-of-the-unspent-outputs"); }
  }
  // the roots a header must carry
  void roots() {
    std::vector<std::vector<uint8_t>> kl; for (uint8_t k : now.kerns) kl.push_back(kern(k).Serialized()); mmrref::Forest k(kl), o = of(false), p = of(true); uint64_t n = now.outs.size();
    std::vector<uint8_t> bits(128, 0); for (uint64_t i = 0; i < n; i++) if (now.live[i]) bits[i / 8] |= 0x80 >> (i % 8);
    mmrref::Forest u({ bits }); HeaderSpec s; s.version = (uint16_t)v_choose("version", 2, 3); s.outSize = o.size(n); s.kernSize = k.size(kl.size()); s.outputRoot = s.version < 3 ? o.root(n) : mmrref::node(o.root(n), u.root(1), o.size(n)); s.rproofRoot = p.root(n); s.kernelRoot = k.root(kl.size());
    uint64_t bad = v_choose("wrong root", 0, 3); Hash *h = bad == 1 ? &s.outputRoot : bad == 2 ? &s.rproofRoot : &s.kernelRoot; uint8_t d = v_u8("difference"), at = (uint8_t)v_choose("byte", 0, 1) * 31; if (bad) { verif_assume(d != 0); (*h)[at] ^= d; }
    CHECK(set->ValidateRoots(*s.make()) == (bad == 0), "roots-accepted-exactly-when-all-match");
  }
};
static std::vector<uint8_t> ins(uint8_t pool, int max) { std::vector<uint8_t> r; uint8_t from = 0; while ((int)r.size() < max && from < pool) { uint64_t c = v_choose("input", from, pool); if (c == pool) break; r.push_back((uint8_t)c); from = (uint8_t)c + 1; } return r; }
static std::vector<Out> outs(uint8_t pool, int max) { std::vector<Out> r; uint8_t from = 1; while ((int)r.size() < max) { uint64_t c = v_choose("output", from, pool); if (c == pool) break; r.push_back({ (uint8_t)c, max > 1 && r.empty() && v_fork("coinbase"), 0, 0 }); from = (uint8_t)c; } return r; }
HARNESS(blocks) {
  World w; w.start(); w.apply({}, { { 1, false, 0, 0 }, { 2, true, 0, 0 } }, 1); if (v_fork("commit")) w.commit();
  bool on = w.apply(ins(4, 2), outs(4, 2), 1500); if (on) { w.compare(); if (v_fork("commit")) w.commit(); on = w.apply(ins(4, 1), outs(4, 1), v_fork("immature") ? 2800 : 5000); if (on && verif_tier()) { w.commit(); on = w.apply(ins(5, 2), outs(5, 1), 9000); } }
  w.compare(); if (on && v_fork("back")) { w.set->Rollback(); w.db->positions = w.dbDisk; w.now = w.disk; w.compare(); } REACH("applied");
}
HARNESS(rewind) {
  World w; w.start(); w.apply({}, { { 1, false, 0, 0 }, { 2, true, 0, 0 } }, 1); w.commit(); if (!w.apply(ins(3, 2), outs(4, 2), 1500)) return; if (v_fork("commit")) w.commit(); if (!w.apply(ins(4, 2), outs(4, 1), 5000)) return; if (v_fork("commit")) w.commit();
  if (verif_tier()) { if (!w.apply(ins(4, 1), outs(4, 1), 9000)) return; if (v_fork("commit")) w.commit(); }
  uint64_t to = v_choose("to", 0, w.past.size() - 1); w.set->Rewind(w.db, *w.past[to].head); w.now = w.past[to]; w.compare();
  switch (v_choose("then", 0, 3)) {
  case 0: w.commit(); w.open(); break;
  case 1: w.set->Rollback(); w.db->positions = w.dbDisk; w.now = w.disk; break;
  case 2: w.commit(); w.past.resize(to + 1); w.apply(to > 0 ? std::vector<uint8_t>{ 1 } : std::vector<uint8_t>{ 0 }, { { 3, false, 0, 0 } }, 9500); break;
  case 3: break;
  }
  w.compare(); REACH("rewound");
}
HARNESS(roots) { World w; w.start(); w.apply({}, { { 1, false, 0, 0 }, { 2, true, 0, 0 } }, 1); if (!w.apply(ins(3, 2), outs(4, 2), 1500)) return; w.roots(); REACH("roots"); }
HARNESS(maturity) {
  World w; w.start(); uint64_t h1 = v_u64("height") & 0xffffffff, h2 = v_u64("next") & 0xffffffff; verif_assume(h1 && h1 < h2);
  w.apply({}, { { 1, true, 0, 0 } }, h1); HeaderSpec s; w.now.head.get(); std::vector<TransactionInput> ti{ TransactionInput(EOutputFeatures::COINBASE_OUTPUT, com(1)) }; std::vector<TransactionKernel> tk{ kern(9) };
  uint64_t need = h1 + 1440; Transaction t(BlindingFactor(Hash()), TransactionBody::NoSort(std::move(ti), {}, std::move(tk))); bool pooled = w.set->IsValid(w.db, t); CHECK(pooled == (h1 + 1 >= need), "transaction-spends-only-mature-coinbase");
  w.apply({ 1 }, {}, h2); REACH("mature");
}
// what a transaction may spend and create on top of the current state
HARNESS(spendable) {
  World w; w.start(); w.apply({}, { { 1, false, 0, 0 }, { 2, false, 0, 0 } }, 1500); if (!w.apply(ins(3, 1), outs(4, 1), 5000)) return;
  std::vector<uint8_t> in = ins(5, 2); std::vector<Out> o = outs(5, 1); bool ok = true; for (uint8_t c : in) { if (w.now.find(c) < 0) ok = false; for (auto &x : o) verif_assume(x.c != c); } for (auto &x : o) if (w.now.find(x.c) >= 0) ok = false;
  std::vector<TransactionInput> ti; for (uint8_t c : in) ti.push_back(TransactionInput(EOutputFeatures::DEFAULT, com(c))); std::vector<TransactionOutput> to; for (auto &x : o) to.push_back(output(x)); std::vector<TransactionKernel> tk{ kern(9) };
  Transaction t(BlindingFactor(Hash()), TransactionBody::NoSort(std::move(ti), std::move(to), std::move(tk))); CHECK(w.set->IsValid(w.db, t) == ok, "transaction-valid-exactly-on-unspent-inputs-and-new-outputs"); REACH("asked");
}
// positions the database names but the output set no longer holds, and headers that are no ancestors
HARNESS(inconsistent) {
  World w; w.start(); w.apply({}, { { 1, false, 0, 0 }, { 2, false, 0, 0 } }, 1500); w.commit(); uint64_t leaf = v_choose("leaf", 0, 4), mode = v_choose("mode", 0, 1);
  if (mode == 0) { w.db->AddOutputPosition(com(4), OutputLocation(LeafIndex::At(leaf), 1)); Model m = w.now; FullBlock b = w.block({ 4 }, {}, 5000, m); CHECK(!w.set->ApplyBlock(w.db, b), "an-output-that-is-not-there-cannot-be-spent"); }
  else { HeaderSpec s; s.hash = hashOf(0xee); bool refused = false; try { w.set->Rewind(w.db, *s.make()); } catch (std::exception &) { refused = true; } CHECK(refused, "rewind-only-to-ancestors"); }
  w.set->Rollback(); w.db->positions = w.dbDisk; w.now = w.disk; w.compare(); REACH("inconsistent");
}
// listing outputs and computing the roots of the next block
HARNESS(listing) {
  World w; w.start(); w.apply({}, { { 1, false, 0, 0 }, { 2, false, 0, 0 } }, 1500); if (!w.apply(ins(3, 2), outs(4, 2), 5000)) return;
  uint64_t start = v_choose("start", 0, 5), max = v_choose("max", 1, 3), n = w.now.outs.size(); auto r = w.set->GetOutputsByLeafIndex(w.db, start, max); std::vector<uint64_t> want; for (uint64_t i = start; i < n && want.size() < max; i++) if (w.now.live[i]) want.push_back(i);
  bool ok = r.GetOutputs().size() == want.size() && r.GetHighestIndex() == n - 1 && r.GetLastRetrievedIndex() == (want.empty() ? 0 : want.back()); for (size_t k = 0; ok && k < want.size(); k++) ok = r.GetOutputs()[k].GetLeafIndex().Get() == want[k] && r.GetOutputs()[k].GetCommitment() == com(w.now.outs[want[k]].c);
  CHECK(ok, "lists-exactly-the-unspent-outputs");
  Model after = w.now; std::vector<Out> o{ { 4, true, 9000, 77 } }; std::vector<uint8_t> in; if (w.now.find(1) >= 0 && v_fork("spend")) in.push_back(1); FullBlock b = w.block(in, o, 9000, after); auto g = w.set->GetRoots(w.db, b.GetTransactionBody());
  w.now = after; std::vector<std::vector<uint8_t>> kl; for (uint8_t k : after.kerns) kl.push_back(kern(k).Serialized()); mmrref::Forest k(kl), of = w.of(false), pf = w.of(true); uint64_t m = after.outs.size();
  CHECK(g.m_outputInfo.size == of.size(m) && g.m_outputInfo.root == of.root(m) && g.m_kernelInfo.size == k.size(kl.size()) && g.m_kernelInfo.root == k.root(kl.size()) && g.m_rangeProofInfo.root == pf.root(m), "next-block-roots"); REACH("listed");
}
