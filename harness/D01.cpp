//@stubs env hash fs
//@flags -I$VERIF/stubs/fsinc -I$VERIF/stubs/rocksinc -I$REPO/src -fno-access-control
//@repo src/Database/BlockDBImpl.cpp src/BlockChain/Chain.cpp src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/**/*.cpp src/Crypto/Hasher.cpp src/Crypto/Models/*.cpp src/PMMR/Common/*.cpp
//@exclude src/PMMR/Common/MMRHashUtil.cpp
//@bounds one operation, then a batch of two (thorough three) operations over every operation on every table with keys from pools of two or three, committed, rolled back or both, reopened or not; all bytes of stored sums, locations and heights, features, fees and lock heights of stored blocks symbolic; compaction of three blocks at any heights and any chain height
//@outside the storage engine itself (column families are exact maps, a transaction is an overlay applied at commit); crashes inside the engine; the peers database
#include "verif.h"
#include "vfs.h"
#include "env.h"
#include "fakes.h"
#include <Database/BlockDBImpl.h>
#include <Database/RocksDB/RocksDBFactory.h>
#include <BlockChain/Chain.h>
#include <BlockChain/ICoinView.h>
#include <Core/Config.h>
static const fs::path &dbPath() { static fs::path p("/db"); return p; }
const fs::path &Config::GetDatabasePath() const noexcept { return dbPath(); }
static Config &conf() { static char raw[8192]; return *(Config *)raw; }
static Commitment com(uint8_t k) { std::vector<uint8_t> b(33, k); b[0] = 8; return Commitment(CBigInteger<33>(b.data())); }
struct NoCoins : ICoinView { EOutputFeatures GetOutputType(const Commitment &) const override { throw std::runtime_error("spent"); } };
static BlockHeaderPtr header(uint8_t k, uint64_t height = 7) { HeaderSpec s; s.height = height; s.prev = hashOf(k + 50); s.prevRoot = hashOf(k + 60); s.timestamp = 1500000000 + k; s.offset = BlindingFactor(hashOf(k)); s.outSize = 8; s.kernSize = 4; s.difficulty = 99 + k; s.scaling = 3; s.nonce = k; s.edgeBits = 31; s.nonces = std::vector<uint64_t>(42, k); s.hash = hashOf(k); return s.make(); }
static TransactionOutput output(uint8_t k, EOutputFeatures f) { return TransactionOutput(f, com(k), RangeProof(std::vector<uint8_t>(675, k))); }
static TransactionKernel kern(uint8_t k, EKernelFeatures f, Fee fee, uint64_t lock) { std::vector<uint8_t> e(33, k), s(64, k); e[0] = 8; return TransactionKernel(f, fee, lock, Commitment(CBigInteger<33>(e.data())), Signature(CBigInteger<64>(s.data()))); }
static Commitment symCom(const char *n) { auto b = v_bytes(n, 33); return Commitment(CBigInteger<33>(b.data())); }
struct Session { std::shared_ptr<BlockDB> db; void open() { db.reset(); db = BlockDB::OpenDB(conf()); } };
static void fresh() { vfs::reset(); rocksdb::disk().clear(); venv::coinView = std::make_shared<NoCoins>(); }
struct Loc { bool in = false; uint64_t leaf = 0, height = 0; };
struct Model { Loc pos[3]; bool head[2] = {}, block[2] = {}, sums[2] = {}, spent[2] = {}; Commitment out[2], kernel[2]; Loc spentAt[2]; uint8_t version = 0; };
static void apply(BlockDB &db, Model &m, int op) {
  if (op == 0) { int c = (int)v_choose("commitment", 0, 2); Loc l{ true, v_choose("leaf", 3, 4), v_u64("height") }; db.AddOutputPosition(com(c), OutputLocation(LeafIndex::At(l.leaf), l.height)); m.pos[c] = l; }
  if (op == 1) { bool two = v_fork("two"); std::vector<Commitment> v{ com(1) }; m.pos[1].in = false; if (two) { v.push_back(com(2)); m.pos[2].in = false; } db.RemoveOutputPositions(v); }
  if (op == 2) { db.ClearOutputPositions(); for (auto &l : m.pos) l.in = false; }
  if (op == 3) { int k = (int)v_choose("header", 0, 1); db.AddBlockHeader(header(k + 1)); m.head[k] = true; }
  if (op == 4) { std::vector<BlockHeaderPtr> v{ header(1), header(2) }; db.AddBlockHeaders(v); m.head[0] = m.head[1] = true; }
  if (op == 5) { int k = (int)v_choose("sums of", 0, 1); m.out[k] = symCom("output sum"); m.kernel[k] = symCom("kernel sum"); m.sums[k] = true; db.AddBlockSums(hashOf(k + 1), BlockSums(Commitment(m.out[k]), Commitment(m.kernel[k]))); }
  if (op == 6) { int k = (int)v_choose("spent of", 0, 1); m.spentAt[k] = { true, v_choose("leaf", 3, 4), v_u64("height") }; m.spent[k] = true; db.AddSpentPositions(hashOf(k + 1), { SpentOutput(com(9), OutputLocation(LeafIndex::At(1), 5)), SpentOutput(com(8), OutputLocation(LeafIndex::At(m.spentAt[k].leaf), m.spentAt[k].height)) }); }
  if (op == 7) { int k = (int)v_choose("block", 0, 1); m.block[k] = true; db.AddBlock(FullBlock(header(k + 1), TransactionBody())); }
  if (op == 8) { db.ClearBlocks(); m.block[0] = m.block[1] = false; }
  if (op == 9) { db.ClearBlockSums(); m.sums[0] = m.sums[1] = false; }
  if (op == 10) { db.ClearSpentPositions(); m.spent[0] = m.spent[1] = false; }
  if (op == 11) { m.version = (uint8_t)v_u64("version"); db.SetVersion(m.version); }
}
static void same(const BlockDB &db, const Model &m, const char *l) {
  bool r = true; for (int c = 0; c < 3; c++) { auto p = db.GetOutputPosition(com(c)); r = r & ((p != nullptr) == m.pos[c].in); if (p && m.pos[c].in) r = r & (p->GetLeafIndex().Get() == m.pos[c].leaf) & (p->GetBlockHeight() == m.pos[c].height); }
  for (int k = 0; k < 2; k++) {
    auto h = db.GetBlockHeader(hashOf(k + 1)); r = r & ((h != nullptr) == m.head[k]); if (h) r = r & (h->GetPreviousHash() == hashOf(k + 51)) & (h->GetTotalDifficulty() == 100u + k) & (h->GetNonce() == k + 1u);
    auto s = db.GetBlockSums(hashOf(k + 1)); r = r & ((s != nullptr) == m.sums[k]); if (s && m.sums[k]) r = r & (s->GetOutputSum() == m.out[k]) & (s->GetKernelSum() == m.kernel[k]);
    auto b = db.GetBlock(hashOf(k + 1)); r = r & ((b != nullptr) == m.block[k]); if (b) r = r & (b->GetPreviousHash() == hashOf(k + 51));
    bool got = true; try { auto x = db.GetSpentPositions(hashOf(k + 1)); if (m.spent[k]) { auto a = x.find(com(9)), c = x.find(com(8)); r = r & (x.size() == 2) & (a != x.end()) & (c != x.end()); if (a != x.end() && c != x.end()) r = r & (a->second.GetLeafIndex().Get() == 1) & (a->second.GetBlockHeight() == 5) & (c->second.GetLeafIndex().Get() == m.spentAt[k].leaf) & (c->second.GetBlockHeight() == m.spentAt[k].height); } } catch (std::exception &) { got = false; } r = r & (got == m.spent[k]);
  }
  r = r & (db.GetVersion() == m.version); CHECK(r, l);
}
static void ops(int n) {
  fresh(); Session s; s.open(); Model disk; apply(*s.db, disk, (int)v_choose("first", 0, 11)); same(*s.db, disk, "reads-what-was-written"); Model now = disk; s.db->OnInitWrite(true); for (int i = 0; i < n; i++) apply(*s.db, now, (int)v_choose("batched", 0, 11)); same(*s.db, now, "a-batch-reads-its-own-writes");
  int end = (int)v_choose("end", 0, 2); if (end != 1) { s.db->Commit(); disk = now; } if (end) { if (end == 2) apply(*s.db, now, 3); s.db->Rollback(); } s.db->OnEndWrite(); same(*s.db, disk, "batches-are-all-or-nothing"); if (v_fork("reopened")) { s.open(); same(*s.db, disk, "reopened-database-is-the-same"); } REACH("compared");
}
HARNESS(ops) { ops(2); REACH("compared"); }
HARNESS_T(ops3) { ops(3); REACH("compared"); }
// a stored block comes back whole, whatever was spent in the meantime
HARNESS(block) {
  fresh(); Session s; s.open(); EOutputFeatures fi = v_fork("coinbase input") ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT, fo = v_fork("coinbase output") ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT; int kf = (int)v_choose("kernel", 0, 3); uint64_t fee = kf == 1 ? 0 : v_range("fee", 1, (1ull << 40) - 1), lock = kf == 2 ? v_u64("lock") : kf == 3 ? v_range("relative", 1, 10080) : 0;
  std::vector<TransactionInput> ti; ti.push_back(TransactionInput(fi, com(3))); std::vector<TransactionOutput> to; to.push_back(output(4, fo)); std::vector<TransactionKernel> tk; tk.push_back(kern(5, (EKernelFeatures)kf, kf == 1 ? Fee() : Fee((uint8_t)v_range("shift", 0, 15), fee), lock));
  FullBlock b(header(1), TransactionBody::NoSort(std::move(ti), std::move(to), std::move(tk))); bool batch = v_fork("batch"); if (batch) s.db->OnInitWrite(true); s.db->AddBlock(b); if (batch) { s.db->Commit(); s.db->OnEndWrite(); } if (v_fork("reopened")) s.open();
  auto r = s.db->GetBlock(hashOf(1)); CHECK(r != nullptr, "stored-block-is-found"); if (!r) return; CHECK(r->GetInputs().size() == 1 && r->GetOutputs().size() == 1 && r->GetKernels().size() == 1, "stored-block-is-whole"); auto &i = r->GetInputs()[0]; auto &o = r->GetOutputs()[0]; auto &k = r->GetKernels()[0], &k0 = b.GetKernels()[0];
  CHECK((i.GetFeatures() == fi) & (i.GetCommitment() == com(3)) & (o.GetFeatures() == fo) & (o.GetCommitment() == com(4)) & (o.GetRangeProof().GetProofBytes() == std::vector<uint8_t>(675, 4)), "stored-inputs-and-outputs"); CHECK((k.GetFeatures() == k0.GetFeatures()) & (k.GetFee() == k0.GetFee()) & (k.GetFeeShift() == k0.GetFeeShift()) & (k.GetLockHeight() == k0.GetLockHeight()) & (k.GetExcessCommitment() == k0.GetExcessCommitment()) & (k.GetExcessSignature() == k0.GetExcessSignature()), "stored-kernels"); REACH("compared");
}
HARNESS(compact) {
  fresh(); Session s; s.open(); uint64_t h[3]; for (int i = 0; i < 3; i++) { h[i] = v_u64("height"); s.db->AddBlock(FullBlock(header(i + 1, h[i]), TransactionBody())); }
  auto pIndex = std::make_shared<BlockIndex>(hashOf(9), 0); auto chain = Chain::Load(std::make_shared<BlockIndexAllocator>(), EChainType::CONFIRMED, "/c", pIndex); chain->m_height = v_u64("chain height"); s.db->OnInitWrite(true); s.db->Compact(chain); s.db->Commit(); s.db->OnEndWrite(); uint64_t horizon = chain->m_height > 10080 ? chain->m_height - 10080 : 0;
  for (int i = 0; i < 3; i++) CHECK((s.db->GetBlock(hashOf(i + 1)) != nullptr) == (h[i] >= horizon), "only-blocks-beyond-the-horizon-go"); chain->m_height = 0; REACH("compared");
}
