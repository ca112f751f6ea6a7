#pragma once
// A node's chain state with the real chain files, processors and locks; the header, block and TxHashSet rules are per-block verdicts.
#include "verif.h"
#include "vfs.h"
#include "env.h"
#include "fakes.h"
#include <BlockChain/ChainState.h>
#include <BlockChain/BlockChainImpl.h>
#include <BlockChain/Processors/BlockHeaderProcessor.h>
#include <BlockChain/Processors/BlockProcessor.h>
#include <BlockChain/Validators/BlockHeaderValidator.h>
#include <BlockChain/Validators/BlockValidator.h>
#include <Core/Exceptions/BadDataException.h>
#include <PMMR/TxHashSetManager.h>
#include <TxPool/TransactionPool.h>
#include <Crypto/Crypto.h>
#include <Core/Config.h>
#include <map>
enum Verdict { VALID, BAD_HEADER, BAD_APPLY, BAD_ROOTS, BAD_BODY, BAD_SUMS };
namespace kc {
static int verdict[8]; static int parent[8]; static int count; static std::vector<BlockHeaderPtr> head; static std::vector<FullBlock> block; static int applying;
static int idOf(const Hash &h) { for (int i = 0; i < (int)head.size(); i++) if (head[i]->GetHash() == h) return i; return -1; }
static bool isAncestors(const std::vector<Hash> &l, const Hash &tip) { int b = idOf(tip); if (b < 0) return false; std::vector<int> want; for (int x = b;; x = parent[x]) { want.insert(want.begin(), x); if (!x) break; } if (want.size() != l.size()) return false; for (size_t i = 0; i < l.size(); i++) if (idOf(l[i]) != want[i]) return false; return true; }
struct DB : public FakeBlockDB {
  struct Snap { std::vector<std::pair<Hash, BlockHeaderPtr>> headers; std::vector<std::pair<Hash, BlockSums>> sums; std::vector<std::pair<Commitment, OutputLocation>> positions; std::vector<std::pair<Hash, FullBlock>> blocks; } disk; bool tx = false;
  Snap take() const { return Snap{ headers, sums, positions, blocks }; }
  void put(const Snap &s) { headers = s.headers; sums = s.sums; positions = s.positions; blocks = s.blocks; }
  void Commit() override { disk = take(); } void Rollback() noexcept override { put(disk); } void OnInitWrite(const bool b) override { tx = b; disk = take(); } void OnEndWrite() override { tx = false; }
};
struct MMR : public IHeaderMMR {
  std::vector<Hash> list, disk;
  void AddHeader(const BlockHeader &h) override { if (h.GetHeight() == 0) { if (list.empty()) { list = { h.GetHash() }; } return; } list.push_back(h.GetHash()); }
  Hash Root(const uint64_t) const override { return Hash(); } void Rewind(const uint64_t n) override { if (n > list.size()) throw std::runtime_error("rewind"); list.resize(n); }
  void Commit() override { disk = list; } void Rollback() noexcept override { list = disk; }
};
struct TxSet : public ITxHashSet {
  std::vector<Hash> list, disk; int fails = 0;
  std::unique_ptr<BlockSums> ValidateTxHashSet(const BlockHeader &, const IBlockChain &, SyncStatus &) override { return nullptr; } void SaveOutputPositions(const Chain::CPtr &, std::shared_ptr<IBlockDB>) const override {}
  bool IsValid(std::shared_ptr<const IBlockDB>, const Transaction &) const override { return true; }
  bool ApplyBlock(std::shared_ptr<IBlockDB> db, const FullBlock &b) override { int i = idOf(b.GetHash()); applying = i; list.push_back(b.GetHash()); if (verdict[i] == BAD_APPLY) return false; db->AddOutputPosition(Commitment(CBigInteger<33>(std::vector<uint8_t>(33, (uint8_t)i).data())), OutputLocation(LeafIndex::At(list.size()), b.GetHeight())); return true; }
  bool ValidateRoots(const BlockHeader &h) const override { return verdict[idOf(h.GetHash())] != BAD_ROOTS && isAncestors(list, h.GetHash()); }
  TxHashSetRoots GetRoots(const std::shared_ptr<const IBlockDB> &, const TransactionBody &) override { throw 1; }
  std::vector<Hash> GetLastKernelHashes(const uint64_t) const override { return {}; } std::vector<Hash> GetLastOutputHashes(const uint64_t) const override { return {}; } std::vector<Hash> GetLastRangeProofHashes(const uint64_t) const override { return {}; }
  OutputRange GetOutputsByLeafIndex(std::shared_ptr<const IBlockDB>, const uint64_t, const uint64_t) const override { return OutputRange(0, 0, {}); } std::vector<OutputDTO> GetOutputsByMMRIndex(std::shared_ptr<const IBlockDB>, const uint64_t, const uint64_t) const override { return {}; } OutputDTO GetOutput(const OutputLocation &) const override { throw 1; }
  BlockHeaderPtr GetFlushedBlockHeader() const noexcept override { return head[idOf(disk.back())]; }
  void Rewind(std::shared_ptr<IBlockDB> db, const BlockHeader &h) override { size_t at = list.size(); for (size_t i = 0; i < list.size(); i++) if (list[i] == h.GetHash()) at = i; if (at == list.size()) throw std::runtime_error("not an ancestor"); while (list.size() > at + 1) { db->RemoveOutputPositions({ Commitment(CBigInteger<33>(std::vector<uint8_t>(33, (uint8_t)idOf(list.back())).data())) }); list.pop_back(); } }
  void Commit() override { disk = list; } void Rollback() noexcept override { list = disk; } void Compact() override {}
};
struct Pool : public ITransactionPool {
  std::vector<TransactionPtr> GetTransactionsByShortId(const Hash &, const uint64_t, const std::set<ShortId> &) const override { return {}; } EAddTransactionStatus AddTransaction(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr, TransactionPtr, const EPoolType, const BlockHeader &) override { return EAddTransactionStatus::ADDED; }
  std::vector<TransactionPtr> FindTransactionsByKernel(const std::set<TransactionKernel> &) const override { return {}; } TransactionPtr FindTransactionByKernelHash(const Hash &) const override { return nullptr; } void ReconcileBlock(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr, const FullBlock &) override {}
  TransactionPtr GetTransactionToStem(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr) override { return nullptr; } TransactionPtr GetTransactionToFluff(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr) override { return nullptr; } std::vector<TransactionPtr> GetExpiredTransactions() const override { return {}; }
};
static Commitment com(uint8_t k) { return Commitment(CBigInteger<33>(std::vector<uint8_t>(33, k).data())); }
struct Node {
  std::shared_ptr<DB> db = std::make_shared<DB>(); std::shared_ptr<MMR> mmr = std::make_shared<MMR>(); std::shared_ptr<TxSet> set = std::make_shared<TxSet>(); std::shared_ptr<Locked<ChainState>> state; std::shared_ptr<BlockChain> chain;
  std::shared_ptr<Locked<IBlockDB>> ldb; std::shared_ptr<Locked<TxHashSetManager>> mgr;
  void start();
  std::vector<int> confirmed() { std::vector<int> r; auto p = state->Read(); auto c = p->GetChainStore()->GetConfirmedChain(); for (uint64_t i = 0; i <= c->GetHeight(); i++) r.push_back(idOf(c->GetByHeight(i)->GetHash())); return r; }
  std::vector<int> candidate() { std::vector<int> r; auto p = state->Read(); auto c = p->GetChainStore()->GetCandidateChain(); for (uint64_t i = 0; i <= c->GetHeight(); i++) r.push_back(idOf(c->GetByHeight(i)->GetHash())); return r; }
};
static bool ids(const std::vector<Hash> &l, const std::vector<int> &w) { if (l.size() != w.size()) return false; for (size_t i = 0; i < l.size(); i++) if (idOf(l[i]) != w[i]) return false; return true; }
static bool onChain(const std::vector<int> &c, int b) { for (int x : c) if (x == b) return true; return false; }
static bool ok(int b, bool headers) { for (int x = b; x > 0; x = parent[x]) if (verdict[x] == BAD_HEADER || (!headers && verdict[x] != VALID)) return false; return true; }
static uint64_t work(int b) { return head[b]->GetTotalDifficulty(); }
}
void BlockHeaderValidator::Validate(const BlockHeader &h, const BlockHeader &p) const {
  auto m = std::dynamic_pointer_cast<const kc::MMR>(m_pHeaderMMR); int i = kc::idOf(h.GetHash());
  if (h.GetPreviousHash() != p.GetHash() || h.GetHeight() != p.GetHeight() + 1 || kc::verdict[i] == BAD_HEADER || !kc::isAncestors(m->list, p.GetHash())) throw BAD_DATA_EXCEPTION(EBanReason::BadBlockHeader, "header");
}
void BlockValidator::VerifySelfConsistent(const FullBlock &b) { if (kc::verdict[kc::idOf(b.GetHash())] == BAD_BODY) throw BAD_DATA_EXCEPTION(EBanReason::BadBlock, "body"); }
Commitment Crypto::CommitTransparent(const uint64_t) { return kc::com(200); }
Commitment Crypto::CommitBlinded(const uint64_t, const BlindingFactor &) { return kc::com(202); }
Commitment Crypto::AddCommitments(const std::vector<Commitment> &pos, const std::vector<Commitment> &neg) { if (!neg.empty()) return kc::com(kc::verdict[kc::applying] == BAD_SUMS ? 211 : 210); return kc::com(210); }
TxHashSetManager::TxHashSetManager(const Config &c) : m_config(c) {}
std::shared_ptr<ITxHashSet> TxHashSetManager::Open(const BlockHeaderPtr &) { return m_pTxHashSet; }
static const fs::path &chainPath() { static fs::path p("/chain"); return p; }
const fs::path &Config::GetChainPath() const noexcept { return chainPath(); }
Config &configOf() { static char raw[8192]; return *(Config *)raw; }
namespace kc {
inline void Node::start() {
  auto l = [](auto p) { return p; }; (void)l; ldb = std::make_shared<Locked<IBlockDB>>(db); auto lm = std::make_shared<Locked<IHeaderMMR>>(mmr); auto m = std::make_shared<TxHashSetManager>(configOf()); m->SetTxHashSet(set); mgr = std::make_shared<Locked<TxHashSetManager>>(m);
  set->list = set->disk = { head[0]->GetHash() }; auto gi = std::make_shared<BlockIndex>(head[0]->GetHash(), 0); auto store = ChainStore::Load(configOf(), gi);
  state = std::make_shared<Locked<ChainState>>(std::shared_ptr<ChainState>(new ChainState(configOf(), store, ldb, lm, std::make_shared<Pool>(), mgr)));
  db->AddBlockHeader(head[0]); db->AddBlockSums(head[0]->GetHash(), BlockSums(com(1), com(2))); db->disk = db->take(); mmr->list = mmr->disk = { head[0]->GetHash() };
  chain = std::shared_ptr<BlockChain>(new BlockChain(nullptr, state));
}
// the tree: parents as given, every block more work than its parent by an unknown amount
static void tree(const std::vector<int> &parents) {
  head.clear(); block.clear(); count = (int)parents.size(); std::vector<uint64_t> work;
  for (int i = 0; i < count; i++) { parent[i] = parents[i]; verdict[i] = VALID; uint64_t w = i ? v_u64("work") : 1; if (i) { verif_assume(w > work[parents[i]]); verif_assume(w < (1ull << 40)); } work.push_back(w); HeaderSpec s; s.hash = hashOf((uint8_t)(i + 1)); s.height = i ? head[parents[i]]->GetHeight() + 1 : 0; if (i) s.prev = head[parents[i]]->GetHash(); s.difficulty = w; s.offset = BlindingFactor(hashOf((uint8_t)(i + 1))); head.push_back(s.make()); }
  for (int i = 0; i < count; i++) block.emplace_back(BlockHeaderPtr(head[i]), TransactionBody());
}
}
