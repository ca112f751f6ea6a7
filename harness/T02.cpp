//@stubs env
//@flags -I$REPO/src -fno-access-control
//@repo src/TxPool/*.cpp src/BlockChain/BlockHydrator.cpp src/BlockChain/CompactBlockFactory.cpp src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/Hasher.cpp
//@bounds blocks of a coinbase and any subset of four transactions (one with two kernels, one spending another's output or not); pools holding any of them singly or merged in pairs, and one unrelated transaction; three nonces
//@outside short-id collisions (hashes mix their input, no two of the kernels here collide); what the block rules then say of a rebuilt block (B01, B02, K01)
#include "txworld.h"
#include <BlockChain/BlockHydrator.h>
#include <BlockChain/CompactBlockFactory.h>
using namespace tw;
template <class T> static bool sameHashes(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].GetHash() != b[i].GetHash()) return false; return true; }
HARNESS(hydrate) {
  venv::env = Environment::MAINNET; dice = v_choose("nonce", 0, 2) * 0x123456789abcdefull; HeaderSpec hs; hs.height = 11; hs.hash = hashOf(90); hs.outSize = 4; auto header = hs.make();
  int spends = v_fork("spends the new output") ? 8 : 4; std::vector<TransactionPtr> t{ tx({ 0 }, { 8 }, { ker(0), ker(3) }, 1), tx({ 1, 5 }, { 9, 12 }, { ker(1) }, 2), tx({ 2, spends }, { 10 }, { ker(2) }, 3), tx({ 6 }, { 13 }, { ker(6) }, 4) };
  std::vector<TransactionPtr> in; bool member[4]; for (int k = 0; k < 4; k++) { member[k] = v_fork("in the block"); if (member[k]) in.push_back(t[k]); }
  if (member[2] && spends == 8 && !member[0]) return;  // the chain would not take it
  std::vector<TransactionInput> bi; std::vector<TransactionOutput> bo{ TransactionOutput(EOutputFeatures::COINBASE_OUTPUT, com(14), RangeProof(std::vector<uint8_t>(8, 14))) }; std::vector<TransactionKernel> bk{ TransactionKernel(EKernelFeatures::COINBASE_KERNEL, Fee(0, 0), 0, com(120), Signature(CBigInteger<64>(std::vector<uint8_t>(64, 9).data()))) };
  if (!in.empty()) { auto agg = TransactionUtil::Aggregate(in); for (auto &x : agg->GetInputs()) bi.push_back(x); for (auto &x : agg->GetOutputs()) bo.push_back(x); for (auto &x : agg->GetKernels()) bk.push_back(x); }
  std::sort(bi.begin(), bi.end(), SortInputsByHash); std::sort(bo.begin(), bo.end(), SortOutputsByHash); std::sort(bk.begin(), bk.end(), SortKernelsByHash); FullBlock block(header, TransactionBody(std::move(bi), std::move(bo), std::move(bk)));
  auto compact = CompactBlockFactory::CreateCompactBlock(block); CHECK(compact.GetHash() == block.GetHash() && compact.GetOutputs().size() == 1 && compact.GetOutputs()[0].IsCoinbase() && compact.GetKernels().size() == 1 && compact.GetKernels()[0].IsCoinbase() && compact.GetShortIds().size() == block.GetKernels().size() - 1, "compact-block-content");
  auto pool = std::make_shared<TransactionPool>(conf()); bool exact = true, all = true, pooled[4]; int merged = (int)v_choose("merged pair", 0, 3); for (int k = 0; k < 4; k++) { pooled[k] = v_fork("in the pool"); if (member[k] && !pooled[k]) all = false; } if (v_fork("order")) std::swap(t[0], t[1]), std::swap(pooled[0], pooled[1]), std::swap(member[0], member[1]);
  for (int k = 0; k < 4; k++) if (pooled[k]) { if (merged && k == 0 && pooled[merged]) { pool->m_memPool.AddTransaction(TransactionUtil::Aggregate({ t[0], t[merged] }), EDandelionStatus::FLUFFED); if (member[0] != member[merged]) exact = false; } else if (!(merged && k == merged && pooled[0])) pool->m_memPool.AddTransaction(t[k], EDandelionStatus::FLUFFED); }
  auto r = BlockHydrator(pool).Hydrate(compact); if (!all) CHECK(!r, "missing-transactions-are-noticed");
  if (all && exact) { CHECK(r && sameHashes(r->GetInputs(), block.GetInputs()) && sameHashes(r->GetOutputs(), block.GetOutputs()) && sameHashes(r->GetKernels(), block.GetKernels()) && r->GetHash() == block.GetHash(), "rebuilt-block-is-the-block"); REACH("rebuilt"); }
  if (r) { bool has = true; for (auto &k : block.GetKernels()) { bool f = false; for (auto &x : r->GetKernels()) f = f || x.GetHash() == k.GetHash(); has = has && f; } CHECK(has, "every-kernel-is-there"); } else REACH("missing");
}
