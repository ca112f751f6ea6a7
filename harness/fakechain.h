#pragma once
#include <BlockChain/BlockChain.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/Transaction.h>
#include <Core/Models/DTOs/BlockWithOutputs.h>
struct FakeBlockChain : public IBlockChain {
  void ResyncChain() override {} void UpdateSyncStatus(SyncStatus &) const override {}
  uint64_t GetHeight(const EChainType) const override { return 0; } uint64_t GetTotalDifficulty(const EChainType) const override { return 0; }
  EBlockChainStatus AddBlock(const FullBlock &) override { return EBlockChainStatus::SUCCESS; } EBlockChainStatus AddCompactBlock(const CompactBlock &) override { return EBlockChainStatus::SUCCESS; }
  fs::path SnapshotTxHashSet(BlockHeaderPtr) override { return {}; } EBlockChainStatus ProcessTransactionHashSet(const Hash &, const fs::path &, SyncStatus &) override { return EBlockChainStatus::SUCCESS; }
  EBlockChainStatus AddTransaction(TransactionPtr, const EPoolType) override { return EBlockChainStatus::SUCCESS; } TransactionPtr GetTransactionByKernelHash(const Hash &) const override { return nullptr; }
  EBlockChainStatus AddBlockHeader(BlockHeaderPtr) override { return EBlockChainStatus::SUCCESS; } EBlockChainStatus AddBlockHeaders(const std::vector<BlockHeaderPtr> &) override { return EBlockChainStatus::SUCCESS; }
  BlockHeaderPtr GetBlockHeaderByHeight(const uint64_t, const EChainType) const override { return nullptr; } BlockHeaderPtr GetBlockHeaderByHash(const Hash &) const override { return nullptr; } BlockHeaderPtr GetBlockHeaderByCommitment(const Commitment &) const override { return nullptr; }
  BlockHeaderPtr GetTipBlockHeader(const EChainType) const override { return nullptr; } std::vector<BlockHeaderPtr> GetBlockHeadersByHash(const std::vector<Hash> &) const override { return {}; }
  std::unique_ptr<CompactBlock> GetCompactBlockByHash(const Hash &) const override { return nullptr; } std::unique_ptr<FullBlock> GetBlockByHeight(const uint64_t) const override { return nullptr; } std::unique_ptr<FullBlock> GetBlockByHash(const Hash &) const override { return nullptr; } std::unique_ptr<FullBlock> GetBlockByCommitment(const Commitment &) const override { return nullptr; }
  bool HasBlock(const uint64_t, const Hash &) const override { return false; } std::vector<BlockWithOutputs> GetOutputsByHeight(const uint64_t, const uint64_t) const override { return {}; } std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t) const override { return {}; }
  bool ProcessNextOrphanBlock() override { return false; } bool HasOrphan(const Hash &) const override { return false; }
};
