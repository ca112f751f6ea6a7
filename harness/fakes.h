#pragma once
// Stand-ins for the interfaces at the boundary of the code under check.
#include "verif.h"
#include <Database/BlockDb.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/BlockSums.h>
#include <Core/Models/OutputLocation.h>
#include <PMMR/HeaderMMR.h>
#include <map>
struct FakeBlockDB : public IBlockDB {
  std::vector<std::pair<Hash, BlockHeaderPtr>> headers;
  std::vector<std::pair<Hash, BlockSums>> sums;
  std::vector<std::pair<Commitment, OutputLocation>> positions;
  std::vector<std::pair<Hash, std::vector<SpentOutput>>> spent;
  std::vector<std::pair<Hash, FullBlock>> blocks;
  uint8_t version = 0;
  uint8_t GetVersion() const override { return version; }
  void SetVersion(const uint8_t v) override { version = v; }
  void MigrateBlocks() override {}
  void Compact(const std::shared_ptr<const Chain> &) override {}
  BlockHeaderPtr GetBlockHeader(const Hash &h) const override { for (auto &p : headers) if (p.first == h) return p.second; return nullptr; }
  void AddBlockHeader(BlockHeaderPtr p) override { headers.insert(headers.begin(), { p->GetHash(), p }); }
  void AddBlockHeaders(const std::vector<BlockHeaderPtr> &v) override { for (auto &p : v) AddBlockHeader(p); }
  void AddBlock(const FullBlock &b) override { blocks.push_back({ b.GetHash(), b }); }
  std::unique_ptr<FullBlock> GetBlock(const Hash &h) const override { for (auto &p : blocks) if (p.first == h) return std::make_unique<FullBlock>(p.second); return nullptr; }
  void ClearBlocks() override { blocks.clear(); }
  void AddBlockSums(const Hash &h, const BlockSums &s) override { sums.insert(sums.begin(), { h, s }); }
  std::unique_ptr<BlockSums> GetBlockSums(const Hash &h) const override { for (auto &p : sums) if (p.first == h) return std::make_unique<BlockSums>(p.second); return nullptr; }
  void ClearBlockSums() override { sums.clear(); }
  void AddOutputPosition(const Commitment &c, const OutputLocation &l) override { positions.insert(positions.begin(), { c, l }); }
  std::unique_ptr<OutputLocation> GetOutputPosition(const Commitment &c) const override { for (auto &p : positions) if (p.first == c) return std::make_unique<OutputLocation>(p.second); return nullptr; }
  void RemoveOutputPositions(const std::vector<Commitment> &cs) override { for (auto &c : cs) for (size_t i = 0; i < positions.size();) if (positions[i].first == c) positions.erase(positions.begin() + i); else i++; }
  void ClearOutputPositions() override { positions.clear(); }
  void AddSpentPositions(const Hash &h, const std::vector<SpentOutput> &v) override { spent.insert(spent.begin(), { h, v }); }
  std::unordered_map<Commitment, OutputLocation> GetSpentPositions(const Hash &h) const override {
    std::unordered_map<Commitment, OutputLocation> m; for (auto &p : spent) if (p.first == h) { for (auto &o : p.second) m.insert({ o.GetCommitment(), o.GetLocation() }); break; } return m; }
  void ClearSpentPositions() override { spent.clear(); }
  void Commit() override {}
  void Rollback() noexcept override {}
};
struct FakeHeaderMMR : public IHeaderMMR {
  std::vector<std::pair<uint64_t, Hash>> roots; Hash other;
  void AddHeader(const BlockHeader &) override {}
  Hash Root(const uint64_t h) const override { for (auto &p : roots) if (p.first == h) return p.second; return other; }
  void Rewind(const uint64_t) override {}
  void Commit() override {}
  void Rollback() noexcept override {}
};
// a 32-byte value whose bytes are all k
static inline Hash hashOf(uint8_t k) { Hash h; for (int i = 0; i < 32; i++) h[i] = k; return h; }
static inline Hash symHash(const char *n) { auto b = v_bytes(n, 32); return Hash(b.data()); }
struct HeaderSpec {
  uint16_t version = 1; uint64_t height = 0; int64_t timestamp = 0; Hash prev, prevRoot, outputRoot, rproofRoot, kernelRoot; BlindingFactor offset{ Hash() };
  uint64_t outSize = 0, kernSize = 0, difficulty = 0; uint32_t scaling = 0; uint64_t nonce = 0; uint8_t edgeBits = 32; std::vector<uint64_t> nonces; Hash hash;
  BlockHeaderPtr make() const {
    return std::make_shared<BlockHeader>(version, height, timestamp, Hash(prev), Hash(prevRoot), Hash(outputRoot), Hash(rproofRoot), Hash(kernelRoot), BlindingFactor(offset), outSize, kernSize, difficulty, scaling, nonce,
                                         ProofOfWork(edgeBits, std::vector<uint64_t>(nonces), Hash(hash)));
  }
};
