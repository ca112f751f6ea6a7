#pragma once
// A transaction pool over a known set of coins. Transactions carry a verdict in place of their proofs; hashes mix their whole input.
#include "verif.h"
#include "env.h"
#include "fakes.h"
#include <TxPool/TransactionPoolImpl.h>
#include <TxPool/ValidTransactionFinder.h>
#include <Core/Validation/TransactionValidator.h>
#include <Core/Util/TransactionUtil.h>
#include <Core/Context.h>
#include <Crypto/CSPRNG.h>
#include <Crypto/Hasher.h>
#include <Crypto/Crypto.h>
#include <cstring>
extern "C" uint64_t verif_clock_ns();
namespace tw {
static uint64_t dice = 0, feeBase = 1, now = 1600000000; static uint16_t embargo = 180; static uint8_t stem = 90; static bool broken[8], utxo[16], checked;
static Commitment com(uint8_t k) { std::vector<uint8_t> b(33, k); b[0] = 8; return Commitment(CBigInteger<33>(b.data())); }
static int idOf(const Commitment &c) { return c.GetBytes()[1]; }
static TransactionInput in(int k) { return TransactionInput(EOutputFeatures::DEFAULT, com((uint8_t)k)); }
static TransactionOutput out(int k) { return TransactionOutput(EOutputFeatures::DEFAULT, com((uint8_t)k), RangeProof(std::vector<uint8_t>(8, (uint8_t)k))); }
static TransactionKernel ker(int k, uint64_t fee = 10, uint64_t lock = 0, uint8_t shift = 0, bool locked = false) { std::vector<uint8_t> s(64, (uint8_t)k); return TransactionKernel(locked ? EKernelFeatures::HEIGHT_LOCKED : EKernelFeatures::DEFAULT_KERNEL, Fee(shift, fee), lock, com((uint8_t)(100 + k)), Signature(CBigInteger<64>(s.data()))); }
static TransactionPtr tx(std::vector<int> i, std::vector<int> o, std::vector<TransactionKernel> k, int id) { std::vector<TransactionInput> a; for (int x : i) a.push_back(in(x)); std::vector<TransactionOutput> b; for (int x : o) b.push_back(out(x)); return std::make_shared<Transaction>(BlindingFactor(hashOf((uint8_t)id)), TransactionBody(std::move(a), std::move(b), std::move(k))); }
// the whole body is sound on its own: nothing twice, nothing to cut through, no broken kernel
static bool sound(const TransactionBody &b) {
  auto &i = b.GetInputs(); auto &o = b.GetOutputs(); auto &k = b.GetKernels(); for (size_t x = 0; x < i.size(); x++) { for (size_t y = 0; y < x; y++) if (i[x].GetCommitment() == i[y].GetCommitment()) return false; for (auto &p : o) if (i[x].GetCommitment() == p.GetCommitment()) return false; }
  for (size_t x = 0; x < o.size(); x++) for (size_t y = 0; y < x; y++) if (o[x].GetCommitment() == o[y].GetCommitment()) return false; for (size_t x = 0; x < k.size(); x++) { for (size_t y = 0; y < x; y++) if (k[x].GetExcessCommitment() == k[y].GetExcessCommitment()) return false; if (broken[idOf(k[x].GetExcessCommitment()) - 100]) return false; }
  return true;
}
static bool onChain(const TransactionBody &b) { for (auto &i : b.GetInputs()) if (!utxo[idOf(i.GetCommitment())]) return false; for (auto &o : b.GetOutputs()) if (utxo[idOf(o.GetCommitment())]) return false; return true; }
struct Set : public ITxHashSet {
  BlockHeaderPtr head;
  std::unique_ptr<BlockSums> ValidateTxHashSet(const BlockHeader &, const IBlockChain &, SyncStatus &) override { return nullptr; } void SaveOutputPositions(const Chain::CPtr &, std::shared_ptr<IBlockDB>) const override {}
  bool IsValid(std::shared_ptr<const IBlockDB>, const Transaction &t) const override { return onChain(t.GetBody()); }
  bool ApplyBlock(std::shared_ptr<IBlockDB>, const FullBlock &) override { return true; } bool ValidateRoots(const BlockHeader &) const override { return true; } TxHashSetRoots GetRoots(const std::shared_ptr<const IBlockDB> &, const TransactionBody &) override { throw 1; }
  std::vector<Hash> GetLastKernelHashes(const uint64_t) const override { return {}; } std::vector<Hash> GetLastOutputHashes(const uint64_t) const override { return {}; } std::vector<Hash> GetLastRangeProofHashes(const uint64_t) const override { return {}; }
  OutputRange GetOutputsByLeafIndex(std::shared_ptr<const IBlockDB>, const uint64_t, const uint64_t) const override { return OutputRange(0, 0, {}); } std::vector<OutputDTO> GetOutputsByMMRIndex(std::shared_ptr<const IBlockDB>, const uint64_t, const uint64_t) const override { return {}; } OutputDTO GetOutput(const OutputLocation &) const override { throw 1; }
  BlockHeaderPtr GetFlushedBlockHeader() const noexcept override { return head; } void Rewind(std::shared_ptr<IBlockDB>, const BlockHeader &) override {} void Commit() override {} void Rollback() noexcept override {} void Compact() override {}
};
static Config &conf() { static char raw[8192]; return *(Config *)raw; }
static bool clash(const Transaction &a, const Transaction &b) { for (auto &i : a.GetInputs()) for (auto &j : b.GetInputs()) if (i.GetCommitment() == j.GetCommitment()) return true; for (auto &i : a.GetOutputs()) for (auto &j : b.GetOutputs()) if (i.GetCommitment() == j.GetCommitment()) return true; for (auto &i : a.GetKernels()) for (auto &j : b.GetKernels()) if (i.GetExcessCommitment() == j.GetExcessCommitment()) return true; return false; }
}
void TransactionValidator::Validate(const Transaction &t, const uint64_t) const { tw::checked = true; if (!tw::sound(t.GetBody())) throw std::runtime_error("unsound"); }
Config &Global::GetConfig() { return tw::conf(); }
uint64_t Config::GetFeeBase() const noexcept { return tw::feeBase; }
uint16_t Config::GetEmbargoSeconds() const noexcept { return tw::embargo; }
uint8_t Config::GetStemProbability() const noexcept { return tw::stem; }
uint64_t CSPRNG::GenerateRandom(const uint64_t lo, const uint64_t hi) { verif_assume(tw::dice >= lo && tw::dice <= hi); return tw::dice; }
BlindingFactor Crypto::AddBlindingFactors(const std::vector<BlindingFactor> &pos, const std::vector<BlindingFactor> &neg) { Hash h; for (auto &p : pos) for (int i = 0; i < 32; i++) h[i] = (uint8_t)(h[i] + p.GetBytes()[i]); for (auto &p : neg) for (int i = 0; i < 32; i++) h[i] = (uint8_t)(h[i] - p.GetBytes()[i]); return BlindingFactor(h); }
static void mix(unsigned char *out, size_t n, const unsigned char *in, size_t len, uint64_t h) {
  bool sym = false; for (size_t i = 0; i < len; i++) sym = sym || verif_is_symbolic(in[i]);
  if (sym) { verif_uf(940, out, n, in, len, 0); return; }
  for (size_t i = 0; i < len; i++) h = (h ^ in[i]) * 1099511628211ull; for (size_t i = 0; i < n; i++) { h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull + i; out[i] = (unsigned char)(h >> 56); }
}
extern "C" int crypto_generichash_blake2b(unsigned char *out, size_t outlen, const unsigned char *in, unsigned long long inlen, const unsigned char *key, size_t keylen) { (void)key; mix(out, outlen, in, inlen, 14695981039346656037ull + keylen); return 0; }
extern "C" int crypto_shorthash_siphash24(unsigned char *out, const unsigned char *in, unsigned long long len, const unsigned char *k) { uint64_t a, b; memcpy(&a, k, 8); memcpy(&b, k + 8, 8); mix(out, 8, in, len, a ^ (b * 31)); return 0; }
