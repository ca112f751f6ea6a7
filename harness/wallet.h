#pragma once
// Wallets over an in-memory database and a node that knows which outputs are on the chain. Keys come from a concrete mixing function,
// commitments and signatures from the ideal group. Slatepack armor (text encoding of the slate) is switched off.
#include "verif.h"
#include "env.h"
#include "fakes.h"
#include "ideal.h"
#include <cstring>
#include <Core/Exceptions/CryptoException.h>
#include <Core/Validation/TransactionValidator.h>
#include <Crypto/Hasher.h>
#include <Crypto/CSPRNG.h>
#include <Crypto/ED25519.h>
#include <Wallet/NodeClient.h>
#include <Wallet/WalletDB/WalletDB.h>
#include <Wallet/WalletUtil.h>
#include <Wallet/Exceptions/InsufficientFundsException.h>
#include <Wallet/Models/Slatepack/Armor.h>
struct PlainArmor { static std::string Pack(const SlatepackAddress &, const Slate &, const std::vector<SlatepackAddress> & = {}) { return "slatepack"; } };
#define Armor PlainArmor
#include <Wallet/SlateBuilder/CoinSelection.cpp>
#include <Wallet/SlateBuilder/SendSlateBuilder.cpp>
#include <Wallet/SlateBuilder/ReceiveSlateBuilder.cpp>
#include <Wallet/SlateBuilder/FinalizeSlateBuilder.cpp>
#undef Armor
#include <Wallet/CancelTx.h>
#include <Wallet/WalletRefresher.h>
namespace ww {
inline bool keysUF = false; // key derivation as an uninterpreted function of key and index instead of the mixing function
inline uint32_t minConfs = 10; inline uint64_t counter = 1;
inline void mix(const uint8_t *p, size_t n, uint64_t &h) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; }
inline uint64_t num(const uint8_t *p) { uint64_t r = 0; for (int i = 0; i < 8; i++) r = r << 8 | p[i]; return r; }
inline void put(uint8_t *p, uint64_t v) { for (int i = 7; i >= 0; i--) { p[i] = (uint8_t)v; v >>= 8; } }
struct State {
  std::vector<OutputDataEntity> outputs; std::vector<WalletTx> txs; std::vector<std::pair<uuids::uuid, SlateContextEntity>> contexts; std::vector<Slate> slates; uint32_t nextTx = 1, nextChild = 0; uint64_t refreshed = 0, leaf = 0;
};
struct DB : public IWalletDB {
  State s, saved; bool batch = false; int address = 0; const SecureVector *seed = nullptr; bool wrongSeed = false;
  void own(const SecureVector &m) const { if (seed && m != *seed) const_cast<DB *>(this)->wrongSeed = true; }
  KeyChainPath GetNextChildPath(const KeyChainPath &parent) override { return parent.GetChild(s.nextChild++); }
  int GetCurrentAddressIndex(const KeyChainPath &) const override { return address; } int IncreaseAddressIndex(const KeyChainPath &) override { return ++address; }
  std::unique_ptr<Slate> LoadSlate(const SecureVector &m, const uuids::uuid &id, const SlateStage &st) const override { own(m); for (auto &x : s.slates) if (x.slateId == id && x.stage == st) return std::make_unique<Slate>(x); return nullptr; }
  std::pair<std::unique_ptr<Slate>, std::string> LoadLatestSlate(const SecureVector &, const uuids::uuid &) const override { return {}; } std::string LoadArmoredSlatepack(const uuids::uuid &) const override { return ""; }
  void SaveSlate(const SecureVector &m, const Slate &x, const std::string &) override { own(m); for (auto &y : s.slates) if (y.slateId == x.slateId && y.stage == x.stage) { y = x; return; } s.slates.push_back(x); }
  std::unique_ptr<SlateContextEntity> LoadSlateContext(const SecureVector &m, const uuids::uuid &id) const override { own(m); for (auto &x : s.contexts) if (x.first == id) return std::make_unique<SlateContextEntity>(x.second); return nullptr; }
  void SaveSlateContext(const SecureVector &m, const uuids::uuid &id, const SlateContextEntity &c) override { own(m); for (auto &x : s.contexts) if (x.first == id) { x.second = c; return; } s.contexts.push_back({ id, c }); }
  void AddOutputs(const SecureVector &m, const std::vector<OutputDataEntity> &o) override { own(m); for (auto &x : o) { verif_assume(num(x.GetBlindingFactor().data() + 24) != 0); bool f = false; for (auto &y : s.outputs) if (!f) { if (y.GetKeyChainPath() == x.GetKeyChainPath() && y.GetAmount() == x.GetAmount()) { y = x; f = true; } else verif_assume(num(y.GetBlindingFactor().data() + 24) != num(x.GetBlindingFactor().data() + 24)); } if (!f) s.outputs.push_back(x); } } // other keys: other blinding factors
  std::vector<OutputDataEntity> GetOutputs(const SecureVector &m) const override { own(m); return s.outputs; }
  void AddTransaction(const SecureVector &m, const WalletTx &t) override { own(m); for (auto &y : s.txs) if (y.GetId() == t.GetId()) { y = t; return; } s.txs.push_back(t); }
  std::vector<WalletTx> GetTransactions(const SecureVector &m) const override { own(m); return s.txs; }
  std::unique_ptr<WalletTx> GetTransactionById(const SecureVector &m, const uint32_t id) const override { own(m); for (auto &y : s.txs) if (y.GetId() == id) return std::make_unique<WalletTx>(y); return nullptr; }
  uint32_t GetNextTransactionId() override { return s.nextTx++; } uint64_t GetRefreshBlockHeight() const override { return s.refreshed; } void UpdateRefreshBlockHeight(const uint64_t h) override { s.refreshed = h; }
  uint64_t GetRestoreLeafIndex() const override { return s.leaf; } void UpdateRestoreLeafIndex(const uint64_t l) override { s.leaf = l; }
  void Commit() override { saved = s; } void Rollback() noexcept override { s = saved; } void OnInitWrite(const bool) override { saved = s; }
};
struct Node : public INodeClient {
  uint64_t height = 5000; std::vector<std::pair<Commitment, uint64_t>> chain; std::vector<OutputDTO> leaves; uint64_t page = 2; bool prune = false;
  uint64_t GetChainHeight() const override { return height; }
  BlockHeaderPtr GetTipHeader() const override { return GetBlockHeader(height); } BlockHeaderPtr GetBlockHeader(const uint64_t h) const override { HeaderSpec x; x.height = h; x.hash = hashOf(1); return x.make(); }
  std::map<Commitment, OutputLocation> GetOutputsByCommitment(const std::vector<Commitment> &c) const override { std::map<Commitment, OutputLocation> m; for (auto &x : chain) for (auto &y : c) if (x.first == y) { m.insert({ y, OutputLocation(LeafIndex::At(7), x.second) }); break; } return m; }
  std::vector<BlockWithOutputs> GetBlockOutputs(const uint64_t, const uint64_t) const override { return {}; }
  // leaf i of the MMR is leaves[i]; spent leaves stay known
  std::unique_ptr<OutputRange> GetOutputsByLeafIndex(const uint64_t start, const uint64_t) const override {
    if (leaves.empty()) return nullptr; std::vector<OutputDTO> o; uint64_t i = start; for (; i < leaves.size() && o.size() < page; i++) if (!prune || !leaves[i].IsSpent()) o.push_back(leaves[i]); return std::make_unique<OutputRange>(leaves.size() - 1, o.empty() ? 0 : i - 1, std::move(o));
  }
  std::vector<TransactionPtr> posted; bool PostTransaction(TransactionPtr t, const EPoolType) override { posted.push_back(t); return true; }
};
inline SecureVector seedOf(uint8_t k) { return SecureVector(32, k); }
inline Config &conf() { static char raw[8192]; return *(Config *)raw; }
inline uuids::uuid idOf(uint8_t k) { std::array<unsigned char, 16> a; a.fill(k); return uuids::uuid(a); }
inline KeyChainPath path(uint32_t i) { return KeyChainPath(std::vector<uint32_t>{ 0, 0, i }); }
// an output of the given value whose blinding factor is a small number
inline OutputDataEntity output(uint64_t value, uint64_t blind, EOutputStatus st, uint8_t features, std::optional<uint64_t> height, std::optional<uint32_t> txId, uint32_t at) {
  return OutputDataEntity(path(at), ideal::key(blind), TransactionOutput((EOutputFeatures)features, ideal::commit(value, blind), ideal::proof(value, blind, 1)), value, st, std::nullopt, height, txId, std::vector<std::string>{});
}
struct Party {
  SecureVector seed; std::shared_ptr<DB> db = std::make_shared<DB>(); std::shared_ptr<Node> node; Locked<IWalletDB> ldb; Locked<WalletImpl> impl; std::shared_ptr<Wallet> wallet; ed25519_public_key_t address;
  Party(uint8_t k, std::shared_ptr<Node> n) : seed(seedOf(k)), node(n), ldb(std::static_pointer_cast<IWalletDB>(db)), impl(std::shared_ptr<WalletImpl>()) {
    db->seed = &seed; address = ed25519_public_key_t(CBigInteger<32>(std::vector<uint8_t>(32, k)));
    impl = Locked<WalletImpl>(std::shared_ptr<WalletImpl>(new WalletImpl(conf(), node, ldb, "user", KeyChainPath::FromString("m/0/0"), SlatepackAddress(address))));
    wallet = std::make_shared<Wallet>(ldb, SessionToken(1, std::vector<unsigned char>{ 1 }), seed, "user", KeyChainPath::FromString("m/0/0"), SlatepackAddress(address));
  }
};
inline bool same(const OutputDataEntity &a, const OutputDataEntity &b) { return (a.GetCommitment() == b.GetCommitment()) & (a.GetAmount() == b.GetAmount()) & (a.GetStatus() == b.GetStatus()) & (a.GetBlockHeight() == b.GetBlockHeight()) & (a.GetWalletTxId() == b.GetWalletTxId()) & (a.GetBlindingFactor() == b.GetBlindingFactor()); }
inline const OutputDataEntity *find(const State &s, const Commitment &c) { for (auto &o : s.outputs) if (o.GetCommitment() == c) return &o; return nullptr; }
// nothing but the counters differs
inline bool unchanged(const State &a, const State &b) {
  if (a.outputs.size() != b.outputs.size() || a.txs.size() != b.txs.size() || a.contexts.size() != b.contexts.size() || a.slates.size() != b.slates.size()) return false;
  bool ok = true; for (size_t i = 0; i < a.outputs.size(); i++) ok = ok & same(a.outputs[i], b.outputs[i]); for (size_t i = 0; i < a.txs.size(); i++) ok = ok & (a.txs[i].GetId() == b.txs[i].GetId()) & (a.txs[i].GetType() == b.txs[i].GetType()); return ok;
}
}
Config &Global::GetConfig() { return ww::conf(); }
uint32_t Config::GetMinimumConfirmations() const noexcept { return ww::minConfs; }
uint32_t Config::GetPrivateKeyVersion() const noexcept { return 0x03C08FB8; }
CBigInteger<32> CSPRNG::GenerateRandom32() { uint8_t b[32] = { 0 }; uint64_t h = 77 + ww::counter++; ww::mix(b, 8, h); ww::put(b + 24, h >> 2); return CBigInteger<32>(b); }
Hash Hasher::Blake2b(const uint8_t *in, const size_t n) { return ideal::blake(std::vector<uint8_t>(in, in + n)); }
Hash Hasher::Blake2b(const std::vector<uint8_t> &in) { return ideal::blake(in); }
Hash Hasher::Blake2b(const std::vector<uint8_t> &key, const uint8_t *in, const size_t n) { std::vector<uint8_t> v = key; v.push_back(0x33); v.insert(v.end(), in, in + n); return ideal::blake(v); }
Hash Hasher::Blake2b(const std::vector<uint8_t> &key, const std::vector<uint8_t> &in) { return Hasher::Blake2b(key, in.data(), in.size()); }
Hash Hasher::SHA256(const uint8_t *in, const size_t n) { uint64_t h = 5; if (!ww::keysUF) ww::mix(in, n, h); uint8_t o[32] = { 0 }; ww::put(o + 24, h); return Hash(o); }
Hash Hasher::SHA256(const std::vector<uint8_t> &in) { return Hasher::SHA256(in.data(), in.size()); }
CBigInteger<20> Hasher::RipeMD160(const std::vector<uint8_t> &in) { uint64_t h = 9; ww::mix(in.data(), in.size(), h); std::vector<uint8_t> o(20, 0); ww::put(o.data(), h); return CBigInteger<20>(o.data()); }
CBigInteger<64> Hasher::HMAC_SHA512(const std::vector<uint8_t> &key, const uint8_t *data, const size_t n) { if (ww::keysUF) { std::vector<uint8_t> v = key; v.insert(v.end(), data, data + n); std::vector<uint8_t> o(64, 0); ideal_uf(911, o.data() + 24, 8, v.data(), v.size(), 1); o[24] &= 0x3f; ideal_uf(912, o.data() + 56, 8, v.data(), v.size(), 1); return CBigInteger<64>(o.data()); } uint64_t h = 11; ww::mix(key.data(), key.size(), h); ww::mix(data, n, h); std::vector<uint8_t> o(64, 0); ww::put(o.data() + 24, h >> 2); ww::mix(data, n, h); ww::put(o.data() + 56, h); return CBigInteger<64>(o.data()); }
extern "C" void uuid_generate(unsigned char *id) { memset(id, 0, 16); ww::put(id + 8, ww::counter++); }
// the standard library's entropy source: unused results
extern "C" void rd_init(void *, const std::string &) asm("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); extern "C" void rd_init(void *, const std::string &) {}
extern "C" void rd_fini(void *) asm("_ZNSt13random_device7_M_finiEv"); extern "C" void rd_fini(void *) {}
extern "C" unsigned rd_get(void *) asm("_ZNSt13random_device9_M_getvalEv"); extern "C" unsigned rd_get(void *) { return 4; }
extern "C" int mlock(const void *, size_t) { return 0; } extern "C" int munlock(const void *, size_t) { return 0; }
