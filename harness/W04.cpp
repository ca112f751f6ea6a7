//@stubs env secp bigcmp
//@flags -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Validation/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{Crypto,AggSig,Bulletproofs,Pedersen,PublicKeys}.cpp src/Wallet/{Wallet,WalletImpl,WalletRefresher,OutputRestorer,CancelTx}.cpp src/Wallet/Keychain/{KeyChain,KeyGenerator}.cpp src/Wallet/Models/Slate/*.cpp deps/jsoncpp/jsoncpp.cpp
//@bounds one output of any amount, height, kind, proof type and key path of up to four indices; chains of up to 4 (quick) or 5 (thorough) outputs, each foreign or own, of either proof type, spent or not, known to the wallet or not, delivered in pages of 2 or 3 outputs from any start, twice
//@outside the SQLite wallet database, the real range proof arithmetic (ideal group; the blinding factor is recovered only where both nonces agree), own proofs with a damaged message, outputs that a reorg moves below the leaves already searched
#include "wallet2.h"
#include <Wallet/OutputRestorer.h>
#include <Wallet/Keychain/KeyChain.h>
extern bool ideal_concrete;
struct Own { Commitment c; RangeProof p; SecretKey k; };
static Own make(const SecureVector &seed, const KeyChainPath &at, uint64_t amount, EBulletproofType type) {
  KeyChain k = KeyChain::FromSeed(seed); SecretKey b = k.DerivePrivateKey(at, amount); Commitment c = Crypto::CommitBlinded(amount, BlindingFactor(b.GetBytes())); return { c, k.GenerateRangeProof(at, amount, c, b, type), b };
}
static OutputDTO leaf(const Own &o, uint8_t features, uint64_t index, uint64_t height, bool spent) { return OutputDTO(spent, OutputIdentifier((EOutputFeatures)features, Commitment(o.c)), OutputLocation(LeafIndex::At(index), height), o.p); }
static bool restored(const OutputDataEntity &d, const OutputDTO &o, const KeyChainPath &at, uint64_t amount) {
  return (d.GetCommitment() == o.GetCommitment()) & (d.GetAmount() == amount) & (d.GetKeyChainPath() == at) & (d.GetStatus() == EOutputStatus::SPENDABLE) & (d.GetBlockHeight() == std::make_optional(o.GetBlockHeight())) & (d.GetMMRIndex() == std::make_optional(o.GetMMRPosition())) & (d.GetFeatures() == o.GetFeatures()) & (d.GetRangeProof() == o.GetRangeProof());
}
HARNESS(output) {
  keysUF = true;
  auto node = std::make_shared<Node>(); Party a(1, node); uint64_t amount = v_u64("amount"), h = v_u64("height"), i = v_u64("leaf"); verif_assume((i < (1ull << 40)) & (amount < (1ull << 63)) & (h < (1ull << 40)));
  EBulletproofType type = v_fork("original") ? EBulletproofType::ORIGINAL : EBulletproofType::ENHANCED; size_t n = type == EBulletproofType::ORIGINAL ? 3 : v_choose("depth", 1, 4); std::vector<uint32_t> ix; for (size_t j = 0; j < n; j++) ix.push_back(v_u32("index")); KeyChainPath at(std::move(ix));
  if (type == EBulletproofType::ORIGINAL) verif_assume(Consensus::GetHeaderVersion(h) == 1); uint8_t features = (uint8_t)v_choose("features", 0, 1); bool spent = v_fork("spent"), mine = v_fork("mine");
  std::optional<Own> made; done([&] { made = make(mine ? a.seed : seedOf(9), at, amount, type); }); verif_assume(made.has_value()); Own &o = *made; OutputDTO dto = leaf(o, features, i, h, spent); KeyChain keys = KeyChain::FromSeed(a.seed); auto found = OutputRestorer(node, keys).GetWalletOutput(dto);
  if (!mine) { CHECK(!found, "foreign-outputs-are-left"); return; } CHECK(found != nullptr, "own-outputs-are-found"); if (!found) return; REACH("found");
  CHECK(found->GetAmount() == amount && found->GetKeyChainPath() == at, "amount-and-path"); CHECK(memcmp(found->GetBlindingFactor().data(), o.k.data(), 32) == 0, "the-key-opens-the-output"); CHECK(found->GetFeatures() == dto.GetFeatures() && found->GetCommitment() == o.c && found->GetRangeProof() == o.p && found->GetBlockHeight() == std::make_optional(h) && found->GetMMRIndex() == std::make_optional(LeafIndex::At(i).GetPosition()), "as-on-the-chain"); CHECK(found->GetStatus() == (spent ? EOutputStatus::SPENT : EOutputStatus::SPENDABLE), "spent-or-not");
}
struct Leaf { bool own, spent, known; KeyChainPath at = ww::path(0); uint64_t amount; };
static size_t node_at(const std::vector<Leaf> &w, size_t k) { for (size_t i = 0; i < w.size(); i++) if (w[i].known && k-- == 0) return i; return 0; }
static void search(size_t n) {
  ideal_concrete = true; auto node = std::make_shared<Node>(); Party a(1, node); node->page = v_choose("page", 2, 3); std::vector<Leaf> w; size_t have = 0;
  for (size_t i = 0; i < n; i++) {
    Leaf l{ v_fork("own"), false, false, ww::path((uint32_t)i), 100 + i }; l.spent = i + 1 < n && v_fork("spent"); Own o = make(l.own ? a.seed : seedOf(9), l.at, l.amount, l.own && i == 1 && v_fork("original") ? EBulletproofType::ORIGINAL : EBulletproofType::ENHANCED);
    node->leaves.push_back(leaf(o, (uint8_t)(i & 1), i, 10 + i, l.spent)); if (!l.spent) node->chain.push_back({ o.c, 10 + i });
    if (l.own && (l.known = v_fork("known"))) { a.db->s.outputs.push_back(OutputDataEntity(l.at, SecretKey(o.k), TransactionOutput(EOutputFeatures(i & 1), o.c, o.p), l.amount, EOutputStatus::LOCKED, std::nullopt, 10 + i, 77u, std::vector<std::string>{})); have++; } w.push_back(l);
  }
  bool genesis = v_fork("from genesis"); size_t start = v_choose("searched", 0, n - 1); a.db->s.leaf = start; a.db->saved = a.db->s; node->prune = v_fork("prune"); size_t from = genesis ? 0 : start + 1;
  for (int round = 0; round < 2; round++) {
    State b = a.db->s; bool ok = done([&] { a.impl.Write()->RefreshOutputs(a.seed, round == 0 && genesis); }); CHECK(ok, "refreshed"); auto &s = a.db->s; size_t k = b.outputs.size(), found = 0; bool all = true, paid = true; if (!ok) return;
    if (round == 0) for (size_t i = from; i < n; i++) if (w[i].own && !w[i].spent && !w[i].known) { found++; if (k >= s.outputs.size()) { all = false; break; } auto &o = s.outputs[k++]; all = all && restored(o, node->leaves[i], w[i].at, w[i].amount) && Crypto::CommitBlinded(o.GetAmount(), BlindingFactor(o.GetBlindingFactor().GetBytes())) == o.GetCommitment();
      int m = 0; for (auto &t : s.txs) if (std::make_optional(t.GetId()) == o.GetWalletTxId()) { m++; paid = paid && t.GetType() == EWalletTxType::RECEIVED && t.GetAmountCredited() == w[i].amount && t.GetAmountDebited() == 0 && t.GetConfirmationHeight() == std::make_optional<uint64_t>(10 + i); } paid = paid && m == 1; }
    CHECK(all && s.outputs.size() == k, "exactly-the-own-unspent-unknown-outputs"); CHECK(paid && s.txs.size() == b.txs.size() + found, "one-received-transaction-each"); bool known = true; for (size_t i = 0; i < have; i++) known = known && s.outputs[i].GetStatus() == (w[node_at(w, i)].spent ? EOutputStatus::SPENT : EOutputStatus::LOCKED); CHECK(known, "known-outputs-stay"); if (found) REACH("found");
    CHECK(s.leaf == std::max<size_t>(n - 1, b.leaf), "the-next-search-goes-on-behind"); CHECK(a.db->saved.outputs.size() == s.outputs.size(), "committed");
  }
}
HARNESS(chain) { search(verif_tier() ? 5 : 4); REACH("found"); }
