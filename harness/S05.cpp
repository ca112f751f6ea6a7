//@stubs env hash secp bigcmp
//@flags -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{Hasher,Crypto,AggSig,Bulletproofs,Pedersen,PublicKeys}.cpp src/Wallet/Models/Slate/*.cpp deps/jsoncpp/jsoncpp.cpp
//@bounds slates with up to 2 signatures and 2 commitments, range proofs of 0, 3 and 675 bytes, every byte of every key, nonce, signature, commitment and address symbolic; malformed slates of up to 120 arbitrary bytes with at most 1 signature and 1 commitment; wallet records with up to 1 input and 1 output each; decimal numbers in JSON and key paths drawn from 12 values around the limits
//@outside JSON text (parsing and printing of JSON values is left to jsoncpp), other decimal numbers, labels beyond one per output, a stored leaf position or height of 0 means none
#include "verif.h"
#include "env.h"
#include <Wallet/Models/Slate/Slate.h>
#include <Wallet/WalletDB/Models/OutputDataEntity.h>
#include <Wallet/WalletDB/Models/SlateContextEntity.h>
#include <Wallet/WalletDB/Models/EncryptedSeed.h>
#include <Wallet/WalletDB/UserMetadata.h>
#include <Wallet/WalletTx.h>
#include <cstring>
extern "C" void rd_init(void *, const std::string &) asm("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); extern "C" void rd_init(void *, const std::string &) {}
extern "C" void rd_fini(void *) asm("_ZNSt13random_device7_M_finiEv"); extern "C" void rd_fini(void *) {}
extern "C" unsigned rd_get(void *) asm("_ZNSt13random_device9_M_getvalEv"); extern "C" unsigned rd_get(void *) { return 4; }
extern "C" void uuid_generate(unsigned char *id) { memset(id, 9, 16); } extern "C" int mlock(const void *, size_t) { return 0; } extern "C" int munlock(const void *, size_t) { return 0; }
template <size_t N> static CBigInteger<N> big(const char *n) { return CBigInteger<N>(v_bytes(n, N)); }
static const uint64_t NUM[] = { 0, 1, 9, 10, 99, 100, 255, 65535, 4294967295ull, 1000000000000ull, 9223372036854775808ull, 18446744073709551615ull };
static uint64_t num(const char *n, bool json) { return json ? NUM[v_choose(n, 0, 11)] : v_u64(n); }
static RangeProof proof(bool full) { static const int ps[] = { 0, 3, 675 }; return RangeProof(v_bytes("proof", full ? 675 : ps[v_choose("proofSize", 0, 2)])); }
static CompactSignature csig() { return CompactSignature(big<64>("part")); }
static bool same(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static void each(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b, const char *label) { CHECK(a.size() == b.size(), label); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i += 4) { bool r = true; for (size_t j = i; j < a.size() && j < i + 4; j++) r = r & (a[j] == b[j]); CHECK(r, label); } }
static bool same(const SlateSignature &a, const SlateSignature &b) { return same(a.excess.vec(), b.excess.vec()) & same(a.nonce.vec(), b.nonce.vec()) & (a.partialOpt.has_value() == b.partialOpt.has_value()) & (!a.partialOpt || !b.partialOpt || same(a.partialOpt->GetSignatureBytes().GetData(), b.partialOpt->GetSignatureBytes().GetData())); }
static bool same(const SlateCommitment &a, const SlateCommitment &b) { return (a.features == b.features) & same(a.commitment.GetVec(), b.commitment.GetVec()) & (a.proofOpt.has_value() == b.proofOpt.has_value()) & (!a.proofOpt || !b.proofOpt || same(a.proofOpt->GetProofBytes(), b.proofOpt->GetProofBytes())); }
static bool same(const SlatePaymentProof &a, const SlatePaymentProof &b) { return same(a.GetSenderAddress().vec(), b.GetSenderAddress().vec()) & same(a.GetReceiverAddress().vec(), b.GetReceiverAddress().vec()) & (a.GetReceiverSignature().has_value() == b.GetReceiverSignature().has_value()) & (!a.GetReceiverSignature() || !b.GetReceiverSignature() || same(a.GetReceiverSignature()->bytes.GetData(), b.GetReceiverSignature()->bytes.GetData())); }
template <class T> static bool same(const std::optional<T> &a, const std::optional<T> &b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
template <class T> static bool sameAll(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & same(a[i], b[i]); return r; }
static void compare(const Slate &a, const Slate &b) {
  CHECK(a.slateId == b.slateId && a.stage == b.stage && a.version == b.version, "identity-stage-version"); CHECK(a.blockVersion == b.blockVersion && a.numParticipants == b.numParticipants && a.ttl == b.ttl, "block-version-participants-ttl");
  CHECK(a.amount == b.amount && a.fee == b.fee && a.offset.GetBytes() == b.offset.GetBytes(), "amount-fee-offset"); CHECK(a.kernelFeatures == b.kernelFeatures && a.GetLockHeight() == b.GetLockHeight(), "kernel-features-and-lock");
  CHECK(a.sigs.size() == b.sigs.size(), "signatures"); CHECK(a.commitments.size() == b.commitments.size(), "commitments"); CHECK(a.proofOpt.has_value() == b.proofOpt.has_value(), "payment-proof");
  for (size_t i = 0; i < a.sigs.size() && i < b.sigs.size(); i++) { auto &x = a.sigs[i], &y = b.sigs[i]; each(x.excess.vec(), y.excess.vec(), "signatures"); each(x.nonce.vec(), y.nonce.vec(), "signatures"); CHECK(x.partialOpt.has_value() == y.partialOpt.has_value(), "signatures"); if (x.partialOpt && y.partialOpt) each(x.partialOpt->GetSignatureBytes().GetData(), y.partialOpt->GetSignatureBytes().GetData(), "signatures"); }
  for (size_t i = 0; i < a.commitments.size() && i < b.commitments.size(); i++) { auto &x = a.commitments[i], &y = b.commitments[i]; CHECK(x.features == y.features, "commitments"); each(x.commitment.GetVec(), y.commitment.GetVec(), "commitments"); CHECK(x.proofOpt.has_value() == y.proofOpt.has_value(), "commitments"); if (x.proofOpt && y.proofOpt) CHECK(same(x.proofOpt->GetProofBytes(), y.proofOpt->GetProofBytes()), "commitments"); }
  if (a.proofOpt && b.proofOpt) { auto &x = *a.proofOpt, &y = *b.proofOpt; each(x.GetSenderAddress().vec(), y.GetSenderAddress().vec(), "payment-proof"); each(x.GetReceiverAddress().vec(), y.GetReceiverAddress().vec(), "payment-proof"); auto &p = x.GetReceiverSignature(), &q = y.GetReceiverSignature(); CHECK(p.has_value() == q.has_value(), "payment-proof"); if (p && q) each(p->bytes.GetData(), q->bytes.GetData(), "payment-proof"); }
}
static SlatePaymentProof pay() { auto p = SlatePaymentProof::Create(ed25519_public_key_t(big<32>("sender")), ed25519_public_key_t(big<32>("receiver"))); if (v_fork("signed")) p.AddSignature(ed25519_signature_t{ big<64>("rsig") }); return p; }
static Slate scalars(bool json) {
  uuids::uuid id; { std::array<unsigned char, 16> a; if (json) for (int i = 0; i < 16; i++) a[i] = (unsigned char)(i * 17 + 3); else verif_make_symbolic(a.data(), 16, "id"); id = uuids::uuid(a); } Slate s(id);
  s.stage = (ESlateStage)v_choose("stage", 0, 5); s.version = json ? 4 : v_u16("version"); s.blockVersion = json ? 5 : v_u16("blockVersion"); return s;
}
// every slate reads back from its binary form
static void binary(const Slate &s) { Serializer w; s.Serialize(w); ByteBuffer b(w.GetBytes()); bool ok = true; std::optional<Slate> r; try { r = Slate::Deserialize(b); } catch (...) { ok = false; } CHECK(ok, "a-written-slate-is-read"); if (!ok) return; CHECK(b.GetRemainingSize() == 0, "reads-all-it-wrote"); compare(s, *r); }
static void json(const Slate &s) { bool ok = true; std::optional<Slate> r; try { Json::Value j = s.ToJSON(); r = Slate::FromJSON(j); } catch (...) { ok = false; } CHECK(ok, "a-written-slate-is-read"); if (ok) compare(s, *r); }
static void fields(Slate &s, bool j) {
  s.ttl = num("ttl", j); s.amount = num("amount", j); s.numParticipants = (uint8_t)num("participants", j); s.fee = Fee(v_u8("shift") & 15, v_u64("fee") & 0xffffffffffull); if (j) s.fee = Fee(0, NUM[v_choose("fee", 0, 9)] & 0xffffffffffull); s.offset = BlindingFactor(big<32>("offset"));
  if (v_fork("locked")) { s.kernelFeatures = EKernelFeatures::HEIGHT_LOCKED; SlateFeatureArgs a; a.lockHeightOpt = num("lock", j); s.featureArgsOpt = a; }
}
static void parts(Slate &s, bool j) {
  uint64_t n = v_choose("sigs", 0, 2), m = v_choose("coms", 0, 2); for (uint64_t i = 0; i < n; i++) s.sigs.push_back(SlateSignature(PublicKey(big<33>("xs")), PublicKey(big<33>("nonce")), v_fork("complete") ? std::make_optional(csig()) : std::nullopt));
  for (uint64_t i = 0; i < m; i++) s.commitments.push_back(SlateCommitment{ (EOutputFeatures)(v_u8("features") & 1), Commitment(big<33>("com")), v_fork("output") ? std::make_optional(proof(j)) : std::nullopt }); if (v_fork("hasProof")) s.proofOpt = pay();
}
HARNESS(slateFields) { Slate s = scalars(false); fields(s, false); binary(s); REACH("read"); }
HARNESS(slateParts) { Slate s = scalars(false); parts(s, false); s.amount = v_u64("amount"); binary(s); REACH("read"); }
HARNESS(jsonFields) { Slate s = scalars(true); switch (v_choose("which", 0, 4)) { case 0: s.amount = num("amount", true); break; case 1: s.ttl = num("ttl", true); break; case 2: s.numParticipants = (uint8_t)num("participants", true); break; case 3: s.fee = Fee(0, NUM[v_choose("fee", 0, 9)] & 0xffffffffffull); break; default: s.kernelFeatures = EKernelFeatures::HEIGHT_LOCKED; SlateFeatureArgs a; a.lockHeightOpt = num("lock", true); s.featureArgsOpt = a; } s.offset = BlindingFactor(big<32>("offset")); json(s); REACH("read"); }
HARNESS(jsonParts) { Slate s = scalars(true); verif_assume(s.stage == ESlateStage::STANDARD_SENT); uint64_t k = v_choose("kind", 0, 2); if (k == 0) { s.sigs.push_back(SlateSignature(PublicKey(big<33>("xs")), PublicKey(big<33>("nonce")), v_fork("complete") ? std::make_optional(csig()) : std::nullopt)); } else if (k == 1) s.commitments.push_back(SlateCommitment{ (EOutputFeatures)(v_u8("features") & 1), Commitment(big<33>("com")), std::nullopt }); else s.proofOpt = pay(); json(s); REACH("read"); }
// what is accepted from arbitrary bytes is written and read back unchanged, and carries only features that exist; anything else is refused
HARNESS(bytes) {
  static const int ls[] = { 40, 55, 56, 57, 65, 75, 120 }; std::vector<uint8_t> in = v_bytes("b", ls[v_choose("len", 0, 6)]); ByteBuffer b(in); std::optional<Slate> r; bool known = true; verif_alloc_limit(1 << 20);
  try { r = Slate::Deserialize(b); } catch (const std::exception &) { known = true; } catch (...) { known = false; } CHECK(known, "refusals-are-exceptions"); if (!r) return;
  CHECK((unsigned)r->kernelFeatures <= 3, "only-known-kernel-features"); bool f = true; for (auto &c : r->commitments) f = f & ((unsigned)c.features <= 1); CHECK(f, "only-known-output-features"); binary(*r); REACH("accepted");
}
// equality sees every field
HARNESS(equal) { Slate a = scalars(false), b = a; uint64_t x = v_u64("x"), y = v_u64("y"); verif_assume(x != y); switch (v_choose("which", 0, 6)) { case 0: a.amount = x; b.amount = y; break; case 1: a.ttl = x; b.ttl = y; break; case 2: verif_assume((uint16_t)x != (uint16_t)y); a.version = (uint16_t)x; b.version = (uint16_t)y; break; case 3: verif_assume((uint16_t)x != (uint16_t)y); a.blockVersion = (uint16_t)x; b.blockVersion = (uint16_t)y; break; case 4: verif_assume((uint8_t)x != (uint8_t)y); a.numParticipants = (uint8_t)x; b.numParticipants = (uint8_t)y; break; case 5: a.kernelFeatures = b.kernelFeatures = EKernelFeatures::HEIGHT_LOCKED; { SlateFeatureArgs p, q; p.lockHeightOpt = x; q.lockHeightOpt = y; a.featureArgsOpt = p; b.featureArgsOpt = q; } break; default: a.stage = (ESlateStage)v_choose("other", 0, 5); verif_assume(a.stage != b.stage); } CHECK(!(a == b), "different-slates-are-different"); Slate c = a; CHECK(c == a, "a-slate-equals-itself"); REACH("compared"); }
// ---- records the wallet stores
static KeyChainPath path() { uint64_t n = v_choose("depth", 0, 3); static const uint32_t I[] = { 0, 7, 10, 2147483647u, 2147483648u, 4294967295u }; std::vector<uint32_t> v; for (uint64_t i = 0; i < n; i++) v.push_back(I[v_choose("index", 0, 5)]); return KeyChainPath(std::move(v)); }
static std::optional<uint64_t> opt64(const char *n) { if (!v_fork("has")) return std::nullopt; uint64_t v = v_u64(n); verif_assume(v != 0); return v; }
static OutputDataEntity output(bool deep) { static const EOutputStatus st[] = { EOutputStatus::SPENDABLE, EOutputStatus::NO_CONFIRMATIONS, EOutputStatus::SPENT, EOutputStatus::LOCKED, EOutputStatus::CANCELED }; std::vector<std::string> labels; if (deep && v_fork("label")) labels.push_back(std::string("rent")); KeyChainPath p = deep ? path() : KeyChainPath({ 3, 0, 7 });
  return OutputDataEntity(std::move(p), SecretKey(big<32>("blind")), TransactionOutput((EOutputFeatures)(v_u8("features") & 1), Commitment(big<33>("com")), RangeProof(v_bytes("proof", 3))), v_u64("amount"), st[v_choose("status", 0, 4)], opt64("mmr"), opt64("height"), v_fork("tx") ? std::make_optional(v_u32("txid")) : std::nullopt, labels); }
static bool same(const OutputDataEntity &a, const OutputDataEntity &b) { return a.GetKeyChainPath() == b.GetKeyChainPath() && a.GetLabels() == b.GetLabels() && a.GetMMRIndex() == b.GetMMRIndex() && a.GetBlockHeight() == b.GetBlockHeight() && a.GetWalletTxId() == b.GetWalletTxId() && (same(a.m_blindingFactor.GetVec(), b.m_blindingFactor.GetVec()) & same(a.GetCommitment().GetVec(), b.GetCommitment().GetVec()) & same(a.GetRangeProof().GetProofBytes(), b.GetRangeProof().GetProofBytes()) & (a.GetFeatures() == b.GetFeatures()) & (a.GetAmount() == b.GetAmount()) & (a.GetStatus() == b.GetStatus())); }
HARNESS(storedOutput) { OutputDataEntity o = output(true); Serializer w; o.Serialize(w); ByteBuffer b(w.GetBytes()); bool ok = true; std::optional<OutputDataEntity> r; try { r.emplace(OutputDataEntity::Deserialize(b)); } catch (...) { ok = false; } CHECK(ok, "a-stored-output-is-read"); if (!ok) return; CHECK(b.GetRemainingSize() == 0, "reads-all-it-wrote"); CHECK(same(o, *r), "a-stored-output-comes-back"); REACH("output"); }
HARNESS(storedContext) { std::vector<OutputDataEntity> in, out; if (v_fork("in")) in.push_back(output(false)); in.size() ? in[0].m_walletTxIdOpt = 5 : 0; if (v_fork("out")) { out.push_back(output(false)); out[0].m_walletTxIdOpt = 6; } SlateContextEntity c(SecretKey(big<32>("key")), SecretKey(big<32>("nonce")), in, out); Serializer w; c.Serialize(w); ByteBuffer b(w.GetBytes()); bool ok = true; std::optional<SlateContextEntity> r; try { r.emplace(SlateContextEntity::Deserialize(b)); } catch (...) { ok = false; } CHECK(ok, "a-stored-context-is-read"); if (!ok) return; CHECK(same(c.GetSecretKey().GetVec(), r->GetSecretKey().GetVec()) && same(c.GetSecretNonce().GetVec(), r->GetSecretNonce().GetVec()), "keys-come-back"); CHECK(sameAll(c.GetInputs(), r->GetInputs()) && sameAll(c.GetOutputs(), r->GetOutputs()), "coins-come-back"); REACH("context"); }
HARNESS(storedTx) {
  static const EWalletTxType ty[] = { EWalletTxType::COINBASE, EWalletTxType::SENT, EWalletTxType::RECEIVED, EWalletTxType::SENT_CANCELED, EWalletTxType::RECEIVED_CANCELED, EWalletTxType::SENDING_STARTED, EWalletTxType::RECEIVING_IN_PROGRESS, EWalletTxType::SENDING_FINALIZED }; static const int64_t ms[] = { 0, 1, 999, 1000, 1600000000123ll };
  std::array<unsigned char, 16> a; for (int i = 0; i < 16; i++) a[i] = (unsigned char)(i * 17 + 3); auto t0 = TimeUtil::ToTimePoint(ms[v_choose("created", 0, 4)]); std::optional<std::chrono::system_clock::time_point> t1; if (v_fork("confirmed")) t1 = TimeUtil::ToTimePoint(ms[v_choose("at", 1, 4)]);
  std::optional<Transaction> tx; if (v_fork("hasTx")) tx = Transaction(BlindingFactor(big<32>("offset")), TransactionBody({ TransactionInput(EOutputFeatures::DEFAULT, Commitment(big<33>("in"))) }, {}, { TransactionKernel(EKernelFeatures::DEFAULT_KERNEL, Fee(0, v_u64("kfee") & 0xffffffffffull), 0, Commitment(big<33>("excess")), Signature(big<64>("sig"))) }));
  WalletTx t(v_u32("id"), ty[v_choose("type", 0, 7)], v_fork("slate") ? std::make_optional(uuids::uuid(a)) : std::nullopt, v_fork("addr") ? std::make_optional(std::string("grin1abc")) : std::nullopt, v_fork("msg") ? std::make_optional(std::string("hi")) : std::nullopt, t0, t1, opt64("height"), v_u64("credited"), v_u64("debited"), v_fork("fee") ? std::make_optional(Fee(v_u8("shift") & 15, v_u64("fee") & 0xffffffffffull)) : std::nullopt, tx, v_fork("hasProof") ? std::make_optional(pay()) : std::nullopt);
  Serializer w; t.Serialize(w); ByteBuffer b(w.GetBytes()); bool ok = true; std::optional<WalletTx> r; try { r.emplace(WalletTx::Deserialize(b)); } catch (...) { ok = false; } CHECK(ok, "a-stored-transaction-is-read"); if (!ok) return; CHECK(b.GetRemainingSize() == 0, "reads-all-it-wrote");
  CHECK(t.GetId() == r->GetId() && t.GetType() == r->GetType() && t.GetSlateId() == r->GetSlateId() && t.GetAddress() == r->GetAddress() && t.GetSlateMessage() == r->GetSlateMessage(), "identity-comes-back"); CHECK(t.GetCreationTime() == r->GetCreationTime() && t.GetConfirmationTime() == r->GetConfirmationTime() && t.GetConfirmationHeight() == r->GetConfirmationHeight(), "times-come-back"); CHECK(t.GetAmountCredited() == r->GetAmountCredited() && t.GetAmountDebited() == r->GetAmountDebited() && t.GetFee() == r->GetFee(), "amounts-come-back"); CHECK(same(t.GetPaymentProof(), r->GetPaymentProof()), "payment-proof-comes-back");
  CHECK(t.GetTransaction().has_value() == r->GetTransaction().has_value(), "transaction-comes-back"); if (tx && r->GetTransaction()) { auto &k = r->GetTransaction()->GetKernels(); auto &i = r->GetTransaction()->GetInputs(); CHECK(k.size() == 1 && i.size() == 1 && same(k[0].GetExcessCommitment().GetVec(), tx->GetKernels()[0].GetExcessCommitment().GetVec()) && k[0].GetFee() == tx->GetKernels()[0].GetFee() && same(i[0].GetCommitment().GetVec(), tx->GetInputs()[0].GetCommitment().GetVec()) && r->GetTransaction()->GetOffset().GetBytes() == tx->GetOffset().GetBytes(), "transaction-comes-back"); } REACH("tx");
}
HARNESS(storedSmall) {
  UserMetadata m(v_u32("next"), v_u64("height"), v_u64("leaf")); Serializer w; m.Serialize(w); ByteBuffer b(w.GetBytes()); UserMetadata r = UserMetadata::Deserialize(b); CHECK(r.GetNextTxId() == m.GetNextTxId() && r.GetRefreshBlockHeight() == m.GetRefreshBlockHeight() && r.GetRestoreLeafIndex() == m.GetRestoreLeafIndex(), "metadata-comes-back");
  EncryptedSeed e(big<16>("iv"), big<8>("salt"), v_bytes("seed", 80), ScryptParameters(v_u32("N"), v_u32("r"), v_u32("p"))); Serializer w2; e.Serialize(w2); ByteBuffer b2(w2.GetBytes()); EncryptedSeed f = EncryptedSeed::Deserialize(b2); CHECK(same(e.GetIV().GetData(), f.GetIV().GetData()) && same(e.GetSalt().GetData(), f.GetSalt().GetData()) && same(e.GetEncryptedSeedBytes(), f.GetEncryptedSeedBytes()) && e.GetScryptParameters().N == f.GetScryptParameters().N && e.GetScryptParameters().r == f.GetScryptParameters().r && e.GetScryptParameters().p == f.GetScryptParameters().p, "the-seed-comes-back");
 REACH("small");
}
HARNESS(seedJson) {
  EncryptedSeed g(big<16>("iv"), big<8>("salt"), v_bytes("seed", 80), ScryptParameters(32768, 8, 1)); EncryptedSeed h = EncryptedSeed::FromJSON(g.ToJSON()); CHECK(same(g.GetIV().GetData(), h.GetIV().GetData()) && same(g.GetSalt().GetData(), h.GetSalt().GetData()) && same(g.GetEncryptedSeedBytes(), h.GetEncryptedSeedBytes()) && h.GetScryptParameters().N == 32768 && h.GetScryptParameters().r == 8 && h.GetScryptParameters().p == 1, "the-seed-comes-back"); REACH("seed");
}
HARNESS(paths) { KeyChainPath p = path(); bool ok = true; std::optional<KeyChainPath> r; try { r.emplace(KeyChainPath::FromString(p.Format())); } catch (...) { ok = false; } CHECK(ok && *r == p, "paths-come-back"); try { r.emplace(KeyChainPath::FromHex(p.ToHex())); } catch (...) { ok = false; } CHECK(ok && *r == p, "paths-come-back"); REACH("path"); }
