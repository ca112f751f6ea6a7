//@stubs env secp bigcmp
//@flags -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Validation/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{Crypto,AggSig,Bulletproofs,Pedersen,PublicKeys}.cpp src/Wallet/{Wallet,WalletImpl,WalletRefresher,OutputRestorer,CancelTx}.cpp src/Wallet/Keychain/{KeyChain,KeyGenerator}.cpp src/Wallet/Models/Slate/*.cpp deps/jsoncpp/jsoncpp.cpp
//@bounds one payment of any amount from one coin of any value below 2^45 with one change output; replies changed in one of 19 ways, each with any value; histories of up to four steps (receive, receive again, cancel, finalize, finalize again); payment proofs with up to three addresses of the receiver and any 32 byte address
//@outside the SQLite wallet database, the discrete logarithm (ideal group; partial signatures and ed25519 signatures are ideal), keys and nonces that collide, slatepack armor and transport, concurrent finalization, time to live
#include "wallet2.h"
static uint64_t val(const Commitment &c) { return num(c.data() + 1); } static uint64_t bli(const Commitment &c) { return num(c.data() + 9); }
// the transaction pays: outputs + fee - inputs are nothing but the excess and the offset, the kernel is signed (the proofs are left to the validator of C01 and B01)
static bool balanced(const Transaction &t, uint64_t fee) {
  auto &b = t.GetBody(); if (b.GetKernels().size() != 1) return false; auto &k = b.GetKernels()[0]; unsigned __int128 in = 0, out = fee; uint64_t bi = 0, bo = 0; bool ok = true;
  for (auto &x : b.GetInputs()) { in += val(x.GetCommitment()); bi += bli(x.GetCommitment()); } for (auto &x : b.GetOutputs()) { out += val(x.GetCommitment()); bo += bli(x.GetCommitment()); }
  for (size_t i = 0; i < b.GetInputs().size(); i++) for (size_t j = 0; j < i; j++) ok = ok & (b.GetInputs()[i].GetCommitment() != b.GetInputs()[j].GetCommitment()); for (size_t i = 0; i < b.GetOutputs().size(); i++) for (size_t j = 0; j < i; j++) ok = ok & (b.GetOutputs()[i].GetCommitment() != b.GetOutputs()[j].GetCommitment());
  for (auto &x : b.GetInputs()) for (auto &y : b.GetOutputs()) ok = ok & (x.GetCommitment() != y.GetCommitment());
  uint64_t e = bli(k.GetExcessCommitment()); return ok & (in == out) & (val(k.GetExcessCommitment()) == 0) & (e == bo - bi - num(t.GetOffset().data() + 24));
}
static bool has(const Transaction &t, const OutputDataEntity &o, bool spent) { bool f = false; if (spent) { for (auto &x : t.GetBody().GetInputs()) f = f | (x.GetCommitment() == o.GetCommitment()); } else for (auto &x : t.GetBody().GetOutputs()) f = f | (x.GetCommitment() == o.GetCommitment()); return f; }
static void received(Party &p, const State &before, const Slate &s, const Slate &r) {
  const State &after = p.db->s; CHECK(after.outputs.size() == before.outputs.size() + 1 && after.txs.size() == before.txs.size() + 1, "one-output-and-one-transaction"); if (after.outputs.size() != before.outputs.size() + 1 || after.txs.size() != before.txs.size() + 1) return;
  auto &o = after.outputs.back(); auto &t = after.txs.back(); uint64_t b = num(o.GetBlindingFactor().data() + 24); CHECK(o.GetAmount() == s.amount && o.GetCommitment() == ideal::commit(s.amount, b) && o.GetStatus() == EOutputStatus::NO_CONFIRMATIONS && o.GetWalletTxId() == std::make_optional(t.GetId()), "the-output-is-worth-the-amount-and-owned"); bool kept = true; for (size_t i = 0; i < before.outputs.size(); i++) kept = kept & same(before.outputs[i], after.outputs[i]); CHECK(kept, "nothing-else-changes");
  CHECK(t.GetType() == EWalletTxType::RECEIVING_IN_PROGRESS && t.GetAmountCredited() == s.amount && t.GetAmountDebited() == 0 && t.GetSlateId() == std::make_optional(s.slateId), "transaction-recorded"); bool in = false; for (auto &x : r.GetOutputs()) in = in | ((x.GetCommitment() == o.GetCommitment()) & (x.GetRangeProof() == o.GetRangeProof())); CHECK(in, "the-output-is-in-the-reply"); CHECK(r.amount == s.amount && r.fee == s.fee && r.slateId == s.slateId && r.kernelFeatures == s.kernelFeatures, "the-terms-stay");
  CHECK(r.sigs.size() == 1 && r.sigs[0].partialOpt.has_value() && bli(Crypto::ToCommitment(r.sigs[0].excess)) + num(r.offset.data() + 24) - num(s.offset.data() + 24) == b, "the-reply-accounts-for-the-output"); CHECK(p.db->saved.txs.size() == after.txs.size(), "committed");
}
static void paid(Party &a, const State &before, const Slate &sent, const Transaction &t, const std::pair<Slate, Transaction> &) {
  auto &ctx = before.contexts.back().second; uint64_t fee = sent.fee.GetFee(); CHECK(balanced(t, fee), "the-transaction-is-valid"); auto &k = t.GetBody().GetKernels()[0]; CHECK(k.GetFee() == fee && k.GetFeatures() == EKernelFeatures::DEFAULT_KERNEL && k.GetLockHeight() == 0, "the-fee-is-the-agreed-one");
  bool all = true; for (auto &o : ctx.GetInputs()) all = all & has(t, o, true); for (auto &o : ctx.GetOutputs()) all = all & has(t, o, false); CHECK(all, "own-coins-and-change-are-in"); bool valid = true; try { TransactionValidator().Validate(t, 5001); } catch (std::exception &) { valid = false; } CHECK(valid, "the-transaction-is-valid");
  const State &after = a.db->s; bool rec = after.txs.size() == before.txs.size() && after.txs[0].GetType() == EWalletTxType::SENDING_FINALIZED && after.txs[0].GetTransaction().has_value() && after.txs[0].GetTransaction()->GetKernels()[0].GetExcessCommitment() == k.GetExcessCommitment() && after.txs[0].GetTransaction()->GetInputs().size() == t.GetInputs().size(); CHECK(rec, "transaction-recorded"); bool kept = after.outputs.size() == before.outputs.size(); for (size_t i = 0; kept && i < before.outputs.size(); i++) kept = same(before.outputs[i], after.outputs[i]); CHECK(kept, "nothing-else-changes"); CHECK(a.db->saved.txs[0].GetType() == EWalletTxType::SENDING_FINALIZED, "committed");
}
static void apart(Party &a, Party &b, const Slate &s, const Slate &r) { for (auto &o : b.db->s.outputs) for (auto &q : a.db->s.outputs) verif_assume(num(o.GetBlindingFactor().data() + 24) != num(q.GetBlindingFactor().data() + 24)); if (!r.sigs.empty() && !s.sigs.empty()) verif_assume(!(r.sigs[0].excess == s.sigs[0].excess)); } // keys do not collide
HARNESS(exchange) {
  auto node = std::make_shared<Node>(); Party a(1, node), b(2, node); uint64_t v = v_u64("value"); verif_assume(v < (1ull << 45)); fund(a, v, 100); uint64_t amount = v_u64("amount"); auto s = send(a, amount); verif_assume(s.has_value());
  State b0 = b.db->s, a0 = a.db->s; auto r = receive(b, *s); CHECK(r.has_value(), "received"); if (!r) return; received(b, b0, *s, *r);  apart(a, b, *s, *r);
 
  State b1 = b.db->s; auto r2 = receive(b, *s); CHECK(!r2 && unchanged(b1, b.db->s), "received-once"); auto f = finalize(a, *r); CHECK(f.has_value(), "finalized"); if (!f) return; paid(a, a0, *s, f->second, *f); CHECK(has(f->second, b.db->s.outputs[0], false), "the-receiver-is-paid"); REACH("paid");
}

// the reply comes back changed: the sender signs nothing but the agreed payment
static CompactSignature partial(uint64_t key, uint64_t nonce, const Slate &s, const Hash &m) { return Crypto::CalculatePartialSignature(ideal::key(key), ideal::key(nonce), s.CalculateTotalExcess(), s.CalculateTotalNonce(), m); }
HARNESS(tampered) {
  auto node = std::make_shared<Node>(); Party a(1, node), b(2, node); fund(a, 1000000000, 100); auto s = send(a, 400000000); verif_assume(s.has_value()); auto r = receive(b, *s); verif_assume(r.has_value()); apart(a, b, *s, *r);
  Slate t = *r; auto own = b.db->s.outputs[0]; uint64_t k = v_choose("change", 0, 18); switch (k) {
  case 0: t.amount = v_u64("amount"); break; case 1: t.fee = Fee::From(v_u64("fee")); break; case 2: t.offset = ideal::blind(v_u64("offset")); break; case 3: t.kernelFeatures = (EKernelFeatures)v_choose("features", 1, 3); { SlateFeatureArgs g; g.lockHeightOpt = v_u64("lock"); t.featureArgsOpt = g; } break;
  case 4: t.sigs.clear(); break; case 5: t.sigs.push_back(t.sigs[0]); break; case 6: t.sigs[0].partialOpt.reset(); break; case 7: { auto v = t.sigs[0].partialOpt->GetSignatureBytes(); std::vector<uint8_t> d(v.data(), v.data() + 64); d[v_choose("byte", 0, 23)] ^= v_u8("flip"); t.sigs[0].partialOpt = CompactSignature(CBigInteger<64>(std::move(d))); } break;
  case 8: { SlateSignature x = s->sigs[0]; t.sigs.push_back(x); } break; // the sender's own entry
  case 9: { SlateSignature x(s->sigs[0].excess, t.sigs[0].nonce, std::nullopt); t.sigs.push_back(x); } break; // the sender's excess with a nonce of the receiver
  case 10: t.commitments.clear(); break; // all is left out
  case 11: { auto c = t.commitments; t.commitments.clear(); size_t d = v_choose("dropped", 0, c.size() - 1); for (size_t i = 0; i < c.size(); i++) if (i != d) t.commitments.push_back(c[i]); } break;
  case 12: t.AddOutput(EOutputFeatures::DEFAULT, ideal::commit(v_u64("extra value"), v_u64("extra key")), ideal::proof(1, 1, (uint8_t)v_fork("proof"))); break;
  case 13: t.AddInput(EOutputFeatures::DEFAULT, ideal::commit(v_u64("extra value"), v_u64("extra key"))); break;
  case 14: { size_t i = v_choose("which", 0, t.commitments.size() - 1); if (t.commitments[i].proofOpt) { if (v_fork("no proof")) t.commitments[i].proofOpt.reset(); else t.commitments[i].proofOpt = ideal::proof(7, 7, 1); } else t.commitments[i].proofOpt = ideal::proof(7, 7, 1); } break;
  case 15: { size_t i = v_choose("which", 0, t.commitments.size() - 1); t.commitments[i].features = EOutputFeatures::COINBASE_OUTPUT; } break; case 16: t.slateId = idOf(9); break; case 17: t.offset = BlindingFactor(); break;
  case 18: { // the receiver pays himself more: another output value, signed afresh
    uint64_t v = v_u64("own value"), blind = num(own.GetBlindingFactor().data() + 24), off = num(t.offset.data() + 24) - num(s->offset.data() + 24); for (size_t i = 0; i < t.commitments.size(); i++) if (t.commitments[i].commitment == own.GetCommitment()) { t.commitments[i].commitment = ideal::commit(v, blind); t.commitments[i].proofOpt = ideal::proof(v, blind, 1); } (void)off; } break;
  }
  State a0 = a.db->s; auto f = finalize(a, t); if (f) { paid(a, a0, *s, f->second, *f); REACH("finalized"); } else { CHECK(unchanged(a0, a.db->s), "a-refused-reply-changes-nothing"); REACH("refused"); }
}
// one nonce signs once, and a cancelled payment is not signed at all
HARNESS(again) {
  auto node = std::make_shared<Node>(); Party a(1, node), b(2, node); fund(a, 1000000000, 100); auto s = send(a, 400000000); verif_assume(s.has_value()); auto r = receive(b, *s); verif_assume(r.has_value()); apart(a, b, *s, *r); uint64_t k = v_choose("history", 0, 4);
  if (k == 0) { auto f = finalize(a, *r); verif_assume(f.has_value()); State a1 = a.db->s; Party c(3, node); auto r2 = receive(c, *s); verif_assume(r2.has_value()); apart(a, c, *s, *r2); auto f2 = finalize(a, v_fork("same reply") ? *r : *r2); CHECK(!f2 && unchanged(a1, a.db->s), "a-nonce-signs-once"); }
  if (k == 1) { auto t = a.db->s.txs[0]; bool ok = done([&] { CancelTx::CancelWalletTx(a.seed, a.db, t); }); CHECK(ok, "cancelled"); State a1 = a.db->s; auto f = finalize(a, *r); CHECK(!f && unchanged(a1, a.db->s), "a-cancelled-payment-is-not-signed"); }
  if (k >= 2) { // cancelled and received again, once
    auto t = b.db->s.txs[0]; bool ok = done([&] { CancelTx::CancelWalletTx(b.seed, b.db, t); }); CHECK(ok, "cancelled"); CHECK(b.db->s.outputs[0].GetStatus() == EOutputStatus::CANCELED && b.db->s.txs[0].GetType() == EWalletTxType::RECEIVED_CANCELED, "cancelled"); auto r2 = receive(b, *s); CHECK(r2.has_value(), "received-again"); if (!r2) return; State b1 = b.db->s; auto r3 = receive(b, *s); CHECK(!r3 && unchanged(b1, b.db->s), "received-once");
    verif_assume(!(r2->sigs[0].excess == s->sigs[0].excess)); if (k == 3) { State a0 = a.db->s; auto f = finalize(a, *r2); CHECK(f.has_value(), "finalized"); if (f) paid(a, a0, *s, f->second, *f); } }
  REACH("done");
}
// a payment to oneself
HARNESS(oneself) {
  auto node = std::make_shared<Node>(); Party a(1, node); fund(a, 1000000000, 100); uint64_t amount = v_u64("amount"); auto s = send(a, amount); verif_assume(s.has_value()); auto r = receive(a, *s); CHECK(r.has_value(), "received"); if (!r) return; verif_assume(!(r->sigs[0].excess == s->sigs[0].excess)); State a1 = a.db->s; auto r2 = receive(a, *s); CHECK(!r2 && unchanged(a1, a.db->s), "received-once");
  auto f = finalize(a, *r); CHECK(f.has_value(), "finalized"); if (f) { CHECK(balanced(f->second, s->fee.GetFee()), "the-transaction-is-valid"); CHECK(has(f->second, a.db->s.outputs.back(), false), "the-receiver-is-paid"); CHECK(a.db->s.txs.size() == 2 && a.db->s.txs[0].GetType() == EWalletTxType::SENDING_FINALIZED && a.db->s.txs[1].GetType() == EWalletTxType::RECEIVING_IN_PROGRESS, "transaction-recorded"); REACH("paid"); }
}

// a payment that asks for a proof is only signed against the receipt of that receiver for that amount, kernel and sender
HARNESS(proof) {
  auto node = std::make_shared<Node>(); Party a(1, node), b(2, node); fund(a, 1000000000, 100); b.db->address = (int)v_choose("addresses", 0, 2); b.impl.Write()->SetTorAddress(TorAddress("onion", b.address, 3)); auto addr = [](Party &p, uint32_t i) { return KeyChain::FromSeed(p.seed).DeriveED25519Key(KeyChainPath(std::vector<uint32_t>{ 0, 1, i })).public_key; };
  ed25519_public_key_t from = addr(a, 0), to = addr(b, (uint32_t)v_choose("to", 0, 2)); bool foreign = v_fork("to a stranger"); if (foreign) { to.bytes.data()[31] ^= 0x55; }
  bool mine = false; for (int i = 0; i <= b.db->address; i++) mine = mine || (!foreign && to.bytes == addr(b, i).bytes); auto s = send(a, 400000000); verif_assume(s.has_value()); auto asked = SlatePaymentProof::Create(from, to);
  bool wanted = v_fork("proof wanted"); s->proofOpt = asked; if (wanted) a.db->s.txs[0].m_paymentProofOpt = asked; a.db->s.slates[0].proofOpt = asked; a.db->saved = a.db->s; State b0 = b.db->s; auto r = receive(b, *s);
  CHECK(r.has_value() == mine, "receipts-only-for-own-addresses"); if (!r) { CHECK(unchanged(b0, b.db->s), "nothing-else-changes"); REACH("not mine"); return; } apart(a, b, *s, *r);
  std::vector<uint8_t> m; ideal::be(m, s->amount, 8); auto pub = Crypto::ToCommitment(Crypto::AddPublicKeys({ s->sigs[0].excess, r->sigs[0].excess })); m.insert(m.end(), pub.data(), pub.data() + 33); m.insert(m.end(), from.vec().begin(), from.vec().end()); auto good = edSign(to.vec(), m);
  CHECK(r->proofOpt && r->proofOpt->GetReceiverSignature() && r->proofOpt->GetReceiverSignature()->vec() == good && r->proofOpt->GetSenderAddress() == from && r->proofOpt->GetReceiverAddress() == to, "the-receipt-is-right");
  Slate t = *r; uint64_t k = v_choose("change", 0, 5); ed25519_public_key_t other; { std::vector<uint8_t> d(32); for (auto &x : d) x = v_u8("address"); other = ed25519_public_key_t(CBigInteger<32>(std::move(d))); } std::vector<uint8_t> sig = good;
  if (k == 0) t.proofOpt.reset(); else if (k == 1) t.proofOpt = asked; else if (k == 2) { t.proofOpt = SlatePaymentProof::Create(other, to); t.proofOpt->AddSignature(CBigInteger<64>(good)); } else if (k == 3) { t.proofOpt = SlatePaymentProof::Create(from, other); auto forged = edSign(other.vec(), m); t.proofOpt->AddSignature(CBigInteger<64>(forged)); } else if (k == 4) { std::vector<uint8_t> m2 = m; m2[v_choose("message byte", 0, 72)] ^= v_u8("flip"); sig = edSign(to.vec(), m2); t.proofOpt->AddSignature(CBigInteger<64>(sig)); }
  State a0 = a.db->s; auto f = finalize(a, t); bool right = t.proofOpt && t.proofOpt->GetReceiverSignature() && t.proofOpt->GetReceiverSignature()->vec() == good && t.proofOpt->GetSenderAddress() == from && t.proofOpt->GetReceiverAddress() == to;
  CHECK(f.has_value() == (!wanted || right), "signed-iff-the-receipt-is-right"); if (f) paid(a, a0, *s, f->second, *f); else CHECK(unchanged(a0, a.db->s), "a-refused-reply-changes-nothing"); REACH("mine");
}
