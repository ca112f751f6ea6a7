//@stubs env secp bigcmp
//@flags -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Validation/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{Crypto,AggSig,Bulletproofs,Pedersen,PublicKeys}.cpp src/Wallet/{Wallet,WalletImpl,WalletRefresher,OutputRestorer,CancelTx}.cpp src/Wallet/Keychain/{KeyChain,KeyGenerator}.cpp src/Wallet/Models/Slate/*.cpp deps/jsoncpp/jsoncpp.cpp
//@bounds histories of 6 steps (8 thorough) out of: send to another wallet or to oneself, receive, finalize, cancel any transaction, a block with any finalized transaction that the chain admits, the last such block undone, refresh; over two coins of one wallet
//@outside the SQLite wallet database, keys and commitments (concrete mixing function, ideal group), coins recovered from the chain (W04), immature coins (W01)
#include "wallet2.h"
extern bool ideal_concrete;
struct World {
  std::shared_ptr<Node> node = std::make_shared<Node>(); Party a, c; std::optional<Slate> offer, taken; std::vector<std::pair<uuids::uuid, Transaction>> ready; std::vector<std::vector<std::pair<Commitment, uint64_t>>> undo; std::vector<Transaction> mined; bool fresh = true; std::vector<Slate> sent; size_t active = 0;
  World() : a(1, node), c(2, node) {}
  bool onChain(const Commitment &x) const { for (auto &y : node->chain) if (y.first == x) return true; return false; }
  const OutputDataEntity *mine(const Commitment &x) const { return find(a.db->s, x); }
};
static bool live(const WalletTx &t) { return t.GetType() == EWalletTxType::SENDING_STARTED || t.GetType() == EWalletTxType::SENDING_FINALIZED || t.GetType() == EWalletTxType::RECEIVING_IN_PROGRESS; }
static bool spends(const WalletTx &t, const Commitment &c) { if (!t.GetTransaction()) return false; for (auto &i : t.GetTransaction()->GetInputs()) if (i.GetCommitment() == c) return true; return false; }
static bool isSend(const WalletTx &t) { auto y = t.GetType(); return y == EWalletTxType::SENDING_STARTED || y == EWalletTxType::SENDING_FINALIZED || y == EWalletTxType::SENT || y == EWalletTxType::SENT_CANCELED; }
static void holds(World &w) {
  auto &s = w.a.db->s; bool locked = true, twice = true, held = true; uint64_t spendable = 0, lock = 0, wait = 0;
  for (auto &o : s.outputs) {
    int n = 0; for (auto &t : s.txs) if (live(t) && isSend(t) && spends(t, o.GetCommitment())) n++;
    if (o.GetStatus() == EOutputStatus::LOCKED) { locked = locked && n >= 1; lock += o.GetAmount(); } if (o.GetStatus() == EOutputStatus::SPENDABLE) { held = held && (n == 0 || !w.fresh || w.undo.size() < w.mined.size()); spendable += o.GetAmount(); } if (o.GetStatus() == EOutputStatus::NO_CONFIRMATIONS) wait += o.GetAmount(); twice = twice && (n <= 1 || w.undo.size() < w.mined.size());
  }
  CHECK(locked, "locked-only-by-a-pending-send"); CHECK(twice, "no-coin-pays-twice"); CHECK(held, "coins-of-pending-sends-are-held"); bool waits = true; for (auto &o : s.outputs) if (o.GetStatus() == EOutputStatus::NO_CONFIRMATIONS) { bool f = false; for (auto &t : s.txs) f = f || (o.GetWalletTxId() == std::make_optional(t.GetId()) && live(t)); waits = waits && f; } CHECK(waits, "awaited-only-while-pending");
  auto bal = w.a.wallet->GetBalance(); CHECK(bal.GetTotal() == spendable + wait && bal.GetLocked() == lock && bal.GetSpendable() == spendable && bal.GetUnconfirmed() == wait && bal.GetImmature() == 0, "balance-adds-up");
}
static void step(World &w) {
  State before = w.a.db->s; auto &s = w.a.db->s;
  switch (v_choose("step", 0, 6)) {
  case 0: { std::optional<Slate> x; uint8_t change = (uint8_t)v_choose("change", 0, 1); done([&] { x = SendSlateBuilder(w.node).BuildSendSlate(w.a.impl, w.a.seed, 1000, 500000, change, false, std::nullopt, SelectionStrategyDTO(ESelectionStrategy::FEWEST_INPUTS, {}), 4, {}); }); if (x) { w.sent.push_back(*x); REACH("sent"); } w.fresh = true; break; }
  case 1: { auto r = receive(w.a, *w.offer); bool again = false; for (auto &t : before.txs) again = again || (t.GetSlateId() == std::make_optional(w.offer->slateId) && t.GetType() != EWalletTxType::RECEIVED_CANCELED); CHECK(r.has_value() == !again, "received-once"); if (r) w.taken = r; verif_assume(r.has_value()); break; }
  case 2: { // finalize: own sends against a reply of the other wallet, or the offer taken by the other wallet
    verif_assume(!w.sent.empty() || w.taken); if (w.taken && v_fork("theirs")) { auto f = finalize(w.c, *w.taken); verif_assume(f.has_value()); w.ready.push_back({ w.offer->slateId, f->second }); break; }
    verif_assume(!w.sent.empty()); size_t i = v_choose("which", 0, w.sent.size() - 1); auto r = receive(w.c, w.sent[i]); verif_assume(r.has_value()); bool pending = false; for (auto &t : before.txs) pending = pending || (t.GetSlateId() == std::make_optional(w.sent[i].slateId) && t.GetType() == EWalletTxType::SENDING_STARTED); auto f = finalize(w.a, *r); CHECK(f.has_value() == pending, "finalized-iff-pending"); verif_assume(f.has_value()); w.ready.push_back({ w.sent[i].slateId, f->second }); REACH("finalized"); break; }
  case 3: { verif_assume(!before.txs.empty()); size_t i = v_choose("which", 0, before.txs.size() - 1); auto &t = before.txs[i]; bool pending = live(t), confirmed = false; for (auto &o : before.outputs) if (o.GetWalletTxId() == std::make_optional(t.GetId()) && (o.GetStatus() == EOutputStatus::SPENDABLE || o.GetStatus() == EOutputStatus::LOCKED)) confirmed = true;
    bool ok = done([&] { w.a.wallet->CancelTx(t.GetId()); }); CHECK(ok == (pending && !confirmed), "cancelled-iff-pending-and-unconfirmed"); if (!ok) { CHECK(unchanged(before, s), "a-refused-cancel-changes-nothing"); break; } auto now = s.txs[i].GetType(); CHECK(now == (t.GetType() == EWalletTxType::RECEIVING_IN_PROGRESS ? EWalletTxType::RECEIVED_CANCELED : EWalletTxType::SENT_CANCELED), "marked-as-cancelled");
    bool freed = true, dropped = true, kept = true; for (size_t k = 0; k < before.outputs.size(); k++) { auto &o = before.outputs[k], &n = s.outputs[k]; if (isSend(t) && spends(t, o.GetCommitment())) { if (o.GetStatus() == EOutputStatus::LOCKED) freed = freed && n.GetStatus() == EOutputStatus::SPENDABLE; } else if (o.GetWalletTxId() == std::make_optional(t.GetId())) dropped = dropped && n.GetStatus() == EOutputStatus::CANCELED; else kept = kept && same(o, n); }
    CHECK(freed, "inputs-are-free-again"); CHECK(dropped, "outputs-are-dropped"); CHECK(kept, "nothing-else-changes"); REACH("cancelled"); break; }
  case 4: { verif_assume(!w.ready.empty()); size_t i = v_choose("which", 0, w.ready.size() - 1); auto &t = w.ready[i].second; for (auto &x : t.GetInputs()) verif_assume(w.onChain(x.GetCommitment())); w.undo.push_back(w.node->chain); w.mined.push_back(t); w.node->height++; auto ch = w.node->chain; w.node->chain.clear(); for (auto &y : ch) { bool gone = false; for (auto &x : t.GetInputs()) gone = gone || x.GetCommitment() == y.first; if (!gone) w.node->chain.push_back(y); } for (auto &o : t.GetOutputs()) w.node->chain.push_back({ o.GetCommitment(), w.node->height }); w.node->height += 20; w.fresh = false; REACH("mined"); break; }
  case 5: { verif_assume(!w.undo.empty()); w.node->chain = w.undo.back(); w.undo.pop_back(); w.node->height += 2; w.fresh = false; REACH("undone"); break; }
  case 6: { verif_assume(!w.fresh); bool ok = done([&] { w.a.impl.Write()->RefreshOutputs(w.a.seed, false); }); CHECK(ok, "refreshed"); w.fresh = true; bool follows = true, types = true; for (auto &o : s.outputs) { bool on = w.onChain(o.GetCommitment()), good = o.GetStatus() == EOutputStatus::SPENDABLE || o.GetStatus() == EOutputStatus::LOCKED; follows = follows && on == good; } CHECK(follows, "coins-follow-the-chain");
    for (size_t i = 0; i < before.txs.size(); i++) { auto &t = before.txs[i], &n = s.txs[i]; bool seen = false; for (auto &o : s.outputs) if (o.GetWalletTxId() == std::make_optional(t.GetId())) seen = seen || w.onChain(o.GetCommitment()); bool ever = seen; for (auto &m : w.mined) for (auto &x : m.GetOutputs()) for (auto &o : s.outputs) if (o.GetWalletTxId() == std::make_optional(t.GetId()) && o.GetCommitment() == x.GetCommitment()) ever = true;
      if (t.GetType() == EWalletTxType::RECEIVING_IN_PROGRESS) types = types && (seen ? n.GetType() == EWalletTxType::RECEIVED : ever ? true : n.GetType() == t.GetType()); else if (t.GetType() == EWalletTxType::SENDING_FINALIZED) types = types && (seen ? n.GetType() == EWalletTxType::SENT : ever ? true : n.GetType() == t.GetType()); else types = types && n.GetType() == t.GetType(); } CHECK(types, "payments-follow-the-chain"); REACH("refreshed"); break; }
  }
  holds(w);
}
static void history(int n) {
  ideal_concrete = true; minConfs = 10; World w; fund(w.a, 1000000000, 100); fund(w.a, 2000000000, 200); fund(w.c, 3000000000, 300); w.offer = send(w.c, 777); verif_assume(w.offer.has_value()); w.a.impl.Write()->RefreshOutputs(w.a.seed, false); for (int i = 0; i < n; i++) step(w);
}
HARNESS(history) { history(verif_tier() ? 8 : 6); REACH("sent"); REACH("cancelled"); REACH("mined"); REACH("undone"); REACH("refreshed"); REACH("finalized"); }
