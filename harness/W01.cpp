//@stubs env secp bigcmp
//@flags -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Validation/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{Crypto,AggSig,Bulletproofs,Pedersen,PublicKeys}.cpp src/Wallet/{Wallet,WalletImpl,WalletRefresher,OutputRestorer,CancelTx}.cpp src/Wallet/Keychain/{KeyChain,KeyGenerator}.cpp src/Wallet/Models/Slate/*.cpp deps/jsoncpp/jsoncpp.cpp
//@bounds up to 2 coins (3 thorough) of any value below 2^61, any requested amount, every selection strategy and choice of coins, sending everything, 0 to 3 change outputs; one coin (two thorough) in any recorded state, coinbase or plain, at any height below 2^32, on the chain or not, and any minimum of confirmations below 100
//@outside the SQLite wallet database (an in-memory one with the same batches), keys and blinding factors (a mixing function, the ideal group), slatepack armor, sends with a payment proof address, fee bases other than 500000
#include "wallet.h"
#include <Wallet/WalletUtil.h>
#include <API/Wallet/Owner/Models/EstimateFeeCriteria.h>
using namespace ww;
static uint64_t feeOf(uint64_t base, uint64_t in, uint64_t out) { return base * (in * 1 + out * 21 + 3); }
struct Request { uint64_t amount = 0, base = 500000; bool all = false; uint8_t change = 1; ESelectionStrategy strategy = ESelectionStrategy::SMALLEST; std::set<Commitment> chosen; };
static std::optional<Slate> send(Party &p, const Request &r) {
  std::optional<Slate> slate; std::set<Commitment> c = r.chosen;
  try { slate = SendSlateBuilder(p.node).BuildSendSlate(p.impl, p.seed, r.amount, r.base, r.change, r.all, std::nullopt, SelectionStrategyDTO(r.strategy, std::move(c)), 4, {}); } catch (CryptoException &) { verif_assume(false); } catch (std::exception &) {}
  return slate;
}
// usable[i]: coin i may be spent
static void judge(Party &p, const Request &r, const State &before, const std::vector<bool> &usable, const std::optional<Slate> &slate) {
  const State &after = p.db->s; CHECK(!p.db->wrongSeed, "own-seed"); size_t n = before.outputs.size();
  unsigned __int128 have = 0; uint64_t count = 0; std::vector<uint64_t> desc; for (size_t i = 0; i < n; i++) if (usable[i] && (r.strategy != ESelectionStrategy::CUSTOM || r.all || r.chosen.count(before.outputs[i].GetCommitment()))) { have += before.outputs[i].GetAmount(); count++; desc.push_back(before.outputs[i].GetAmount()); }
  if (!slate) {
    CHECK(unchanged(before, after), "a-refused-send-changes-nothing"); bool can = false;
    if (r.all) can = count > 0 && (have > feeOf(r.base, count, 1)); else if (r.strategy == ESelectionStrategy::CUSTOM || r.strategy == ESelectionStrategy::ALL) can = count > 0 && have >= (unsigned __int128)r.amount + feeOf(r.base, count, 1 + r.change);
    else { std::sort(desc.rbegin(), desc.rend()); unsigned __int128 got = 0; if (r.strategy == ESelectionStrategy::FEWEST_INPUTS) for (size_t k = 0; k < desc.size(); k++) { got += desc[k]; can = can | (got >= (unsigned __int128)r.amount + feeOf(r.base, k + 1, 1 + r.change)); } else can = count > 0 && have >= (unsigned __int128)r.amount + feeOf(r.base, count, 1 + r.change); }
    if (r.change == 0 && !r.all) can = can & (have < ((unsigned __int128)1 << 40)); // a larger surplus does not fit a fee
    if (r.all) can = can & (have < ((unsigned __int128)1 << 63)); CHECK(!can, "refused-only-without-funds"); REACH("refused"); return;
  }
  // what is spent
  auto in = slate->GetInputs(); auto out = slate->GetOutputs(); unsigned __int128 spent = 0, kept = 0; uint64_t blindIn = 0, blindOut = 0; bool mine = true, once = true; std::vector<bool> used(n, false);
  for (auto &x : in) { bool f = false; for (size_t i = 0; i < n; i++) if (before.outputs[i].GetCommitment() == x.GetCommitment()) { f = usable[i] && before.outputs[i].GetFeatures() == x.GetFeatures(); once = once && !used[i]; used[i] = true; spent += before.outputs[i].GetAmount(); blindIn += num(before.outputs[i].GetBlindingFactor().data() + 24); } mine = mine && f; }
  CHECK(mine, "only-spendable-coins"); CHECK(once, "no-coin-twice");
  if (r.strategy == ESelectionStrategy::ALL || r.all) { bool every = true; for (size_t i = 0; i < n; i++) every = every && used[i] == usable[i]; CHECK(every, "all-means-all"); }
  if (r.strategy == ESelectionStrategy::CUSTOM && !r.all) { bool only = true; for (size_t i = 0; i < n; i++) only = only && (!used[i] || r.chosen.count(before.outputs[i].GetCommitment())); CHECK(only, "only-the-chosen-coins"); }
  // what comes back
  size_t added = after.outputs.size() - n; CHECK(added == (r.all ? 0 : r.change), "number-of-change-outputs"); CHECK(out.size() == added, "change-is-in-the-slate"); bool sound = true, listed = true, state = true;
  for (size_t i = n; i < after.outputs.size(); i++) { auto &o = after.outputs[i]; uint64_t b = num(o.GetBlindingFactor().data() + 24); kept += o.GetAmount(); blindOut += b; sound = sound & (o.GetCommitment() == ideal::commit(o.GetAmount(), b)) & (o.GetStatus() == EOutputStatus::NO_CONFIRMATIONS) & (o.GetWalletTxId() == std::optional<uint32_t>(before.nextTx)); bool f = false; for (auto &x : out) f = f | ((x.GetCommitment() == o.GetCommitment()) & (x.GetRangeProof() == o.GetRangeProof())); listed = listed & f; }
  CHECK(sound, "change-is-recorded"); CHECK(listed, "change-is-in-the-slate");
  for (size_t i = 0; i < n; i++) { auto want = before.outputs[i]; if (used[i]) want.SetStatus(EOutputStatus::LOCKED); state = state & same(want, after.outputs[i]); } CHECK(state, "exactly-the-inputs-are-locked");
  uint64_t fee = slate->fee.GetFee(), least = feeOf(r.base, in.size(), 1 + (r.all ? 0 : r.change)); CHECK(spent == (unsigned __int128)slate->amount + fee + kept, "inputs-equal-amount-fee-and-change"); CHECK(slate->fee.GetShift() == 0, "fee-fits"); CHECK(r.all || slate->amount == r.amount, "amount"); CHECK(r.change && !r.all ? fee == least : fee >= least, "fee-covers-the-weight");
  // keys: change - inputs - offset
  uint64_t offset = num(slate->offset.data() + 24), key = blindOut - blindIn - offset; bool ctx = after.contexts.size() == 1 && after.contexts[0].first == slate->slateId; CHECK(ctx, "context-kept"); if (ctx) { auto &c = after.contexts[0].second; bool ok = num(c.GetSecretKey().data() + 24) == key; auto pub = [](uint64_t k) { std::vector<uint8_t> d; d.push_back(2); ideal::be(d, 0, 8); ideal::be(d, k, 8); d.resize(33, 0); return PublicKey(CBigInteger<33>(std::move(d))); };
    CHECK(ok, "signing-key"); CHECK(slate->sigs.size() == 1 && slate->sigs[0].excess == pub(key) && slate->sigs[0].nonce == pub(num(c.GetSecretNonce().data() + 24)) && !slate->sigs[0].partialOpt, "public-key-and-nonce"); CHECK(c.GetInputs().size() == in.size() && c.GetOutputs().size() == out.size(), "context-kept"); }
  bool rec = after.txs.size() == before.txs.size() + 1 && after.slates.size() == 1 && after.slates[0] == *slate; CHECK(rec, "transaction-recorded"); if (rec) { auto &t = after.txs.back(); CHECK(t.GetId() == before.nextTx && t.GetType() == EWalletTxType::SENDING_STARTED && t.GetSlateId() == std::make_optional(slate->slateId) && t.GetAmountDebited() == (uint64_t)spent && t.GetAmountCredited() == (uint64_t)kept && t.GetFee()->GetFee() == fee && t.GetTransaction().has_value() && t.GetTransaction()->GetInputs().size() == in.size() && t.GetTransaction()->GetOffset() == slate->offset, "transaction-recorded"); }
  CHECK(p.db->s.outputs.size() == p.db->saved.outputs.size() && p.db->saved.txs.size() == p.db->s.txs.size(), "committed"); REACH("sent");
}
static void coin(Party &p, uint64_t v, uint64_t height) { auto o = output(v, 100 + p.db->s.outputs.size(), EOutputStatus::SPENDABLE, 0, height, std::nullopt, (uint32_t)p.db->s.outputs.size()); p.db->s.outputs.push_back(o); p.node->chain.push_back({ o.GetCommitment(), height }); }
static void request(Party &p, Request &r) {
  r.all = v_fork("everything"); r.strategy = (ESelectionStrategy)v_choose("strategy", 0, 3); if (r.all) { verif_assume(r.strategy == (ESelectionStrategy)0); verif_assume(r.change == 0); } r.amount = v_u64("amount");
  if (r.strategy == ESelectionStrategy::CUSTOM && !r.all) for (auto &o : p.db->s.outputs) if (v_fork("chosen")) r.chosen.insert(o.GetCommitment());
}
static void both(Party &p, const Request &r, const std::vector<bool> &usable) {
  State before = p.db->s; std::optional<FeeEstimateDTO> est; auto c = r.chosen; SelectionStrategyDTO st(r.strategy, std::move(c));
  try { est = p.wallet->EstimateFee(EstimateFeeCriteria(SessionToken(1, std::vector<unsigned char>{ 1 }), r.all ? std::optional<uint64_t>() : r.amount, r.base, r.change, st)); } catch (std::exception &) {}
  CHECK(unchanged(before, p.db->s), "an-estimate-changes-nothing"); p.db->s = before; auto slate = send(p, r); judge(p, r, before, usable, slate);
  if (slate) { CHECK(est.has_value(), "estimated"); if (est) { uint64_t fee = slate->fee.GetFee(); CHECK(est->GetAmount() == slate->amount && (r.change || r.all ? est->GetFee() == fee : est->GetFee() <= fee) && est->GetInputs().size() == slate->GetInputs().size(), "the-fee-is-as-estimated"); } }
}
static void funds(uint64_t n, uint8_t lo, uint8_t hi) {
  Party p(1, std::make_shared<Node>()); for (uint64_t i = 0; i < n; i++) { uint64_t v = v_u64("value"); verif_assume(v < (1ull << (verif_tier() ? 61 : 45))); coin(p, v, 100); }
  p.db->s.nextChild = (uint32_t)n; p.db->saved = p.db->s; Request r; r.change = (uint8_t)v_choose("change outputs", lo, hi); request(p, r); both(p, r, std::vector<bool>(n, true));
}
// The database holds two coins in any state, the chain has either, or not.
static void states(uint64_t n) {
  Party p(1, std::make_shared<Node>()); std::vector<bool> usable; std::vector<EOutputStatus> want; bool plain = true; p.node->height = v_u64("height"); verif_assume(p.node->height < (1ull << 32)); uint64_t H = p.node->height; minConfs = (uint32_t)v_u64("minimum confirmations"); verif_assume(minConfs < 100);
  for (uint64_t i = 0; i < n; i++) {
    EOutputStatus st = (EOutputStatus)v_choose("status", 0, 5); uint8_t features = v_fork("coinbase") ? 1 : 0; uint64_t h = v_u64("output height"); verif_assume(h <= H); bool on = v_fork("on the chain"); auto o = output(1000000000000ull * (i + 1), 100 + i, st, features, st == EOutputStatus::SPENDABLE || st == EOutputStatus::LOCKED ? std::optional<uint64_t>(h) : std::nullopt, std::nullopt, (uint32_t)i);
    p.db->s.outputs.push_back(o); if (on) p.node->chain.push_back({ o.GetCommitment(), h });
    bool may = features ? h + 1440 <= H + 1 : h + minConfs <= H, must = features ? h + 1440 < H : h + minConfs <= H; plain = plain && may == must; usable.push_back(on && st != EOutputStatus::LOCKED && may);
    want.push_back(on ? st == EOutputStatus::LOCKED ? st : EOutputStatus::SPENDABLE : st == EOutputStatus::SPENDABLE || st == EOutputStatus::IMMATURE || st == EOutputStatus::LOCKED ? EOutputStatus::SPENT : st);
  }
  verif_assume(plain); p.db->s.nextChild = (uint32_t)n; p.db->saved = p.db->s; p.impl.Write()->RefreshOutputs(p.seed, false); bool follows = true; for (uint64_t i = 0; i < n; i++) follows = follows && p.db->s.outputs[i].GetStatus() == want[i]; CHECK(follows, "coins-follow-the-chain");
  State before = p.db->s; Request r; r.all = v_fork("everything"); r.strategy = ESelectionStrategy::ALL; r.amount = 1000; auto slate = send(p, r); judge(p, r, before, usable, slate);
}
HARNESS(funds) { funds(2, 0, 1); REACH("sent"); REACH("refused"); }
HARNESS(change) { funds(1, 0, 2); REACH("sent"); REACH("refused"); }
HARNESS(states1) { states(1); REACH("sent"); REACH("refused"); }
HARNESS_T(states2) { states(2); REACH("sent"); REACH("refused"); }
HARNESS_T(funds2) { funds(2, 2, 2); REACH("sent"); REACH("refused"); }
HARNESS_T(funds3) { funds(3, 0, 1); REACH("sent"); REACH("refused"); }
