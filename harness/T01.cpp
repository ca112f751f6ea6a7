//@stubs env
//@flags -I$REPO/src -fno-access-control
//@repo src/TxPool/*.cpp src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/Hasher.cpp
//@bounds admission: one transaction of up to two inputs, outputs or kernels, every fee, fee shift, lock height, fee base below 2^24 and height below 2^40, at most one defect; histories: three (thorough four) operations (add to either pool, relay, fluff, block) over three transactions sharing inputs and outputs in every combination; embargoes of 0, 1, 180 and 60000 s, every jitter, waits within 3 s of the end and far beyond
//@outside transaction validity (B05; here a verdict), the UTXO lookup (M07; here a set of coins), real randomness, concurrent callers (one exclusive lock per call)
#include "txworld.h"
using namespace tw;
static void fresh() { for (int i = 0; i < 8; i++) broken[i] = false; for (int i = 0; i < 16; i++) utxo[i] = i < 8; feeBase = 1; dice = 0; }
static BlockHeaderPtr at(uint64_t height) { HeaderSpec s; s.height = height; s.hash = hashOf(200); return s.make(); }
static bool has(const Pool &p, const TransactionPtr &t) { for (auto &e : p.m_transactions) if (e.GetTransaction() == t) return true; return false; }
static int count(const Pool &p, const Transaction &t) { int n = 0; for (auto &e : p.m_transactions) n += e.GetTransaction()->GetKernels()[0].GetExcessCommitment() == t.GetKernels()[0].GetExcessCommitment(); return n; }
static bool carries(const Transaction &agg, const Transaction &t) { for (auto &k : t.GetKernels()) { bool f = false; for (auto &a : agg.GetKernels()) f = f || a.GetExcessCommitment() == k.GetExcessCommitment(); if (!f) return false; } return true; }
struct World {
  TransactionPool pool{ conf() }; std::shared_ptr<Set> set = std::make_shared<Set>(); std::shared_ptr<FakeBlockDB> db = std::make_shared<FakeBlockDB>(); std::vector<TransactionPtr> t;
  World() { fresh(); venv::env = Environment::AUTOMATED_TESTING; set->head = at(10); feeBase = 0; t.push_back(tx({ 0 }, { 8 }, { ker(0) }, 1)); t.push_back(tx({ (int)v_choose("spends", 0, 1) }, { (int)v_choose("creates", 8, 9) }, { ker(1) }, 2)); t.push_back(tx({ 2, (int)v_choose("spends", 3, 4) == 3 ? 3 : (int)v_choose("also spends", 0, 1) }, { (int)v_choose("creates", 8, 10) }, { ker(2) }, 3)); }
  bool fitsMem(const Transaction &x) { for (auto &e : pool.m_memPool.m_transactions) if (clash(*e.GetTransaction(), x)) return false; return true; }
  void look() {
    auto &m = pool.m_memPool.m_transactions; bool joint = true, chain = true; for (size_t a = 0; a < m.size(); a++) { chain = chain && onChain(m[a].GetTransaction()->GetBody()) && sound(m[a].GetTransaction()->GetBody()); for (size_t b = 0; b < a; b++) joint = joint && !clash(*m[a].GetTransaction(), *m[b].GetTransaction()); }
    CHECK(joint, "no-double-spend-in-the-pool"); CHECK(chain, "pool-fits-the-chain");
  }
  void add(int k, bool stemming) {
    bool fits = fitsMem(*t[k]), chain = onChain(t[k]->GetBody()); auto before = pool.m_memPool.m_transactions.size(); dice = stemming && v_fork("fluff at once") ? 95 : 5; auto st = pool.AddTransaction(db, set, t[k], stemming ? EPoolType::STEMPOOL : EPoolType::MEMPOOL, *set->head); dice = 0;
    if (!stemming) { CHECK((st == EAddTransactionStatus::ADDED) == (fits && chain), "taken-iff-it-fits"); CHECK(pool.m_memPool.m_transactions.size() == before + (fits && chain ? 1 : 0), "pool-size"); if (fits && chain) { CHECK(count(pool.m_memPool, *t[k]) == 1, "taken-once"); REACH("taken"); } else REACH("refused"); }
    else CHECK((st == EAddTransactionStatus::ADDED) == chain, "stem-taken-iff-on-chain");
  }
  void relay(bool fluff) {
    std::vector<TransactionPtr> want, all; for (auto &e : pool.m_stemPool.m_transactions) if (e.GetStatus() == (fluff ? EDandelionStatus::TO_FLUFF : EDandelionStatus::TO_STEM)) all.push_back(e.GetTransaction());
    auto mem = pool.m_memPool.m_transactions; std::vector<int> times; for (auto &x : all) times.push_back(count(pool.m_stemPool, *x)); auto r = fluff ? pool.GetTransactionToFluff(db, set) : pool.GetTransactionToStem(db, set); bool good = true, maximal = true, moved = true; size_t kernels = 0;
    auto fits = [&](const Transaction &x) { if (!onChain(x.GetBody())) return false; for (auto &e : mem) if (clash(*e.GetTransaction(), x)) return false; return true; };
    for (auto &x : all) { bool in = r && carries(*r, *x); if (in) { good = good && fits(*x); kernels += x->GetKernels().size(); want.push_back(x); } }
    for (auto &x : all) if (!(r && carries(*r, *x))) { bool blocked = !fits(*x); for (auto &y : want) blocked = blocked || clash(*x, *y); maximal = maximal && blocked; }
    CHECK(good && (!r || kernels >= r->GetKernels().size()), "relayed-fits-the-pool"); CHECK(maximal, "everything-relayable-is-relayed"); CHECK(!r || (sound(r->GetBody()) && onChain(r->GetBody())), "relayed-is-valid");
    for (size_t k = 0; k < all.size(); k++) if (r && carries(*r, *all[k]) && times[k] == 1) for (auto &e : pool.m_stemPool.m_transactions) if (e.GetTransaction() == all[k]) moved = moved && !fluff && e.GetStatus() == EDandelionStatus::STEMMED; CHECK(moved, "relayed-once");
    if (fluff && r) CHECK(has(pool.m_memPool, r), "fluffed-goes-to-the-pool"); CHECK(pool.m_memPool.m_transactions.size() == mem.size() + (fluff && r ? 1 : 0), "pool-size"); if (r) REACH("relayed");
  }
  void block() {
    int which = (int)v_choose("block holds", 0, 3); std::vector<TransactionInput> bi; std::vector<TransactionOutput> bo; std::vector<TransactionKernel> bk; TransactionPtr b = which < 3 ? t[which] : tx({ 0 }, { 11 }, { ker(7) }, 9); if (!onChain(b->GetBody())) return;
    FullBlock fb(at(11), TransactionBody(b->GetBody())); for (auto &i : b->GetInputs()) utxo[idOf(i.GetCommitment())] = false; for (auto &o : b->GetOutputs()) utxo[idOf(o.GetCommitment())] = true; auto mem = pool.m_memPool.m_transactions, st = pool.m_stemPool.m_transactions; pool.ReconcileBlock(db, set, fb);
    bool exact = true; for (auto &e : mem) { bool keep = onChain(e.GetTransaction()->GetBody()) && !carries(*b, *e.GetTransaction()); exact = exact && has(pool.m_memPool, e.GetTransaction()) == keep; } CHECK(exact && pool.m_memPool.m_transactions.size() <= mem.size(), "block-evicts-exactly-the-conflicting");
    auto &s = pool.m_stemPool.m_transactions; bool fine = true, lost = false; for (size_t x = 0; x < s.size(); x++) { fine = fine && onChain(s[x].GetTransaction()->GetBody()) && fitsMem(*s[x].GetTransaction()); for (size_t y = 0; y < x; y++) fine = fine && !clash(*s[x].GetTransaction(), *s[y].GetTransaction()); }
    for (auto &e : st) if (!has(pool.m_stemPool, e.GetTransaction())) { bool reason = !onChain(e.GetTransaction()->GetBody()) || !fitsMem(*e.GetTransaction()) || carries(*b, *e.GetTransaction()); for (auto &x : s) reason = reason || clash(*x.GetTransaction(), *e.GetTransaction()); lost = lost || !reason; } CHECK(fine, "stem-pool-fits-the-chain"); CHECK(!lost, "stem-pool-keeps-the-rest"); REACH("block");
  }
};
HARNESS(pool) {
  World w; for (int k = 0; k < 3; k++) { switch (v_choose("operation", 0, 4)) { case 0: w.add((int)v_choose("transaction", 0, 2), false); break; case 1: w.add((int)v_choose("transaction", 0, 2), true); break; case 2: w.relay(false); break; case 3: w.relay(true); break; default: w.block(); } w.look(); }
  REACH("taken"); REACH("refused"); REACH("relayed"); REACH("block");
}
HARNESS_T(pool4) {
  World w; for (int k = 0; k < 4; k++) { switch (v_choose("operation", 0, 4)) { case 0: w.add((int)v_choose("transaction", 0, 2), false); break; case 1: w.add((int)v_choose("transaction", 0, 2), true); break; case 2: w.relay(false); break; case 3: w.relay(true); break; default: w.block(); } w.look(); }
  REACH("taken"); REACH("refused"); REACH("relayed"); REACH("block");
}
static uint64_t g_clock = 0;
extern "C" uint64_t verif_clock_ns() { return g_clock; }
// a transaction in the stem pool expires when its embargo is over, not before
HARNESS(embargo) {
  World w; static const uint16_t secs[4] = { 0, 1, 180, 60000 }; uint64_t start = 1600000000; embargo = secs[v_choose("embargo", 0, 3)]; dice = v_choose("jitter", 0, 30); uint64_t jitter = dice, over = v_choose("wait", 0, 6), wait = embargo + jitter + over < 3 ? 0 : embargo + jitter + over - 3; if (over == 6) wait = 10000000; int n = (int)v_choose("transactions", 1, 2); g_clock = start * 1000000000ull; utxo[0] = utxo[1] = utxo[2] = utxo[3] = utxo[4] = true;
  for (int k = 0; k < n; k++) w.add(k, true); g_clock = (start + wait) * 1000000000ull; dice = jitter; auto r = w.pool.GetExpiredTransactions(); CHECK(r.size() == (wait > embargo + jitter ? (size_t)n : 0), "expired-iff-embargo-is-over"); for (size_t k = 0; k < r.size(); k++) CHECK(r[k] == w.t[k], "expired-are-the-waiting");
  if (!r.empty()) REACH("expired"); else REACH("waiting");
}
// lookups return exactly the transactions they are asked for
HARNESS(lookup) {
  World w; std::vector<TransactionPtr> t; t.push_back(tx({ 0 }, { 8 }, { ker(0), ker(3) }, 1)); t.push_back(tx({ 1 }, { 9 }, { ker(1) }, 2)); t.push_back(tx({ 2 }, { 10 }, { ker(2) }, 3)); bool mem[3], stem[3]; for (int k = 0; k < 3; k++) { mem[k] = v_fork("in the pool"); stem[k] = !mem[k] && v_fork("in the stem pool"); if (mem[k]) w.pool.m_memPool.AddTransaction(t[k], EDandelionStatus::FLUFFED); if (stem[k]) w.pool.m_stemPool.AddTransaction(t[k], EDandelionStatus::TO_STEM); }
  static const int owner[5] = { 0, 1, 2, 0, -1 }; std::set<TransactionKernel> ks; std::set<ShortId> ids; bool asked[5]; Hash block = hashOf(77); uint64_t nonce = v_choose("nonce", 4, 5); size_t want = 0; for (int k = 0; k < 5; k++) { asked[k] = v_fork("asked"); if (!asked[k]) continue; want++; auto x = ker(k); ks.insert(x); ids.insert(ShortId::Create(x.GetHash(), block, nonce)); }
  auto byKernel = w.pool.FindTransactionsByKernel(ks), byId = w.pool.GetTransactionsByShortId(block, nonce, ids), other = w.pool.GetTransactionsByShortId(block, nonce + 9, ids); bool a = true, b = true; size_t distinct = 0, hits = 0;
  for (int k = 0; k < 3; k++) { bool wanted = mem[k] && (asked[k] || (k == 0 && asked[3])); distinct += wanted; a = a && (std::count(byKernel.begin(), byKernel.end(), t[k]) == (wanted ? 1 : 0)); int n = 0; for (int j = 0; j < 5; j++) n += mem[k] && asked[j] && owner[j] == k; b = b && (std::count(byId.begin(), byId.end(), t[k]) > 0) == (n > 0); hits += n; }
  CHECK(a && byKernel.size() == distinct, "by-kernel"); CHECK(b && byId.size() <= hits, "by-short-id"); CHECK(other.empty(), "short-id-depends-on-the-nonce"); int q = (int)v_choose("kernel", 0, 4); auto one = w.pool.FindTransactionByKernelHash(ker(q).GetHash()); bool exists = owner[q] >= 0 && (mem[owner[q]] || stem[owner[q]]); CHECK((one != nullptr) == exists && (!exists || one == t[owner[q]]), "by-kernel-hash"); if (exists && want) REACH("found");
}
// one transaction against every rule for entering the pool
HARNESS(admit) {
  fresh(); venv::env = Environment::MAINNET; auto set = std::make_shared<Set>(); uint64_t height = v_u64("height"); verif_assume(height < (1ull << 40)); set->head = at(height); auto db = std::make_shared<FakeBlockDB>(); TransactionPool pool{ conf() };
  static const int shape[4][3] = { { 1, 1, 1 }, { 2, 1, 1 }, { 1, 2, 1 }, { 1, 1, 2 } }; auto &sh = shape[v_choose("shape", 0, 3)]; int ni = sh[0], no = sh[1], nk = sh[2]; int bad = (int)v_choose("defect", 0, 6); std::vector<int> i, o; for (int k = 0; k < ni; k++) { i.push_back(k); utxo[k] = k != bad; } for (int k = 0; k < no; k++) { o.push_back(8 + k); utxo[8 + k] = 4 + k == bad; }
  feeBase = v_u32("fee base") & 0xffffff; std::vector<TransactionKernel> ks; uint64_t fees = 0, lock = 0; uint8_t shift = 0; for (int k = 0; k < nk; k++) { uint64_t f = v_u64("fee") & 0xffffffffff, l = v_u64("lock height"); uint8_t s = v_u8("fee shift") & 15; ks.push_back(ker(k, f, l, s, true)); fees += f; lock = l > lock ? l : lock; shift = s > shift ? s : shift; broken[k] = 2 + k == bad; }
  bool valid = true, chain = true; for (int k = 0; k < nk; k++) valid = valid & !broken[k]; for (int k = 0; k < ni; k++) chain = chain & utxo[k]; for (int k = 0; k < no; k++) chain = chain & !utxo[8 + k];
  uint64_t need; if (height + 1 < 1048320ull) need = (feeBase * (uint64_t)std::max(1, 4 * no + nk - ni)) << shift; else need = (feeBase * (uint64_t)(ni + 21 * no + 3 * nk)) << shift;
  auto t = tx(i, o, std::move(ks), 1); checked = false; bool stemming = bad == 6 && v_fork("stem"); dice = v_range("random", 0, 100);
  auto st = pool.AddTransaction(db, set, t, stemming ? EPoolType::STEMPOOL : EPoolType::MEMPOOL, *set->head); bool added = st == EAddTransactionStatus::ADDED; size_t inPool = pool.m_memPool.m_transactions.size() + pool.m_stemPool.m_transactions.size();
  CHECK(!added || fees >= need, "fee-minimum"); CHECK(!added || lock <= height + 1, "lock-heights"); CHECK(!added || valid, "only-valid"); CHECK(!added || chain, "spends-unspent-outputs"); CHECK(added || !(fees >= need & lock <= height + 1 & valid & chain), "good-transaction-is-taken"); CHECK(inPool == (added ? 1 : 0), "pool-holds-what-was-added");
  if (added) { CHECK(stemming ? pool.m_stemPool.m_transactions.size() == 1 : pool.m_memPool.m_transactions.size() == 1, "right-pool"); CHECK(!stemming || pool.m_stemPool.m_transactions[0].GetStatus() == (dice <= stem ? EDandelionStatus::TO_STEM : EDandelionStatus::TO_FLUFF), "stem-probability"); REACH("added"); } else REACH("refused");
}
