//@stubs env hash fs
//@flags -I$VERIF/stubs/fsinc -I$REPO/src -fno-access-control
//@repo src/BlockChain/Chain.cpp src/BlockChain/ChainStore.cpp src/BlockChain/ChainState.cpp src/BlockChain/OrphanPool/OrphanPool.cpp src/BlockChain/Processors/BlockProcessor.cpp src/BlockChain/Processors/BlockHeaderProcessor.cpp src/BlockChain/BlockChainImpl.cpp src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Global.cpp src/Core/File/AppendOnlyFile.cpp src/Core/File/MappedFile_Nix.cpp src/Common/**/*.cpp src/Crypto/Hasher.cpp src/Crypto/Models/*.cpp src/Core/Validation/*.cpp
//@bounds every tree of four (thorough five) blocks on the genesis block, delivered in every order, one possibly twice; headers one at a time or two at a time in any order, three (thorough four) deliveries; any amount of work per block; at most one block breaks one rule (header, application, roots, body, sums); orphans picked up or not after every delivery
//@outside deeper trees; the rules themselves (C01-C06, B01-B03, M07: here a verdict per block); crashes during a commit; concurrent callers (exclusive locks are taken, their deadlock freedom is not checked)
#include "kchain.h"
using namespace kc;
static std::vector<int> got;
static bool have(int b) { for (int x = b; x > 0; x = parent[x]) { bool f = false; for (int g : got) f = f || g == x; if (!f) return false; } return true; }
static void look(Node &n, const std::vector<int> &c, const std::vector<int> &h) {
  bool linked = !c.empty() && c[0] == 0, sound = true; for (size_t i = 1; i < c.size(); i++) { linked = linked && c[i] > 0 && parent[c[i]] == c[i - 1]; sound = sound && c[i] > 0 && verdict[c[i]] == VALID; }
  bool hl = !h.empty() && h[0] == 0, hs = true; for (size_t i = 1; i < h.size(); i++) { hl = hl && h[i] > 0 && parent[h[i]] == h[i - 1]; hs = hs && h[i] > 0 && verdict[h[i]] != BAD_HEADER; }
  CHECK(linked && hl, "chains-are-linked"); CHECK(sound && hs, "only-valid-blocks"); CHECK(ids(n.set->list, c) && ids(n.set->disk, c), "txhashset-follows-the-confirmed-chain"); CHECK(ids(n.mmr->list, h) && ids(n.mmr->disk, h), "header-mmr-follows-the-candidate-chain");
  bool pos = n.db->positions.size() == c.size() - 1, stored = true; for (size_t i = 1; i < c.size(); i++) { pos = pos && n.db->GetOutputPosition(com((uint8_t)c[i])) != nullptr; stored = stored && n.db->GetBlock(head[c[i]]->GetHash()) && n.db->GetBlockSums(head[c[i]]->GetHash()) && n.db->GetBlockHeader(head[c[i]]->GetHash()); }
  CHECK(pos, "output-index-follows-the-confirmed-chain"); CHECK(stored, "confirmed-blocks-are-stored");
}
static void deliver(Node &n, int b, bool pick) {
  auto c0 = n.confirmed(), h0 = n.candidate(); bool threw = false, success = false; got.push_back(b);
  try { success = n.chain->AddBlock(block[b]) == EBlockChainStatus::SUCCESS; if (pick) while (n.chain->ProcessNextOrphanBlock()) {} } catch (std::exception &) { threw = true; }
  auto c1 = n.confirmed(), h1 = n.candidate(); look(n, c1, h1);
  CHECK(work(c1.back()) >= work(c0.back()) && work(h1.back()) >= work(h0.back()), "work-never-decreases");
  if (threw) { CHECK(c1 == c0, "refused-block-changes-nothing"); CHECK(!ok(b, false), "valid-block-is-not-refused"); REACH("refused"); }
  if (have(b) && ok(b, true)) CHECK(work(h1.back()) >= work(b), "candidate-chain-has-most-work");
  if (have(b) && ok(b, false)) { CHECK(work(c1.back()) >= work(b), "confirmed-chain-has-most-work"); REACH("connected"); }
  if (success && c1.size() > 1 && c0.size() > 1 && !onChain(c1, c0.back())) REACH("reorganised");
}
static std::vector<int> anyTree(int n) { std::vector<int> p{ 0, 0 }; for (int i = 2; i <= n; i++) p.push_back((int)v_choose("parent", 0, i - 1)); return p; }
static void run(const std::vector<int> &parents, int kinds, bool again) {
  vfs::reset(); got.clear(); tree(parents); int n4 = (int)parents.size() - 1, bad = kinds ? (int)v_choose("broken block", 1, n4) : 0; if (bad) verdict[bad] = (int)v_choose("broken rule", 1, kinds); Node n; n.start(); std::vector<int> left; for (int i = 1; i <= n4; i++) left.push_back(i);
  bool pick = v_fork("orphans are picked up"); while (!left.empty()) { size_t k = (size_t)v_choose("next", 0, left.size() - 1); int b = left[k]; left.erase(left.begin() + k); deliver(n, b, pick); if (again && !left.empty() && v_fork("delivered again")) { deliver(n, b, pick); again = false; } }
}
HARNESS(blocks) { run(anyTree(4), 0, true); REACH("connected"); REACH("reorganised"); }
HARNESS(broken) { run(anyTree(4), 5, false); REACH("refused"); }
HARNESS_T(blocks5) { run(anyTree(5), 0, false); REACH("connected"); REACH("reorganised"); }
HARNESS_T(broken_again) { run(anyTree(4), 5, true); REACH("refused"); }
// headers, one at a time or in batches, with heights as claimed by the peer
static void lookHeaders(Node &n, const std::vector<int> &h0) {
  auto h = n.candidate(); bool hl = !h.empty() && h[0] == 0, hs = true; for (size_t i = 1; i < h.size(); i++) { hl = hl && h[i] > 0 && parent[h[i]] == h[i - 1]; hs = hs && h[i] > 0 && verdict[h[i]] != BAD_HEADER; }
  CHECK(hl, "candidate-chain-is-linked"); CHECK(hs, "only-valid-headers"); CHECK(ids(n.mmr->list, h) && ids(n.mmr->disk, h), "header-mmr-follows-the-candidate-chain"); CHECK(work(h.back()) >= work(h0.back()), "header-work-never-decreases");
  bool stored = true; for (int i : h) stored = stored && n.db->GetBlockHeader(head[i]->GetHash()); CHECK(stored, "candidate-headers-are-stored"); CHECK(n.confirmed().size() == 1, "headers-confirm-nothing");
}
static void headers(int N, int steps) {
  vfs::reset(); got.clear(); tree(anyTree(N)); int bad = (int)v_choose("broken header", 0, N); if (bad) verdict[bad] = BAD_HEADER; Node n; n.start();
  for (int k = 0; k < steps; k++) {
    auto h0 = n.candidate(); int len = (int)v_choose("headers", 1, 2); std::vector<int> l; for (int i = 0; i < len; i++) { int b = (int)v_choose("header", 1, N); l.push_back(b); }
    bool threw = false; EBlockChainStatus st = EBlockChainStatus::INVALID; bool prevOn = onChain(h0, parent[l[0]]) , chained = len == 1 || parent[l[1]] == l[0];
    try { if (len == 1 && v_fork("single")) { prevOn = false; got.push_back(l[0]); st = n.chain->AddBlockHeader(head[l[0]]); if (st != EBlockChainStatus::INVALID && have(l[0]) && ok(l[0], true)) CHECK(work(n.candidate().back()) >= work(l[0]), "candidate-chain-has-most-work"); } else { std::vector<BlockHeaderPtr> v; for (int i : l) v.push_back(head[i]); st = n.chain->AddBlockHeaders(v); } } catch (std::exception &) { threw = true; }
    lookHeaders(n, h0); if (threw) { CHECK(n.candidate() == h0, "refused-headers-change-nothing"); REACH("refused"); }
    if (prevOn && chained && ok(l.back(), true)) { CHECK(!threw && work(n.candidate().back()) >= work(l.back()), "valid-headers-are-taken"); REACH("taken"); }
  }
}
static BlockHeaderPtr with(int i, const Hash &h) { HeaderSpec s; s.hash = h; s.height = head[i]->GetHeight(); s.prev = head[parent[i]]->GetHash(); s.difficulty = work(i); s.offset = BlindingFactor(hashOf((uint8_t)(i + 1))); return s.make(); }
static BlockHeaderPtr special(const BlockHeader &) { return with(2, Hash::FromHex("0002897182d8cf7631e86d56ad546b7cf0893bda811592aa9312ae633ce04813")); }
static BlockHeaderPtr child(int i) { return with(i, hashOf((uint8_t)(i + 1))); }
HARNESS_Q(headers) { headers(3, 3); REACH("taken"); REACH("refused"); }
HARNESS_T(headers_deep) { headers(4, 3); REACH("taken"); REACH("refused"); }
// a header or block of the list of bad blocks is never taken, whatever is built on it
HARNESS(bad_block) {
  vfs::reset(); got.clear(); tree({ 0, 0, 1, 2, 3 }); head[2] = special(*head[2]); head[3] = child(3); head[4] = child(4); block[2] = FullBlock(BlockHeaderPtr(head[2]), TransactionBody()); block[3] = FullBlock(BlockHeaderPtr(head[3]), TransactionBody()); block[4] = FullBlock(BlockHeaderPtr(head[4]), TransactionBody()); Node n; n.start(); for (int k = 0; k < 4; k++) { int b = (int)v_choose("next", 1, 4); try { if (v_fork("header only")) n.chain->AddBlockHeader(head[b]); else n.chain->AddBlock(block[b]); if (v_fork("orphans")) while (n.chain->ProcessNextOrphanBlock()) {} } catch (std::exception &) {} }
  CHECK(!onChain(n.confirmed(), 2) && !onChain(n.candidate(), 2), "bad-blocks-are-never-taken"); REACH("looked");
}
