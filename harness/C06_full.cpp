//@stubs env hash
//@flags -I$REPO/src -fno-access-control
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
#define SIZE 42
#include "C06.h"
// a cycle of the real length, one edge replaced by any other, through the whole check of a header
static void full(Kind k) {
  std::vector<uint64_t> e; for (int i = 0; i < 42; i++) e.push_back(1000 + 3 * i); g_edge.clear(); int odd = (int)v_choose("replaced edge", 0, 41); uint64_t x = v_u64("endpoint"), y = v_u64("endpoint");
  // edges n = 0..41 in cycle order are e[perm(n)]: the even edges first for the directed graph
  for (int n = 0; n < 42; n++) { int at = k == ROOD ? n : (n * 5) % 42; uint64_t a, b; int prev = n, next = (n + 1) % 42; if (k == ROOM || k == ROOZ) { a = 100 + 2 * prev; b = 100 + 2 * next; } else { a = 100 + 2 * (n & 1 ? next : prev); b = 100 + 2 * (n & 1 ? prev : next); }
    if (k == TOO) { if (n & 1) { a |= 1; } else { b |= 1; } g_edge.push_back({ 2 * e[at], at == odd ? x : a }); g_edge.push_back({ 2 * e[at] + 1, at == odd ? y : b }); } else g_edge.push_back({ e[at], at == odd ? x : a | b << 32 }); }
  decide(k, e, true, k == ROO ? 29 : 31);
}
HARNESS(cuckatoo42) { full(TOO); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckaroo42) { full(ROO); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckarood42) { full(ROOD); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckaroom42) { full(ROOM); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckarooz42) { full(ROOZ); REACH("cycle"); REACH("no cycle"); }
// the check of a header: 42 numbers, and the graph of the hash of the header without its proof
HARNESS(header) {
  Kind k = (Kind)v_choose("graph", 0, 4); std::vector<uint64_t> e; for (int i = 0; i < 42; i++) e.push_back(1000 + 3 * i); g_edge.clear(); bool good = v_fork("a cycle"); size_t n0 = v_choose("numbers", 41, 43);
  for (int n = 0; n < 42; n++) { uint64_t a, b; int next = good ? (n + 1) % 42 : n < 20 ? (n + 1) % 20 : n == 41 ? 20 : n + 1; if (k == ROOM || k == ROOZ) { a = 100 + 2 * n; b = 100 + 2 * next; } else { a = 100 + 2 * (n & 1 ? next : n); b = 100 + 2 * (n & 1 ? n : next); } if (k == TOO) { if (n & 1) a |= 1; else b |= 1; g_edge.push_back({ 2 * e[n], a }); g_edge.push_back({ 2 * e[n] + 1, b }); } else g_edge.push_back({ e[n], a | b << 32 }); }
  HeaderSpec s; s.version = (uint16_t)v_u16("version"); s.height = v_u64("height"); s.nonce = v_u64("nonce"); s.timestamp = 1600000000; s.edgeBits = k == TOO ? 31 : 29; s.nonces = e; s.nonces.resize(n0, 5000); s.hash = hashOf(9); auto h = s.make(); Hash key = Hasher::Blake2b(h->GetPreProofOfWork()); memcpy(g_key, key.data(), 32); g_keyOk = true;
  bool ok = k == TOO ? Cuckatoo::Validate(*h) : k == ROO ? Cuckaroo::Validate(*h) : k == ROOD ? Cuckarood::Validate(*h) : k == ROOM ? Cuckaroom::Validate(*h) : Cuckarooz::Validate(*h);
  CHECK(ok == (good && n0 == 42), "header-proof-is-one-42-cycle"); CHECK(g_keyOk, "graph-comes-from-the-header"); if (ok) REACH("valid"); else REACH("invalid");
}
