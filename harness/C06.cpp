//@stubs env hash
//@flags -I$REPO/src -fno-access-control
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
//@bounds cycle lengths 4 and (Cuckaroo, Cuckarood, Cuckaroom; thorough: all) 6 with every endpoint of every edge unknown; the real length of 42 for a cycle in which one edge is replaced by any other; every order of edge numbers; the edge hash for eight keys, every place in a block
//@outside the edge hash for all other keys (equality of two long SipHash chains over unknown keys is beyond the solver); graphs of 42 edges with more than one edge off the cycle (the code is the same for every length); that proofs are hard to find
#define SIZE 4
#include "C06.h"
HARNESS(cuckatoo) { auto e = edges(); endpoints(TOO, e); decide(TOO, e, true); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckaroo) { auto e = edges(); endpoints(ROO, e); decide(ROO, e, true, 29); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckarood) { auto e = edges(); endpoints(ROOD, e); decide(ROOD, e, true); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckaroom) { auto e = edges(); endpoints(ROOM, e); decide(ROOM, e, true); REACH("cycle"); REACH("no cycle"); }
HARNESS(cuckarooz) { auto e = edges(); endpoints(ROOZ, e); decide(ROOZ, e, true); REACH("cycle"); REACH("no cycle"); }
// edge numbers: ascending and within the graph
HARNESS(order) {
  Kind k = (Kind)v_choose("graph", 0, 4); uint8_t bits = k == TOO ? (uint8_t)v_choose("edge bits", 31, 33) : 29; uint64_t limit = 1ull << bits; std::vector<uint64_t> e; for (int i = 0; i < SIZE; i++) e.push_back(v_u64("edge")); bool order = true; for (int i = 0; i < SIZE; i++) { order = order & (e[i] < limit); if (i) order = order & (e[i] > e[i - 1]); }
  static const uint64_t side[SIZE][2] = { { 10, 20 }, { 10, 22 }, { 12, 22 }, { 12, 20 } }, mono[SIZE][2] = { { 10, 12 }, { 12, 14 }, { 14, 16 }, { 16, 10 } }; g_edge.clear(); for (int i = 0; i < SIZE; i++) { uint64_t a = k == ROOM || k == ROOZ ? mono[i][0] : side[i][0], b = k == ROOM || k == ROOZ ? mono[i][1] : side[i][1]; if (k == TOO) { if (i == 1 || i == 3) a |= 1; if (i == 2 || i == 3) b |= 1; g_edge.push_back({ 2 * e[i], a }); g_edge.push_back({ 2 * e[i] + 1, b }); } else g_edge.push_back({ e[i], a | b << 32 }); }
  if (k == ROOD) for (int i = 0; i < SIZE; i++) verif_assume((e[i] & 1) == (uint64_t)(i & 1));
  siphash_keys keys(g_key); int got = k == TOO ? verify_cuckatoo(e.data(), &keys, bits) : k == ROO ? verify_cuckaroo(e.data(), keys, bits) : k == ROOD ? verify_cuckarood(e.data(), keys) : k == ROOM ? verify_cuckaroom(e.data(), keys) : verify_cuckarooz(e.data(), keys);
  CHECK((got == POW_OK) == order, "edges-ascend-within-the-graph"); if (order) REACH("ordered"); else REACH("not ordered");
}
