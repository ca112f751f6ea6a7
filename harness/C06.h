#pragma once
#include "verif.h"
#include <cstring>
#include "fakes.h"
#define EDGE_BLOCK_BITS 0
#include <Consensus.h>
#include <Core/Models/BlockHeader.h>
#include <Core/Models/FullBlock.h>
#include <Crypto/Hasher.h>
#include <PoW/Common.h>
// the endpoints of each edge are unknown: any function of the edge
static std::vector<std::pair<uint64_t, uint64_t>> g_edge;
static char g_key[32]; static bool g_keyOk = true;
static uint64_t endpointsOf(uint64_t nonce) { for (auto &p : g_edge) if (p.first == nonce) return p.second; return 0; }
template <> void siphash_state<21>::hash24(const uint64_t nonce) { uint64_t k[4]; memcpy(k, g_key, 32); g_keyOk = g_keyOk & (v0 == k[0]) & (v1 == k[1]) & (v2 == k[2]) & (v3 == k[3]); v0 = endpointsOf(nonce); v1 = v2 = v3 = 0; }
template <> void siphash_state<25>::hash24(const uint64_t nonce) { uint64_t k[4]; memcpy(k, g_key, 32); g_keyOk = g_keyOk & (v0 == k[0]) & (v1 == k[1]) & (v2 == k[2]) & (v3 == k[3]); v0 = endpointsOf(nonce); v1 = v2 = v3 = 0; }
#undef PROOFSIZE
#ifndef SIZE
#define SIZE 4
#endif
#define PROOFSIZE SIZE
#include <PoW/Cuckatoo.cpp>
#include <PoW/Cuckaroo.cpp>
#include <PoW/Cuckarood.cpp>
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include <PoW/Cuckaroom.cpp>
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include <PoW/Cuckarooz.cpp>
// one cycle through every edge: end[2n] and end[2n+1] are the vertices of edge n, numbered
static bool oneCycle(const int (*mate)[2 * SIZE]) { int n = 0, i = 0; do { int j = (*mate)[i]; if (j < 0) return false; i = j ^ 1; n++; } while (i != 0 && n <= SIZE); return n == SIZE && i == 0; }
// mates: the one other endpoint that meets this one
template <class F> static bool cycle(F meets) { int mate[2 * SIZE]; for (int i = 0; i < 2 * SIZE; i++) { mate[i] = -1; int c = 0; for (int k = 0; k < 2 * SIZE; k++) if (k != i && meets(i, k)) { mate[i] = k; c++; } if (c != 1) return false; } return oneCycle(&mate); }
enum Kind { TOO, ROO, ROOD, ROOM, ROOZ };
static const uint64_t M29 = (1ull << 29) - 1, M28 = (1ull << 28) - 1, M30 = (1ull << 30) - 1;
static void decide(Kind kind, const std::vector<uint64_t> &e, bool order, uint8_t bits = 31) {
  siphash_keys keys(g_key); const uint64_t mask = (1ull << bits) - 1; uint64_t u[2 * SIZE]; int got = -1, dirs = 0; for (int n = 0; n < SIZE; n++) dirs += e[n] & 1;
  verif_fuel(3000000); if (kind == TOO) got = verify_cuckatoo(e.data(), &keys, bits); else if (kind == ROO) got = verify_cuckaroo(e.data(), keys, bits); else if (kind == ROOD) got = verify_cuckarood(e.data(), keys); else if (kind == ROOM) got = verify_cuckaroom(e.data(), keys); else got = verify_cuckarooz(e.data(), keys);
  verif_fuel(100000000); bool want = order;
  if (want && kind == ROOD && dirs != SIZE / 2) want = false;
  if (want) { for (int n = 0; n < SIZE; n++) { uint64_t x = endpointsOf(e[n]), lo = x & 0xffffffff, hi = x >> 32; if (kind == TOO) { u[2 * n] = endpointsOf(2 * e[n]) & mask; u[2 * n + 1] = endpointsOf(2 * e[n] + 1) & mask; } else { uint64_t m = kind == ROO ? mask : kind == ROOD ? M28 : kind == ROOM ? M29 : M30; u[2 * n] = lo & m; u[2 * n + 1] = (x >> 32) & m; (void)hi; } }
    if (kind == TOO) want = cycle([&](int i, int k) { return (i & 1) == (k & 1) && u[i] >> 1 == u[k] >> 1; }) && cycle([&](int i, int k) { return (i & 1) == (k & 1) && u[i] == (u[k] ^ 1); });
    if (kind == ROO) want = cycle([&](int i, int k) { return (i & 1) == (k & 1) && u[i] == u[k]; });
    if (kind == ROOD) want = cycle([&](int i, int k) { return (i & 1) == (k & 1) && u[i] == u[k] && (e[i / 2] & 1) != (e[k / 2] & 1); });
    if (kind == ROOM) { int i = 0, n = 0; bool ok = true, seen[SIZE] = {}; for (int a = 0; a < SIZE; a++) for (int b = 0; b < a; b++) ok = ok && u[2 * a] != u[2 * b]; for (; ok && n < SIZE; n++) { if (seen[i]) ok = false; seen[i] = true; int next = -1; for (int k = 0; k < SIZE; k++) if (u[2 * k] == u[2 * i + 1]) { next = k; break; } if (next < 0) ok = false; else i = next; } want = ok && i == 0; for (int k = 0; k < SIZE; k++) want = want && seen[k]; }
    if (kind == ROOZ) want = cycle([&](int i, int k) { return u[i] == u[k]; }); }
  CHECK((got == POW_OK) == want, "accepts-exactly-the-cycles"); if (got == POW_OK) REACH("cycle"); else REACH("no cycle");
}
static void endpoints(Kind kind, const std::vector<uint64_t> &e) { g_edge.clear(); for (int n = 0; n < SIZE; n++) { if (kind == TOO) { g_edge.push_back({ 2 * e[n], v_u64("endpoint") }); g_edge.push_back({ 2 * e[n] + 1, v_u64("endpoint") }); } else g_edge.push_back({ e[n], v_u64("endpoints") }); } }
static std::vector<uint64_t> edges() { std::vector<uint64_t> e; for (int i = 0; i < SIZE; i++) e.push_back(1000 + 3 * i); return e; }
