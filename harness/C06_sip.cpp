//@stubs env hash
//@flags -I$REPO/src -fno-access-control
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
#include "verif.h"
#include <cstring>
#include <PoW/Cuckatoo.cpp>
#include <PoW/Cuckaroom.cpp>
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include <PoW/Cuckarooz.cpp>
// SipHash-2-4 as the graphs use it: a four-word key, one word of input, a configurable last rotation
struct Sip { uint64_t v[4]; };
static uint64_t rot(uint64_t x, int b) { return x << b | x >> (64 - b); }
static void round(Sip &s, int r) { s.v[0] += s.v[1]; s.v[1] = rot(s.v[1], 13) ^ s.v[0]; s.v[0] = rot(s.v[0], 32); s.v[2] += s.v[3]; s.v[3] = rot(s.v[3], 16) ^ s.v[2]; s.v[0] += s.v[3]; s.v[3] = rot(s.v[3], r) ^ s.v[0]; s.v[2] += s.v[1]; s.v[1] = rot(s.v[1], 17) ^ s.v[2]; s.v[2] = rot(s.v[2], 32); }
static void hash(Sip &s, uint64_t n, int r) { s.v[3] ^= n; round(s, r); round(s, r); s.v[0] ^= n; s.v[2] ^= 0xff; for (int i = 0; i < 4; i++) round(s, r); }
static uint64_t out(const Sip &s) { return (s.v[0] ^ s.v[1]) ^ (s.v[2] ^ s.v[3]); }
static void edge(char *key, uint64_t e) {
  siphash_keys keys(key); Sip k; memcpy(k.v, key, 32); uint64_t mask = (1ull << 31) - 1;
  int which = (int)v_choose("graph", 0, 4), at = (int)v_choose("place in the block", 0, 63); if (which) e = (e & ~63ull) | (uint64_t)at; else verif_assume(at == 0);
  if (which == 0) { for (uint32_t side = 0; side < 2; side++) { Sip s = k; hash(s, 2 * e + side, 21); CHECK(sipnode(&keys, e, side, mask) == (out(s) & mask), "cuckatoo-endpoint"); } REACH("node"); return; }
  uint64_t buf[64], want[64]; Sip s = k; for (int i = 0; i < 64; i++) { hash(s, (e & ~63ull) + (uint64_t)i, which == 2 ? 25 : 21); want[i] = out(s); }
  uint64_t r = 0, got; if (which <= 2) { r = at == 63 ? want[63] : want[at] ^ want[63]; got = which == 1 ? sipblock<21>(keys, e, buf) : sipblock<25>(keys, e, buf); } else { for (int i = 63; i >= at; i--) r ^= want[i]; got = which == 3 ? cuckaroom_sipblock(keys, e, buf) : cuckarooz_sipblock(keys, e, buf); }
  CHECK(got == r, "edge-block"); REACH("block");
}
// fixed keys: the same arithmetic carried out on both sides
HARNESS(edge_hash) { char key[32]; uint64_t x = 0x9e3779b97f4a7c15ull * (1 + v_choose("key", 0, 7)); for (int i = 0; i < 32; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; key[i] = (char)(x >> 32); } edge(key, (x >> 5) & ((1ull << v_choose("bits", 28, 33)) - 1)); REACH("node"); REACH("block"); }
