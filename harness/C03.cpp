//@stubs env hash
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/PoW/*.cpp
//@bounds every header difficulty, timestamp, scaling factor, proof hash and edge bits; the WTEMA rule with two ancestors (versions 5 and up); the cycle verifiers and the retarget result are arbitrary (uninterpreted) answers
//@outside 128-bit division is the machine's own in the acceptance harness and is compared separately on 24-bit windows
#include "verif.h"
#include "fakes.h"
#include "env.h"
#include <PoW/DifficultyCalculator.h>
#include <PoW/PoWValidator.h>
#include <PoW/Cuckaroo.h>
#include <PoW/Cuckarood.h>
#include <PoW/Cuckaroom.h>
#include <PoW/Cuckarooz.h>
#include <PoW/Cuckatoo.h>
#include <PoW/uint128.h>
static int g_ran; static bool g_ok; static uint64_t g_diff; static uint32_t g_scale;
static bool algo(int k) { g_ran = g_ran ? 99 : k; return g_ok; }
bool Cuckaroo::Validate(const BlockHeader &) { return algo(1); }
bool Cuckarood::Validate(const BlockHeader &) { return algo(2); }
bool Cuckaroom::Validate(const BlockHeader &) { return algo(3); }
bool Cuckarooz::Validate(const BlockHeader &) { return algo(4); }
bool Cuckatoo::Validate(const BlockHeader &) { return algo(5); }
HeaderInfo DifficultyCalculator::CalculateNextDifficulty(const BlockHeader &) const { return HeaderInfo(1, g_diff, g_scale, true); }
uint128_t verif_div128(const uint128_t *a, const uint128_t &b) asm("_ZNK9uint128_tdvERKS_");
uint128_t verif_div128(const uint128_t *a, const uint128_t &b) {
  unsigned __int128 x = ((unsigned __int128)a->upper() << 64) | a->lower(), y = ((unsigned __int128)b.upper() << 64) | b.lower();
  if (y == 0) throw std::domain_error("division by 0");
  unsigned __int128 q = x / y; return uint128_t((uint64_t)(q >> 64), (uint64_t)q);
}
HARNESS(acceptance) {
  auto db = std::make_shared<FakeBlockDB>();
  HeaderSpec p, h;
  p.hash = hashOf(1); h.prev = p.hash; h.hash = symHash("hash");
  p.difficulty = v_u64("prevTotal"); h.difficulty = v_u64("total"); h.scaling = v_u32("scaling"); h.version = v_u16("version"); h.height = v_u64("height");
  uint8_t pick = (uint8_t)v_choose("edgeClass", 0, 6);
  if (pick == 0) h.edgeBits = 29; else if (pick == 1) h.edgeBits = 31; else if (pick == 2) h.edgeBits = 32; else if (pick == 3) h.edgeBits = 33;
  else if (pick == 4) { h.edgeBits = v_u8("lowBits"); verif_assume(h.edgeBits < 29); h.edgeBits = (uint8_t)verif_concretize(h.edgeBits); }
  else if (pick == 5) h.edgeBits = 30;
  else { h.edgeBits = v_u8("hiBits"); verif_assume(h.edgeBits > 33 && h.edgeBits < 64); h.edgeBits = (uint8_t)verif_concretize(h.edgeBits); }
  if (h.edgeBits == 31 && !verif_tier()) { uint64_t hs[5] = { 0, 524159, 524160, 524160 + 10080 * 17 + 5, 524160 + 10080 * 31 }; h.height = hs[v_choose("age", 0, 4)]; }
  h.nonces.assign(42, 7);
  g_ok = v_bool("cycleOk"); g_diff = v_u64("requiredDifficulty"); g_scale = v_u32("requiredScaling"); g_ran = 0;
  auto hp = h.make(), pp = p.make();
  bool r = PoWValidator(db).IsPoWValid(*hp, *pp);
  uint64_t hv = 0; for (int i = 0; i < 8; i++) hv = (hv << 8) | h.hash[i];
  uint64_t w = h.edgeBits == 29 ? h.scaling : Consensus::GraphWeight(h.height, h.edgeBits);
  bool bits = h.edgeBits == 29 || h.edgeBits >= 31;
  bool grows = h.difficulty > p.difficulty; uint64_t target = h.difficulty - p.difficulty;
  unsigned __int128 mx = ((unsigned __int128)w << 64) / (hv == 0 ? 1 : hv);
  bool enough = bits && (mx >= target);
  CHECK(!r || bits, "edge-bits");
  CHECK(!r || grows, "total-difficulty-grows");
  CHECK(!r || enough, "proof-meets-difficulty");
  CHECK(!r || target == g_diff, "required-difficulty");
  CHECK(!r || h.scaling == g_scale, "required-scaling");
  CHECK(!r || g_ok, "cycle-verified");
  int want = h.edgeBits != 29 ? 5 : h.version == 1 ? 1 : h.version == 2 ? 2 : h.version == 3 ? 3 : 4;
  CHECK(!r || g_ran == want, "right-algorithm");
  CHECK(r || !(bits && grows && enough && target == g_diff && h.scaling == g_scale && g_ok), "valid-accepted");
  if (r) REACH("accepted");
}
