//@stubs env hash
//@repo src/Core/**/*.cpp src/Common/**/*.cpp
//@bounds every 64-bit height, every environment; body counts below 2^32; graph weights for edge bits 24 to 63 except where the product exceeds 64 bits
#include "verif.h"
#include "fakes.h"
#include "env.h"
#include <Consensus.h>
#include <Core/Models/TransactionBody.h>
#include <Core/Util/FeeUtil.h>
static Environment anyEnv() {
  switch (v_choose("env", 0, 2)) { case 0: return Environment::MAINNET; case 1: return Environment::FLOONET; default: return Environment::AUTOMATED_TESTING; }
}
HARNESS(versions) {
  Environment env = anyEnv(); venv::env = env;
  uint64_t h = v_u64("height");
  uint16_t v = Consensus::GetHeaderVersion(env, h), v2 = Consensus::GetHeaderVersion(h);
  uint64_t f[4] = { 262080, 524160, 786240, 1048320 }, g[4] = { 185040, 298080, 552960, 642240 };
  const uint64_t *x = env == Environment::FLOONET ? g : f;
  uint16_t e = 1; for (int i = 0; i < 4; i++) e += h >= x[i];
  CHECK(v == e, "header-version"); CHECK(v2 == e, "header-version-current-env");
  REACH("end");
}
HARNESS(horizons) {
  Environment env = anyEnv(); venv::env = env;
  uint64_t h = v_u64("height");
  uint64_t m = env == Environment::AUTOMATED_TESTING ? 25 : 1440;
  CHECK(Consensus::GetMaxCoinbaseHeight(env, h) == (h < m ? 0 : h - m), "coinbase-maturity");
  CHECK(Consensus::GetMaxCoinbaseHeight(h) == (h < m ? 0 : h - m), "coinbase-maturity-current-env");
  CHECK(Consensus::GetHorizonHeight(h) == (h < 10080 ? 0 : h - 10080), "cut-through-horizon");
  uint64_t wk = h / 11648; CHECK(Consensus::SecondaryPOWRatio(h) == (wk >= 90 ? 0 : 90 - wk), "secondary-ratio");
  CHECK(Consensus::REWARD == 60000000000ll, "reward"); CHECK(Consensus::MAX_BLOCK_WEIGHT == 40000, "max-weight");
  CHECK(Consensus::STATE_SYNC_THRESHOLD == 2880, "state-sync-threshold"); CHECK(Consensus::DEFAULT_FUTURE_TIME_LIMIT_SEC == 300, "ftl");
  REACH("end");
}
HARNESS(weights) {
  uint64_t i = v_u32("inputs"), o = v_u32("outputs"), k = v_u32("kernels"), b = v_u32("base");
  CHECK(Consensus::CalculateWeightV5(i, o, k) == i + 21 * o + 3 * k, "weight");
  CHECK(FeeUtil::CalculateFee(b, i, o, k) == b * (i + 21 * o + 3 * k), "fee");
  int64_t w4 = -(int64_t)i + 4 * (int64_t)o + (int64_t)k;
  CHECK(Consensus::CalculateWeightV4(i, o, k) == (uint64_t)(w4 < 1 ? 1 : w4), "weight-v4");
  REACH("end");
}
HARNESS(graph) {
  uint64_t h = v_u64("height");
  uint8_t eb = (uint8_t)v_choose("edge_bits", 24, 57);
  uint64_t x = eb;
  if (eb == 31 && h >= 524160) { uint64_t wks = 1 + (h - 524160) / 10080; x = wks >= 31 ? 0 : 31 - wks; }
  CHECK(Consensus::GraphWeight(h, eb) == (2ull << (eb - 24)) * x, "graph-weight");
  if (eb >= 31 || eb == 29) CHECK(Consensus::ScalingDifficulty(eb) == (2ull << (eb - 24)) * eb, "scaling-difficulty");
  venv::env = Environment::MAINNET; CHECK(Consensus::min_wtema_graph_weight() == 16384, "min-main");
  venv::env = Environment::FLOONET; CHECK(Consensus::min_wtema_graph_weight() == 64 * 29, "min-floo");
  CHECK(Consensus::INITIAL_GRAPH_WEIGHT == 64 * 29, "initial");
  REACH("end");
}
