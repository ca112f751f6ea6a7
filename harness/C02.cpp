//@stubs env hash
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/PoW/*.cpp
//@bounds wtema: header difficulties below 2^49, block time in [1, 2^32) s, environment mainnet or floonet
//@bounds dma: complete 61-header window or 1 to 8 headers after genesis, all timestamps, difficulties (below 2^40 each), scaling factors (32 bit) and secondary flags symbolic; block height below 2^32
//@outside difficulty sums of 2^63 and more; chains whose previous headers are missing
#include "verif.h"
#include "fakes.h"
#include "env.h"
#include <PoW/DifficultyCalculator.h>
HARNESS(wtema) {
  venv::env = v_fork("floonet") ? Environment::FLOONET : Environment::MAINNET;
  auto db = std::make_shared<FakeBlockDB>();
  HeaderSpec a, b, c; a.hash = hashOf(1); b.hash = hashOf(2); b.prev = a.hash; c.hash = hashOf(3); c.prev = b.hash; c.height = v_u64("h");
  c.version = v_u16("version"); verif_assume(c.version >= 5);
  a.timestamp = v_range("ta", 0, 1ull << 40); b.timestamp = a.timestamp + v_range("dt", 1, (1ull << 32) - 1);
  a.difficulty = v_range("da", 0, 1ull << 48); b.difficulty = a.difficulty + v_range("dd", 1, 1ull << 48);
  b.edgeBits = v_u8("eb"); b.scaling = v_u32("sc"); c.difficulty = v_u64("cd"); c.timestamp = (int64_t)v_u64("ct"); c.scaling = v_u32("cs");
  db->AddBlockHeader(a.make()); db->AddBlockHeader(b.make());
  auto info = DifficultyCalculator(db).CalculateNextDifficulty(*c.make());
  uint64_t dt = b.timestamp - a.timestamp, dd = b.difficulty - a.difficulty;
  uint64_t n = (dd * 14400) / (14340 + dt);
  uint64_t mn = venv::env == Environment::MAINNET ? 16384 : 64 * 29;
  CHECK(info.GetDifficulty() == (n < mn ? mn : n), "wtema-difficulty");
  CHECK(info.GetSecondaryScaling() == 0, "wtema-scaling");
  REACH("end");
}
// The window of difficulty data (earliest first): N real headers of which the last is the parent.
static void dma(size_t n, bool atGenesis, bool cmpDiff, bool cmpScale) {
  auto db = std::make_shared<FakeBlockDB>();
  std::vector<uint64_t> ts(n), diff(n); std::vector<uint32_t> sc(n); std::vector<bool> dummy; std::vector<uint8_t> sec(n);
  // newest first in ts[0]
  uint64_t tot = 0, t = 1500000000; uint64_t base = 0;
  if (!atGenesis) { base = v_range("base", 0, 1ull << 48); }
  tot = base;
  std::vector<BlockHeaderPtr> hs;
  HeaderSpec g; Hash prev = hashOf(200);
  if (!atGenesis) { g.hash = prev; g.difficulty = base; g.timestamp = t; hs.push_back(g.make()); }
  for (size_t i = 0; i < n; i++) {
    HeaderSpec h; char nm[16] = "x"; (void)nm;
    t += v_range("dt", 1, 0xffffff); uint64_t d = v_range("dd", 1, 1ull << 40); tot += d;
    h.hash = hashOf((uint8_t)(i + 1)); h.prev = prev; prev = h.hash; h.timestamp = t; h.difficulty = tot; h.scaling = v_u32("sc");
    uint8_t s = v_u8("sec") & 1; h.edgeBits = (uint8_t)(31 - 2 * s); hs.push_back(h.make());
    ts[i] = t; diff[i] = d; sc[i] = h.scaling; sec[i] = s;
  }
  for (auto &h : hs) db->AddBlockHeader(h);
  HeaderSpec c; c.version = (uint16_t)v_range("version", 1, 4); c.height = v_range("height", 0, 0xffffffff);
  uint64_t week = 0;
  if (cmpScale) {
    week = verif_tier() ? v_choose("week", 0, 92) : v_fork("late") ? v_choose("week", 89, 91) : v_choose("week", 0, 2) * 22;
    c.height = week * 11648 + v_u32("in_week") % 11648;
  } c.prev = prev; c.hash = hashOf(201);
  auto info = DifficultyCalculator(db).CalculateNextDifficulty(*c.make());
  // ---- independent statement of the rule (window W[0..60], oldest first)
  std::vector<uint64_t> wt(61), wd(61), ws(61), wsec(61);
  size_t pad = 61 - n;
  uint64_t delta = n > 1 ? ts[n - 1] - ts[n - 2] : 60, last = ts[0];
  for (size_t k = 0; k < n; k++) { wt[pad + k] = ts[k]; wd[pad + k] = diff[k]; ws[pad + k] = sc[k]; wsec[pad + k] = sec[k]; }
  for (size_t k = pad; k-- > 0;) { last = last > delta ? last - delta : 0; wt[k] = last; wd[k] = diff[n - 1]; ws[k] = 1856; wsec[k] = 1; }
  uint64_t sum = 0, ssum = 0, cnt = 0;
  for (size_t k = 1; k < 61; k++) { sum += wd[k]; ssum += ws[k]; cnt += wsec[k]; }
  uint64_t act = (wt[60] - wt[0] + 2 * 3600) / 3, adj = act < 1800 ? 1800 : act > 7200 ? 7200 : act;
  uint64_t nd = sum * 60 / adj; if (nd < 3) nd = 3;
  if (cmpDiff) CHECK(info.GetDifficulty() == nd, "dma-difficulty");
  if (cmpScale) {
    uint64_t wk = week, pct = wk >= 90 ? 0 : 90 - wk, target = 60 * pct;
    uint64_t ac = (cnt * 100 + 12 * target) / 13, lo = target / 2, hi = target * 2, ad = ac > hi ? hi : ac; if (ad < lo) ad = lo;
    if (ad < 1) ad = 1;
    uint64_t sc2 = ssum * pct / ad; if (sc2 < 13) sc2 = 13;
    CHECK(info.GetSecondaryScaling() == (uint32_t)sc2, "dma-scaling");
  }
  REACH("end");
}
HARNESS(dmaFullDiff) { dma(61, false, true, false); }
HARNESS(dmaFullScale) { dma(61, false, false, true); }
HARNESS(dmaShortDiff) { dma(v_choose("n", 1, 4), true, true, false); }
HARNESS(dmaShortScale) { dma(v_choose("n", 1, 4), true, false, true); }
