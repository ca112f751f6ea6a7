//@stubs env hash
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/PoW/*.cpp
#include "verif.h"
#include <PoW/uint128.h>
HARNESS(division) {
  // scaled difficulty (w << 64) divided by a 64-bit hash prefix
  uint64_t w = v_choose("weight", 0, verif_tier() ? 2 : 0) * 8000 + 384, base = 1ull << (v_choose("magnitude", 0, 3) * 20);
  uint64_t h = base + v_u64("hash") % (verif_tier() ? 64 : 2);
  uint128_t q = (uint128_t(w) << 64) / uint128_t(h);
  unsigned __int128 x = ((unsigned __int128)q.upper() << 64) | q.lower(), n = (unsigned __int128)w << 64;
  CHECK(x == n / h, "quotient");
  CHECK((q < UINT64_MAX) == (n / h < UINT64_MAX), "compare");
  REACH("end");
}
