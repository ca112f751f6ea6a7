//@stubs env hash secp
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
//@bounds two batches of up to two (quick) or three (thorough) proofs each, on one verifier instance; every commitment value and every proof content drawn from the ideal proof system (value, blinding factor, validity mark and trailing byte symbolic), proof lengths 20 or 72 bytes
//@outside the proof system itself (libsecp256k1-zkp, replaced by an ideal one); eviction after 3000 entries
#include "verif.h"
#include "env.h"
#include "Bulletproofs.h"
#include <Core/Exceptions/CryptoException.h>
static Commitment commit(uint64_t v, uint64_t b) { std::vector<uint8_t> c(33, 0); c[0] = 8; for (int i = 0; i < 8; i++) { c[1 + i] = (uint8_t)(v >> (56 - 8 * i)); c[9 + i] = (uint8_t)(b >> (56 - 8 * i)); } return Commitment(CBigInteger<33>(std::move(c))); }
static RangeProof proof(uint64_t v, uint64_t b, uint8_t mark, uint8_t tail, size_t len) { std::vector<uint8_t> c(len, 0); for (int i = 0; i < 8; i++) { c[i] = (uint8_t)(v >> (56 - 8 * i)); c[8 + i] = (uint8_t)(b >> (56 - 8 * i)); } c[16] = mark; c[len - 1] = tail; return RangeProof(std::move(c)); }
static void batch(Bulletproofs &bp, size_t n) {
  std::vector<std::pair<Commitment, RangeProof>> v; bool want = true; size_t first = 0;
  for (size_t i = 0; i < n; i++) {
    uint64_t cv = v_u8("value"), cb = v_u8("blind"), pv = v_u8("proofValue"), pb = v_u8("proofBlind"); uint8_t m = v_u8("mark"), t = v_u8("tail");
    size_t len = v_fork("short") ? 20 : 72; if (i == 0) first = len;
    v.push_back({ commit(cv, cb), proof(pv, pb, m, t, len) });
    want = want & (cv == pv) & (cb == pb) & (m == 1) & (t != 0xEE) & (len == first);
  }
  bool r;
  try { r = bp.VerifyBulletproofs(v); } catch (const CryptoException &) { r = false; }
  CHECK(r == want, "verdict-independent-of-history");
  if (r) REACH("valid"); else REACH("invalid");
}
HARNESS(cache) {
  Bulletproofs bp;
  batch(bp, v_choose("n1", 0, verif_tier() ? 3 : 2)); batch(bp, v_choose("n2", 0, verif_tier() ? 3 : 2));
  if (verif_tier()) batch(bp, 1);
}
