// Hash functions as injective uninterpreted functions of their whole input: the solver may choose
// any collision-free hash. Of a 32-byte Blake2b hash the first and last four bytes vary.
#include <Crypto/Hasher.h>
#include <cstring>
#include "../harness/verif.h"
namespace vhash { int injective = 1; }  // harnesses that only compare with a reference turn this off: an arbitrary function
extern "C" int crypto_generichash_blake2b(unsigned char *out, size_t outlen, const unsigned char *in, unsigned long long inlen, const unsigned char *key, size_t keylen) {
  if (keylen == 0) {
    if (outlen == 32) { uint8_t h[8]; verif_uf(910, h, 8, in, inlen, vhash::injective); memset(out, 0x5a, 32); if (vhash::injective) { memcpy(out, h, 4); memcpy(out + 28, h + 4, 4); } else memcpy(out + 12, h, 8); return 0; }
    verif_uf(910, out, outlen, in, inlen, vhash::injective); return 0;
  }
  std::vector<uint8_t> b(1 + keylen + inlen);
  b[0] = (uint8_t)keylen; memcpy(b.data() + 1, key, keylen); if (inlen) memcpy(b.data() + 1 + keylen, in, inlen);
  verif_uf(911, out, outlen, b.data(), b.size(), 1); return 0;
}
Hash Hasher::SHA256(const uint8_t *in, const size_t len) { Hash r; verif_uf(912, r.data(), 32, in, len, 1); return r; }
CBigInteger<64> Hasher::SHA512(const uint8_t *in, const size_t len) { CBigInteger<64> r; verif_uf(913, r.data(), 64, in, len, 1); return r; }
CBigInteger<20> Hasher::RipeMD160(const uint8_t *in, const size_t len) { CBigInteger<20> r; verif_uf(914, r.data(), 20, in, len, 1); return r; }
Hash Hasher::HMAC_SHA256(const uint8_t *key, const size_t klen, const uint8_t *in, const size_t len) {
  std::vector<uint8_t> b(1 + klen + len); b[0] = (uint8_t)klen; if (klen) memcpy(b.data() + 1, key, klen); if (len) memcpy(b.data() + 1 + klen, in, len);
  Hash r; verif_uf(915, r.data(), 32, b.data(), b.size(), 1); return r;
}
CBigInteger<64> Hasher::HMAC_SHA512(const std::vector<uint8_t> &key, const uint8_t *in, const size_t len) {
  std::vector<uint8_t> b(1 + key.size() + len); b[0] = (uint8_t)key.size(); if (key.size()) memcpy(b.data() + 1, key.data(), key.size()); if (len) memcpy(b.data() + 1 + key.size(), in, len);
  CBigInteger<64> r; verif_uf(916, r.data(), 64, b.data(), b.size(), 1); return r;
}
uint64_t Hasher::SipHash24(const uint64_t k0, const uint64_t k1, const std::vector<unsigned char> &data) {
  std::vector<uint8_t> b(16 + data.size()); memcpy(b.data(), &k0, 8); memcpy(b.data() + 8, &k1, 8); if (data.size()) memcpy(b.data() + 16, data.data(), data.size());
  uint64_t r; verif_uf(917, &r, 8, b.data(), b.size(), 0); return r;
}
