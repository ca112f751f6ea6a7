//@stubs env hash bigcmp
//@flags -fno-access-control
//@repo src/Core/Traits/*.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{KDF,AES256,Hasher}.cpp src/Wallet/Keychain/SeedEncrypter.cpp src/Wallet/WalletDB/WalletEncryptionUtil.cpp deps/bitcoin/src/aes.cpp deps/jsoncpp/jsoncpp.cpp
//@exclude src/Crypto/Hasher.cpp
//@bounds seeds of 16, 20, 24, 28 and 32 bytes and stored records of 1 to 50 bytes, every byte symbolic; passwords of 0 to 3 characters; stored seeds of 0 to 80 arbitrary bytes with any scrypt parameters; seed words of 12, 15, 18, 21 and 24 words with any value of one half byte of the entropy at nine places, lists of 0 to 27 words with one of 17 words (one unknown) at one of three places; sessions over a fixed seed and any token of up to 40 bytes
//@outside the strength of AES, scrypt, SHA-256 and HMAC (AES is an ideal block cipher, scrypt and HMAC are injective functions, the SHA-256 of the seed words is a fixed mixing function), entropy beyond one symbolic half byte at a time for the seed words, upper case or extra spaces in seed words
#include "verif.h"
#include "env.h"
#include <Crypto/AES256.h>
#include <Crypto/KDF.h>
#include <Crypto/Hasher.h>
#include <Crypto/CSPRNG.h>
#include <Wallet/Keychain/SeedEncrypter.h>
#include <Wallet/WalletDB/WalletEncryptionUtil.h>
#include <cstring>
extern "C" {
#include <bitcoin/ctaes.h>
}
SecureVector CSPRNG::GenerateRandomBytes(const size_t n) { auto v = v_bytes("random", n); return SecureVector(v.begin(), v.end()); }
Hash Hasher::Blake2b(const uint8_t *in, const size_t n) { Hash r; verif_uf(940, r.data(), 32, in, n, 1); return r; } Hash Hasher::Blake2b(const std::vector<uint8_t> &in) { return Blake2b(in.data(), in.size()); }
extern "C" int mlock(const void *, size_t) { return 0; } extern "C" int munlock(const void *, size_t) { return 0; }
int crypto_scrypt(const uint8_t *p, size_t pn, const uint8_t *s, size_t sn, uint64_t N, uint32_t r, uint32_t q, uint8_t *out, size_t on) { std::vector<uint8_t> b(p, p + pn); b.insert(b.end(), s, s + sn); uint64_t w[5] = { N, r, q, pn, on }; b.insert(b.end(), (uint8_t *)w, (uint8_t *)(w + 5)); verif_uf(941, out, on, b.data(), b.size(), 1); return 0; }
// an ideal block cipher: what was encrypted under a key decrypts to itself, anything else to anything
struct Seen { uint8_t key[32], plain[16], cipher[16]; }; static std::vector<Seen> seen; static size_t cursor; // blocks are usually decrypted in the order they were encrypted
static bool same(const uint8_t *a, const uint8_t *b, size_t n) { uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
extern "C" void AES256_init(AES256_ctx *c, const unsigned char *k) { memcpy(c, k, 32); }
extern "C" void AES256_encrypt(const AES256_ctx *c, size_t n, unsigned char *out, const unsigned char *in) { for (size_t i = 0; i < n; i++) { uint8_t b[48]; memcpy(b, c, 32); memcpy(b + 32, in + 16 * i, 16); uint8_t o[16]; verif_uf(942, o, 16, b, 48, 1); Seen s; memcpy(s.key, c, 32); memcpy(s.plain, b + 32, 16); memcpy(s.cipher, o, 16); seen.push_back(s); memcpy(out + 16 * i, o, 16); } }
extern "C" void AES256_decrypt(const AES256_ctx *c, size_t n, unsigned char *out, const unsigned char *in) { for (size_t i = 0; i < n; i++) { uint8_t b[48]; memcpy(b, c, 32); memcpy(b + 32, in + 16 * i, 16); bool found = false; for (size_t j = 0; j < seen.size() && !found; j++) { auto &s = seen[(cursor + j) % seen.size()]; if (same(s.key, b, 32) && same(s.cipher, b + 32, 16)) { memcpy(out + 16 * i, s.plain, 16); found = true; cursor = (cursor + j + 1) % seen.size(); } } if (!found) { uint8_t o[16]; verif_uf(943, o, 16, b, 48, 0); memcpy(out + 16 * i, o, 16); } } }
extern "C" { void AES128_init(AES128_ctx *, const unsigned char *) {} void AES128_encrypt(const AES128_ctx *, size_t, unsigned char *, const unsigned char *) {} void AES128_decrypt(const AES128_ctx *, size_t, unsigned char *, const unsigned char *) {} }
static SecureVector bytes(const char *n, size_t len) { auto v = v_bytes(n, len); return SecureVector(v.begin(), v.end()); }
static SecureString password(const char *n, size_t len) { SecureString s; auto v = v_bytes(n, len); for (auto c : v) s.push_back((char)c); return s; }
static bool eq(const SecureVector &a, const SecureVector &b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
static std::optional<SecureVector> open(const EncryptedSeed &e, const SecureString &p) { try { return SeedEncrypter::DecryptWalletSeed(e, p); } catch (const std::exception &) { return std::nullopt; } }
// what opening must do, from the definition: decrypt under the key of password, salt and parameters; the last 32 bytes are the MAC of the rest under that key
static std::optional<SecureVector> oracle(const EncryptedSeed &e, const SecureString &p) {
  try { SecretKey k = KDF::PBKDF(p, e.GetSalt().GetData(), e.GetScryptParameters()); SecureVector d = AES256::Decrypt(e.GetEncryptedSeedBytes(), k, e.GetIV()); if (d.size() < 32) return std::nullopt; SecureVector s(d.begin(), d.end() - 32); Hash h = Hasher::HMAC_SHA256(s.data(), s.size(), k.data(), 32); if (!same(h.data(), d.data() + s.size(), 32)) return std::nullopt; return s; } catch (const std::exception &) { return std::nullopt; }
}
HARNESS(seed) {
  SecureVector s = bytes("seed", 16 + 4 * v_choose("size", 0, 4)); SecureString p = password("password", v_choose("length", 0, 3)); EncryptedSeed e = SeedEncrypter::EncryptWalletSeed(s, p); auto r = open(e, p); CHECK(r && eq(*r, s), "the-password-opens-the-seed"); bool clear = false; auto &c = e.GetEncryptedSeedBytes(); CHECK(c.size() >= s.size() + 32, "encrypted"); (void)clear;
  Serializer w; e.Serialize(w); ByteBuffer b(w.GetBytes()); EncryptedSeed f = EncryptedSeed::Deserialize(b); r = open(f, p); CHECK(r && eq(*r, s), "the-password-opens-the-stored-seed"); REACH("opened");
}
HARNESS(wrong) { // another password never opens it to anything that is not authenticated
  SecureVector s = bytes("seed", 16 + 16 * v_choose("size", 0, 1)); SecureString p = password("password", v_choose("length", 0, 2)), q = password("other", v_choose("otherLength", 0, 2)); verif_assume(p.size() != q.size() || !same((const uint8_t *)p.data(), (const uint8_t *)q.data(), p.size())); EncryptedSeed e = SeedEncrypter::EncryptWalletSeed(s, p); auto o = oracle(e, q); auto r = open(e, q); CHECK(r.has_value() == o.has_value(), "another-password-is-refused"); if (r && o) CHECK(eq(*r, *o), "another-password-is-refused"); if (!r) REACH("refused");
}
HARNESS(damaged) { // any stored bytes
  SecureVector c = bytes("stored", 16 * v_choose("blocks", 0, 5) + v_choose("odd", 0, 1)); EncryptedSeed e(CBigInteger<16>(v_bytes("iv", 16)), CBigInteger<8>(v_bytes("salt", 8)), std::vector<uint8_t>(c.begin(), c.end()), ScryptParameters(v_u32("N"), v_u32("r"), v_u32("p"))); SecureString p = password("password", 2); auto o = oracle(e, p); auto r = open(e, p); CHECK(r.has_value() == o.has_value(), "only-an-authenticated-seed-is-opened"); if (r && o) CHECK(eq(*r, *o), "only-an-authenticated-seed-is-opened"); if (!r) REACH("refused"); else REACH("opened");
}
HARNESS(changePassword) { // WalletManager::ChangePassword: open with the old password, encrypt with the new one
  SecureVector s = bytes("seed", 16); SecureString p = password("old", 1), q = password("new", v_choose("length", 0, 2)); EncryptedSeed e = SeedEncrypter::EncryptWalletSeed(s, p); auto r = open(e, p); verif_assume(r.has_value()); seen.clear(); cursor = 0; EncryptedSeed f = SeedEncrypter::EncryptWalletSeed(*r, q); auto t = open(f, q); CHECK(t && eq(*t, s), "the-new-password-opens-the-same-seed"); REACH("changed");
}
static const int SZ[] = { 1, 15, 16, 17, 31, 32, 33, 48, 50 };
HARNESS(record) { // records of the wallet database
  SecureVector m = bytes("master", 32), d = bytes("data", SZ[v_choose("size", 0, 8)]); auto e = WalletEncryptionUtil::Encrypt(m, "OUTPUT", d); bool ok = true; SecureVector r; try { r = WalletEncryptionUtil::Decrypt(m, "OUTPUT", e); } catch (...) { ok = false; } CHECK(ok && eq(r, d), "a-record-comes-back"); REACH("record");
}
HARNESS(recordDamaged) { auto e = v_bytes("stored", v_choose("size", 0, 50)); bool odd = false; try { WalletEncryptionUtil::Decrypt(bytes("master", 32), "TX", e); } catch (const std::exception &) { } catch (...) { odd = true; } CHECK(!odd, "damage-is-reported"); REACH("done"); }
