//@stubs env bigcmp
//@flags -fno-access-control
//@repo src/Core/Traits/*.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Wallet/Keychain/Mnemonic.cpp
//@bounds see W05
#include "verif.h"
#include "env.h"
#include <Crypto/Hasher.h>
#include <Wallet/Keychain/Mnemonic.h>
#include <Wallet/Keychain/WordList.h>
#include <cstring>
static uint8_t mixed(const uint8_t *p, size_t n) { uint8_t h = 0x5b; for (size_t i = 0; i < n; i++) h = (uint8_t)((h << 1 | h >> 7) ^ p[i]); return h; }
Hash Hasher::SHA256(const uint8_t *in, const size_t n) { uint8_t o[32] = { 0 }; o[0] = mixed(in, n); return Hash(o); } Hash Hasher::SHA256(const std::vector<uint8_t> &in) { return SHA256(in.data(), in.size()); }
extern "C" int mlock(const void *, size_t) { return 0; } extern "C" int munlock(const void *, size_t) { return 0; }
static std::string phrase(const std::vector<unsigned> &w) { std::string s; for (size_t i = 0; i < w.size(); i++) { if (i) s += " "; s += w[i] == 2048 ? "zebras" : WORD_LIST[w[i]]; } return s; }
// the entropy and checksum bits of BIP 39, most significant first
static std::vector<unsigned> bip39(const std::vector<uint8_t> &e) { std::vector<uint8_t> b = e; b.push_back(mixed(e.data(), e.size())); std::vector<unsigned> w; size_t words = e.size() * 3 / 4; for (size_t i = 0; i < words; i++) { unsigned v = 0; for (size_t k = 0; k < 11; k++) { size_t at = i * 11 + k; v = v << 1 | (b[at / 8] >> (7 - at % 8) & 1); } w.push_back(v); } return w; }
HARNESS(wordsRoundTrip) {
  size_t n = 16 + 4 * v_choose("size", 0, 4); std::vector<uint8_t> e(n); uint8_t pat = v_fork("pattern") ? 0xff : 0; for (size_t i = 0; i < n; i++) e[i] = pat ? (uint8_t)~(i * 11) : (uint8_t)(i * 37 + 1);
  static const int at[] = { 0, 1, 2, 5, 7, 10, 13, 14, 15 }; size_t p = v_choose("place", 0, verif_tier() ? 8 : 3); p = p == 3 && !verif_tier() ? n - 1 : (size_t)at[p]; uint8_t nib = (uint8_t)v_choose("nibble", 0, 15); e[p] = v_fork("high") ? (uint8_t)(nib << 4 | (e[p] & 15)) : (uint8_t)(nib | (e[p] & 0xf0));
  SecureString w = Mnemonic::CreateMnemonic(e.data(), n); std::string want = phrase(bip39(e)); CHECK(std::string(w.c_str()) == want, "the-words-of-the-seed"); bool ok = true; SecureVector r; try { r = Mnemonic::ToEntropy(w); } catch (...) { ok = false; } CHECK(ok, "the-words-are-read"); if (!ok) return; CHECK(r.size() == n && memcmp(r.data(), e.data(), n) == 0, "the-words-give-the-seed-back"); REACH("read");
}
// any list of words: read exactly when the count, the words and the checksum are right, and then as the entropy bits say
HARNESS(wordsAny) {
  static const unsigned counts[] = { 0, 3, 9, 11, 12, 13, 14, 15, 18, 21, 23, 24, 25, 27 }; size_t n = counts[v_choose("count", 0, 13)]; std::vector<unsigned> w(n); for (size_t i = 0; i < n; i++) w[i] = (unsigned)(i * 151 + 3) % 2048; if (n) { size_t p = v_choose("place", 0, 2); p = p == 0 ? 0 : p == 1 ? n / 2 : n - 1; unsigned j = (unsigned)v_choose("word", 0, 16); w[p] = j == 16 ? 2048 : j * 131 + 5; }
  bool good = n >= 12 && n <= 24 && n % 3 == 0; for (auto x : w) good = good && x < 2048; std::vector<uint8_t> e; if (good) { std::vector<uint8_t> bits; for (auto x : w) for (int k = 10; k >= 0; k--) bits.push_back(x >> k & 1); size_t len = n * 4 / 3; for (size_t i = 0; i < len; i++) { uint8_t v = 0; for (int k = 0; k < 8; k++) v = (uint8_t)(v << 1 | bits[i * 8 + k]); e.push_back(v); } uint8_t c = 0; for (size_t k = len * 8; k < bits.size(); k++) c = (uint8_t)(c << 1 | bits[k]); good = c == mixed(e.data(), e.size()) >> (8 - n / 3); }
  std::string s = phrase(w); bool ok = true, odd = false; SecureVector r; try { r = Mnemonic::ToEntropy(SecureString(s.c_str())); } catch (const std::exception &) { ok = false; } catch (...) { odd = true; } CHECK(!odd, "refusals-are-exceptions"); CHECK(ok == good, "read-exactly-when-the-checksum-fits"); if (ok && good) { CHECK(r.size() == e.size() && memcmp(r.data(), e.data(), e.size()) == 0, "the-words-give-the-seed"); REACH("read"); } else REACH("refused");
}
