//@stubs env secp bigcmp
//@flags -fno-access-control
//@repo src/Core/Models/*.cpp src/Core/Traits/*.cpp src/Core/Validation/*.cpp src/Core/Global.cpp src/Common/**/*.cpp src/Crypto/Models/*.cpp src/Crypto/{Crypto,AggSig,Bulletproofs,Pedersen,PublicKeys}.cpp src/Wallet/{Wallet,WalletImpl,CancelTx,WalletRefresher}.cpp src/Wallet/Keychain/{KeyChain,KeyGenerator}.cpp src/Wallet/Models/Slate/*.cpp deps/jsoncpp/jsoncpp.cpp
//@bounds see W05
#include "wallet2.h"
#include <Wallet/Keychain/KeyChain.h>
#include <Wallet/Keychain/SeedEncrypter.h>
#include <Wallet/WalletDB/WalletStore.h>
#include <Wallet/WalletManager.h>
#include <Wallet/ForeignController.h>
struct SHasher { static Hash SHA256(const std::vector<uint8_t> &in) { uint8_t o[32] = { 0 }; verif_uf(950, o, 4, in.data(), in.size(), 0); return Hash(o); } };
static SecureVector theSeed; static const char *RIGHT = "right";
struct FakeEncrypter { static SecureVector DecryptWalletSeed(const EncryptedSeed &, const SecureString &p) { if (p != RIGHT) throw std::runtime_error("password"); return theSeed; } };
#define Hasher SHasher
#define SeedEncrypter FakeEncrypter
#include <Wallet/SessionManager.cpp>
#undef Hasher
#undef SeedEncrypter
static std::vector<std::string> listening; static bool leaveOpen;
struct ForeignController::Context {};
ForeignController::ForeignController(IWalletManager &m) : m_walletManager(m) {} ForeignController::~ForeignController() {}
std::pair<uint16_t, std::optional<TorAddress>> ForeignController::StartListener(const TorProcess::Ptr &, const std::string &u, const SessionToken &, const KeyChain &, const int) { listening.push_back(u); return { (uint16_t)7, std::nullopt }; }
bool ForeignController::StopListener(const std::string &u) { for (size_t i = 0; i < listening.size(); i++) if (listening[i] == u) { listening.erase(listening.begin() + i); return true; } return false; }
bool ForeignController::IsListening(const std::string &u) { for (auto &x : listening) if (x == u) return true; return false; }
SecureVector CSPRNG::GenerateRandomBytes(const size_t n) { auto v = v_bytes("random", n); return SecureVector(v.begin(), v.end()); }
uint64_t CSPRNG::GenerateRandom(const uint64_t, const uint64_t) { return v_u64("firstSession"); }
namespace {
struct Store : public IWalletStore {
  std::shared_ptr<ww::DB> db = std::make_shared<ww::DB>(); std::vector<std::string> closed; SecureVector opened;
  std::vector<GrinStr> GetAccounts() const override { return {}; }
  Locked<IWalletDB> OpenWallet(const std::string &, const SecureVector &s) override { opened = s; return Locked<IWalletDB>(std::static_pointer_cast<IWalletDB>(db)); }
  void CloseWallet(const std::string &u) override { closed.push_back(u); }
  Locked<IWalletDB> CreateWallet(const std::string &, const EncryptedSeed &) override { throw 1; } void DeleteWallet(const std::string &) override {} void ChangePassword(const std::string &, const EncryptedSeed &) override {}
  EncryptedSeed LoadWalletSeed(const std::string &u) const override { if (u != "alice" && u != "bob") throw std::runtime_error("unknown"); return EncryptedSeed(CBigInteger<16>(), CBigInteger<8>(), {}, ScryptParameters(1, 1, 1)); }
};
struct World {
  std::shared_ptr<Store> store = std::make_shared<Store>(); std::shared_ptr<ww::Node> node = std::make_shared<ww::Node>(); std::unique_ptr<SessionManager> m;
  World() { theSeed = SecureVector(16, 9); auto v = v_bytes("seed", 2); theSeed[0] = v[0]; theSeed[15] = v[1]; static int manager; m.reset(new SessionManager(ww::conf(), node, store, std::make_unique<ForeignController>(*(IWalletManager *)&manager))); }
  std::optional<SessionToken> login(const std::string &u, const char *p) { try { return m->Login(nullptr, u, SecureString(p)); } catch (const std::exception &) { return std::nullopt; } }
  std::optional<SecureVector> seed(const SessionToken &t) { try { return m->GetSeed(t); } catch (const std::exception &) { return std::nullopt; } }
  bool wallets(const SessionToken &t) { int n = 0; try { m->GetWallet(t); n++; } catch (const SessionTokenException &) {} try { m->GetWalletImpl(t); n++; } catch (const SessionTokenException &) {} CHECK(n != 1, "both-or-none"); return n == 2; }
};
bool eqv(const SecureVector &a, const SecureVector &b) { if (a.size() != b.size()) return false; uint8_t d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
}
#define SESSION World w; ww::keysUF = true;
HARNESS(token) { // the token of a login gives the seed, also when written as text and read back; any other token gives it only by guessing a checksum
  SESSION auto t = w.login("alice", RIGHT); verif_assume(t.has_value()); // derived keys are valid keys
  CHECK(eqv(w.store->opened, theSeed), "the-wallet-is-opened-with-its-seed");
  auto s = w.seed(*t); CHECK(s && eqv(*s, theSeed), "the-token-gives-the-seed"); CHECK(w.wallets(*t), "the-token-gives-the-wallet"); REACH("session");
}
HARNESS(otherToken) {
  SESSION auto t = w.login("alice", RIGHT); verif_assume(t.has_value()); // derived keys are valid keys
  size_t n = v_choose("size", 0, 24); std::vector<uint8_t> k = v_bytes("key", n); uint64_t id = v_u64("id"); SessionToken o(id, k); auto r = w.seed(o);
  if (id != t->GetSessionId()) { CHECK(!r && !w.wallets(o), "an-unknown-session-is-refused"); REACH("unknown"); return; }
  if (n != t->GetTokenKey().size()) { CHECK(!r, "a-token-of-another-length-is-refused"); REACH("length"); return; }
  std::vector<uint8_t> d(16), sum(4); for (size_t i = 0; i < 16; i++) d[i] = theSeed[i] ^ t->GetTokenKey()[i] ^ k[i]; Hash a = SHasher::SHA256(std::vector<uint8_t>(theSeed.begin(), theSeed.end())), b = SHasher::SHA256(d); uint8_t x = 0; for (int i = 0; i < 4; i++) x |= a[i] ^ t->GetTokenKey()[16 + i] ^ k[16 + i] ^ b[i];
  CHECK(r.has_value() == (x == 0), "another-key-is-refused"); if (r) CHECK(eqv(*r, SecureVector(d.begin(), d.end())), "another-key-is-refused"); else REACH("refused");
}
HARNESS(wrongPassword) {
  SESSION bool known = v_bool("known"); CHECK(!w.login(known ? "alice" : "eve", known ? "rihgt" : RIGHT), "a-wrong-password-does-not-log-in"); CHECK(w.m->m_sessionsById.empty() && listening.empty(), "no-session-is-left"); bool ok = false; try { w.m->Authenticate("alice", SecureString("wrong")); ok = true; } catch (const std::exception &) {} CHECK(!ok, "a-wrong-password-is-refused"); try { w.m->GetSeed("alice", SecureString("wrong")); ok = true; } catch (const std::exception &) {} CHECK(!ok, "a-wrong-password-is-refused");
  try { w.m->Authenticate("alice", SecureString(RIGHT)); ok = eqv(w.m->GetSeed("alice", SecureString(RIGHT)), theSeed); } catch (const std::exception &) {} CHECK(ok, "the-password-gives-the-seed"); REACH("done");
}
HARNESS(logout) { // up to three logins of two users, logged out in any order, some twice
  World w; theSeed = SecureVector(16, 9); std::vector<SessionToken> ts; std::vector<std::string> us; std::vector<bool> open; uint64_t n = v_choose("logins", 1, 3); for (uint64_t i = 0; i < n; i++) { us.push_back(v_choose("user", 0, 1) ? "alice" : "bob"); auto t = w.login(us[i], RIGHT); CHECK(t.has_value(), "the-password-logs-in"); ts.push_back(*t); open.push_back(true); }
  for (uint64_t k = 0; k < n; k++) { uint64_t i = v_choose("out", 0, n - 1); w.m->Logout(ts[i]); open[i] = false; for (uint64_t j = 0; j < n; j++) { auto s = w.seed(ts[j]); CHECK(s.has_value() == open[j] && w.wallets(ts[j]) == open[j], "only-open-sessions-give-the-wallet"); if (s) CHECK(eqv(*s, theSeed), "only-open-sessions-give-the-wallet"); }
    for (auto u : { "alice", "bob" }) { size_t a = 0, b = 0; for (uint64_t j = 0; j < n; j++) a += open[j] && us[j] == u; for (auto &x : listening) b += x == u; CHECK(a == b, "a-user-listens-while-logged-in"); if (a) for (auto &c : w.store->closed) CHECK(c != u, "a-wallet-in-use-stays-open"); } }
  REACH("done"); listening.clear();
}
HARNESS(text) { size_t n = v_choose("size", 0, 6); std::vector<uint8_t> k(n, 0xa7); uint64_t id = 0x1122334455667788ull; size_t at = v_choose("at", 0, 7 + n); uint8_t x = v_u8("byte"); if (at < 8) id = (id & ~(255ull << 8 * at)) | (uint64_t)x << 8 * at; else k[at - 8] = x; SessionToken t(id, k); SessionToken u = SessionToken::FromBase64(t.ToBase64()); uint8_t d = u.GetTokenKey().size() != n; for (size_t i = 0; i < n && !d; i++) d |= k[i] ^ u.GetTokenKey()[i]; CHECK(u.GetSessionId() == id && d == 0, "a-token-comes-back-from-text"); REACH("text"); }
