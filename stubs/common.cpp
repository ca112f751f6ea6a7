// Logging is switched off: messages are not part of any property.
#include <Common/Logger.h>
namespace LoggerAPI {
void Initialize(const fs::path &, const std::string &) {}
void Shutdown() {}
void SetThreadName(const std::string &) {}
bool WillLog(const LogFile, const LogLevel) { return false; }
void LogTrace(const std::string &) {}
void LogDebug(const std::string &) {}
void LogInfo(const std::string &) {}
void LogWarning(const std::string &) {}
void LogError(const std::string &) {}
void Flush() {}
void Log(const LogFile, const LogLevel, const std::string &) {}
void LogTrace(const LogFile, const std::string &, const size_t, const std::string &) {}
void LogDebug(const LogFile, const std::string &, const size_t, const std::string &) {}
void LogInfo(const LogFile, const std::string &, const size_t, const std::string &) {}
void LogWarning(const LogFile, const std::string &, const size_t, const std::string &) {}
void LogError(const LogFile, const std::string &, const size_t, const std::string &) {}
}
// std::ostringstream and std::locale are outside what the executor runs: hexadecimal formatting and
// ASCII case conversion are replaced by definitions with the same result.
#include <Crypto/Models/BigInteger.h>
#include <string>
static std::string hexOf(const uint8_t *p, size_t n) {
  std::string s; s.resize(2 * n);
  for (size_t i = 0; i < n; i++) {
    uint8_t h = p[i] >> 4, l = p[i] & 15;
    s[2 * i] = (char)('0' + h + (uint8_t)((h > 9) * 39)); s[2 * i + 1] = (char)('0' + l + (uint8_t)((l > 9) * 39));
  }
  return s;
}
template <> std::string CBigInteger<4>::ToHex() const { return hexOf(m_data.data(), 4); }
template <> std::string CBigInteger<6>::ToHex() const { return hexOf(m_data.data(), 6); }
template <> std::string CBigInteger<8>::ToHex() const { return hexOf(m_data.data(), 8); }
template <> std::string CBigInteger<12>::ToHex() const { return hexOf(m_data.data(), 12); }
template <> std::string CBigInteger<16>::ToHex() const { return hexOf(m_data.data(), 16); }
template <> std::string CBigInteger<20>::ToHex() const { return hexOf(m_data.data(), 20); }
template <> std::string CBigInteger<32>::ToHex() const { return hexOf(m_data.data(), 32); }
template <> std::string CBigInteger<33>::ToHex() const { return hexOf(m_data.data(), 33); }
template <> std::string CBigInteger<64>::ToHex() const { return hexOf(m_data.data(), 64); }
#include <Common/Secure.h>
template <> std::string CBigInteger<32, secure_allocator<unsigned char>>::ToHex() const { return hexOf(m_data.data(), 32); }
template <> std::string CBigInteger<64, secure_allocator<unsigned char>>::ToHex() const { return hexOf(m_data.data(), 64); }
std::string verif_tolower(const std::string &s) asm("_ZN10StringUtil7ToLowerERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
std::string verif_tolower(const std::string &s) { std::string o = s; for (char &c : o) c = (char)(c + ((c >= 'A') & (c <= 'Z')) * 32); return o; }
std::string verif_toupper(const std::string &s) asm("_ZN10StringUtil7ToUpperERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
std::string verif_toupper(const std::string &s) { std::string o = s; for (char &c : o) c = (char)(c - ((c >= 'a') & (c <= 'z')) * 32); return o; }
