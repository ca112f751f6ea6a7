// Native replay of a solver counterexample: the harness, the repository's code and the stand-ins run
// as ordinary compiled code with the concrete values found by the solver.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
struct In { std::string name; std::vector<uint8_t> data; };
static std::vector<In> ins; static size_t pos;
struct Uf { uint32_t id; std::vector<uint8_t> in, out; };
static std::vector<Uf> ufs;
static int tier; static std::string want, entryName; static bool failed;
static std::vector<uint8_t> unhex(const std::string &h) { std::vector<uint8_t> r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), nullptr, 16)); return r; }
extern "C" {
void verif_make_symbolic(void *p, size_t n, const char *name) {
  if (pos < ins.size() && ins[pos].data.size() >= n) { memcpy(p, ins[pos].data.data(), n); }
  else memset(p, 0, n);
  pos++;
}
void verif_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _Exit(0); } }
void verif_check(bool c, const char *l) { if (!c) { printf("REPLAY-VIOLATION %s\n", l); fflush(stdout); failed = true; if (want == l) _Exit(1); } }
void verif_reach(const char *) {}
uint64_t verif_concretize(uint64_t v) { return v; }
int verif_is_native(void) { return 1; }
int verif_tier(void) { return tier; }
int verif_is_symbolic(uint64_t) { return 0; }
void verif_print(const char *s, uint64_t v) { printf("note %s %llu\n", s, (unsigned long long)v); }
void verif_silent_exit(int) { _Exit(failed ? 1 : 0); }
void verif_uf(uint32_t id, void *out, size_t outlen, const void *in, size_t inlen, int) {
  const uint8_t *b = (const uint8_t *)in;
  for (auto &u : ufs) if (u.id == id && u.in.size() == inlen && u.out.size() == outlen && (inlen == 0 || !memcmp(u.in.data(), b, inlen))) { memcpy(out, u.out.data(), outlen); return; }
  uint64_t h = 1469598103934665603ull ^ (id * 0x9E3779B97F4A7C15ull);
  auto mix = [&](uint8_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
  for (int i = 0; i < 4; i++) mix((uint8_t)((uint32_t)inlen >> (8 * i)));
  for (size_t i = 0; i < inlen; i++) mix(b[i]);
  uint8_t *o = (uint8_t *)out;
  for (size_t i = 0; i < outlen; i++) { if (i % 8 == 0) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h += i; } o[i] = (uint8_t)(h >> (8 * (i % 8))); }
}
static size_t allocLimit;
void verif_alloc_limit(uint64_t n) { allocLimit = n; }
void verif_fuel(uint64_t) {}
__attribute__((weak)) uint64_t verif_clock_ns() { return 1600000000ull * 1000000000ull; }
void VERIF_ENTRY();
}
static void *limited(size_t n) {
  if (allocLimit && n > allocLimit) { printf("REPLAY-VIOLATION memory-bounded %zu\n", n); fflush(stdout); _Exit(1); }
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return limited(n); }
void *operator new[](size_t n) { return limited(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static void onTerm() { printf("REPLAY-VIOLATION uncaught-exception\n"); fflush(stdout); _Exit(1); }
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "label") is >> want;
    else if (k == "tier") is >> tier;
    else if (k == "input") { In i; size_t n; std::string h; is >> i.name >> n >> h; i.data = unhex(h); ins.push_back(i); }
    else if (k == "uf") { Uf u; size_t a, b; std::string h1, h2; is >> u.id >> a >> h1 >> b >> h2; u.in = unhex(h1); u.out = unhex(h2); ufs.push_back(u); }
  }
  std::set_terminate(onTerm);
  VERIF_ENTRY();
  printf(failed ? "REPLAY-FAILED\n" : "REPLAY-OK\n"); fflush(stdout);
  _Exit(failed ? 1 : 0);
}
