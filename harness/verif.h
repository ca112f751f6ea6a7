#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <array>
extern "C" {
void verif_make_symbolic(void *p, size_t n, const char *name);
void verif_assume(bool c);
void verif_check(bool c, const char *label);
void verif_reach(const char *label);
uint64_t verif_concretize(uint64_t v);
int verif_is_native(void);
int verif_tier(void);
int verif_is_symbolic(uint64_t v);
void verif_print(const char *s, uint64_t v);
void verif_uf(uint32_t id, void *out, size_t outlen, const void *in, size_t inlen, int injective);
void verif_silent_exit(int);
// any single allocation above n bytes from here on is reported as 'memory-bounded'
void verif_alloc_limit(uint64_t n);
// a path still running n instructions from here is reported as 'terminates'
void verif_fuel(uint64_t n);
}
template <class T> static inline T verif_any(const char *name) { T t; verif_make_symbolic(&t, sizeof t, name); return t; }
static inline uint64_t v_u64(const char *n) { return verif_any<uint64_t>(n); }
static inline uint32_t v_u32(const char *n) { return verif_any<uint32_t>(n); }
static inline uint16_t v_u16(const char *n) { return verif_any<uint16_t>(n); }
static inline uint8_t v_u8(const char *n) { return verif_any<uint8_t>(n); }
static inline bool v_bool(const char *n) { return (verif_any<uint8_t>(n) & 1) != 0; }
// symbolic value in [lo, hi]
static inline uint64_t v_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = v_u64(n); verif_assume(v >= lo && v <= hi); return v; }
// concrete choice in [lo, hi]: the executor explores each value
static inline uint64_t v_choose(const char *n, uint64_t lo, uint64_t hi) { return verif_concretize(v_range(n, lo, hi)); }
static inline bool v_fork(const char *n) { return v_choose(n, 0, 1) == 1; }
static inline std::vector<uint8_t> v_bytes(const char *n, size_t len) { std::vector<uint8_t> v(len); if (len) verif_make_symbolic(v.data(), len, n); return v; }
#define CHECK(c, label) verif_check((bool)(c), label)
#define REACH(label) verif_reach(label)
// harness entry point (_T: thorough tier only, _Q: quick tier only)
#define HARNESS(name) extern "C" void H_##name()
#define HARNESS_T(name) HARNESS(name)
#define HARNESS_Q(name) HARNESS(name)
// runs f; true when it threw an exception derived from std::exception or any type
template <class F> static bool v_throws(F f) { try { f(); return false; } catch (...) { return true; } }
