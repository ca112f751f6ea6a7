// C library functions for the symbolic executor (compiled with -fno-builtin).
typedef unsigned long size_t; typedef unsigned int uint32_t; typedef unsigned short uint16_t; typedef _Bool bool;
#define true 1
#define false 0
#define nullptr ((void*)0)
int *__errno_location(void);
#define ERANGE 34
#define errno (*__errno_location())
int isdigit(int c); int isalpha(int c); int isxdigit(int c); int isupper(int c); int islower(int c); int isprint(int c); int isalnum(int c);
long strtol(const char *s, char **e, int b); unsigned long strtoul(const char *s, char **e, int b);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) break; } return 0; }
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *q = (const unsigned char *)p; unsigned char d = (unsigned char)c;
  if (n <= 64 && verif_is_symbolic(d)) { // one branch for all positions
    size_t at = n; unsigned any = 0; for (size_t i = n; i-- > 0;) { unsigned e = q[i] == d; any |= e; at = at * (1 - e) + i * e; } return any ? (void *)(q + at) : nullptr;
  }
  for (size_t i = 0; i < n; i++) if (q[i] == d) return (void *)(q + i); return nullptr; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static unsigned long long parseU(const char *s, char **end, int base, bool sgn, unsigned long long maxPos, unsigned long long maxNeg, bool *neg, bool *ovf) {
  const char *p = s; while (isspace(*p)) p++;
  *neg = false; *ovf = false;
  if (*p == '+') p++; else if (*p == '-') { *neg = true; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit(p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false;
  unsigned long long lim = *neg ? maxNeg : maxPos;
  for (;; p++) {
    int d; char c = *p;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    any = true;
    if (!*ovf) { if (v > (lim - d) / base) { *ovf = true; v = lim; } else v = v * base + d; }
  }
  if (end) *end = (char *)(any ? p : s);
  return v;
}
long strtol(const char *s, char **e, int b) { bool n, o; unsigned long long v = parseU(s, e, b, true, 0x7fffffffffffffffull, 0x8000000000000000ull, &n, &o); if (o) errno = ERANGE; return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { bool n, o; unsigned long long v = parseU(s, e, b, false, ~0ull, ~0ull, &n, &o); if (o) errno = ERANGE; if (o) return ~0ull; return n ? 0 - v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
int pthread_once(int *o, void (*f)(void)) { if (!*(int *)o) { *(int *)o = 1; f(); } return 0; }
// read-write locks: taking one that the (only) thread already holds exclusively, or exclusively one it already shares, never returns
int verif_lock_check = 0;
struct rwl { int writer, readers; };
static void held(void) { if (verif_lock_check) verif_check(false, "deadlock"); }
int pthread_rwlock_rdlock(struct rwl *l) { if (l->writer) held(); l->readers++; return 0; }
int pthread_rwlock_wrlock(struct rwl *l) { if (l->writer || l->readers) held(); l->writer++; return 0; }
int pthread_rwlock_tryrdlock(struct rwl *l) { if (l->writer && verif_lock_check) return 16; l->readers++; return 0; }
int pthread_rwlock_trywrlock(struct rwl *l) { if ((l->writer || l->readers) && verif_lock_check) { held(); return 0; } l->writer++; return 0; }
int pthread_rwlock_unlock(struct rwl *l) { if (l->writer) l->writer--; else if (l->readers) l->readers--; return 0; }
char *getenv(const char *n) { return nullptr; }
unsigned int sleep(unsigned int n) { return 0; }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
