// comparisons of big integers as single formulas instead of a byte at a time (the originals are decided in S01 and S02)
#include <Crypto/Models/BigInteger.h>
template <size_t N> bool bigLess(const CBigInteger<N> &a, const CBigInteger<N> &b) { bool r = false; auto &x = a.GetData(), &y = b.GetData(); for (size_t i = N; i-- > 0;) r = (x[i] < y[i]) | ((x[i] == y[i]) & r); return r; }
template <size_t N> bool bigSame(const CBigInteger<N> &a, const CBigInteger<N> &b) { uint8_t r = 0; auto &x = a.GetData(), &y = b.GetData(); for (size_t i = 0; i < N; i++) r |= x[i] ^ y[i]; return r == 0; }
extern "C" bool big_lt32(const CBigInteger<32> &, const CBigInteger<32> &) asm("_ZNK11CBigIntegerILm32ESaIhEEltERKS1_"); extern "C" bool big_lt32(const CBigInteger<32> &a, const CBigInteger<32> &b) { return bigLess<32>(a, b); }
extern "C" bool big_eq32(const CBigInteger<32> &, const CBigInteger<32> &) asm("_ZNK11CBigIntegerILm32ESaIhEEeqERKS1_"); extern "C" bool big_eq32(const CBigInteger<32> &a, const CBigInteger<32> &b) { return bigSame<32>(a, b); }
extern "C" bool big_lt33(const CBigInteger<33> &, const CBigInteger<33> &) asm("_ZNK11CBigIntegerILm33ESaIhEEltERKS1_"); extern "C" bool big_lt33(const CBigInteger<33> &a, const CBigInteger<33> &b) { return bigLess<33>(a, b); }
extern "C" bool big_eq33(const CBigInteger<33> &, const CBigInteger<33> &) asm("_ZNK11CBigIntegerILm33ESaIhEEeqERKS1_"); extern "C" bool big_eq33(const CBigInteger<33> &a, const CBigInteger<33> &b) { return bigSame<33>(a, b); }
#include <string>
std::string verif_uuid(const unsigned char *id) asm("_ZN5uuids9to_stringIcSt11char_traitsIcESaIcEEENSt7__cxx1112basic_stringIT_T0_T1_EERKNS_4uuidE");
std::string verif_uuid(const unsigned char *id) { std::string r; for (int i = 0; i < 16; i++) { r.push_back("0123456789abcdef"[id[i] >> 4]); r.push_back("0123456789abcdef"[id[i] & 15]); if (i == 3 || i == 5 || i == 7 || i == 9) r.push_back('-'); } return r; }
