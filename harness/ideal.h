#pragma once
// Constructors and predicates of the ideal group of stubs/secp.cpp, written independently of the code under check.
#include "verif.h"
#include <Core/Models/TransactionBody.h>
#include <Core/Models/Transaction.h>
#include <Core/Models/FullBlock.h>
extern bool ideal_concrete; void ideal_uf(unsigned id, unsigned char *out, size_t n, const unsigned char *in, size_t len, int inj);
namespace ideal {
inline void be(std::vector<uint8_t> &o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); }
inline Commitment commit(uint64_t v, uint64_t b) { std::vector<uint8_t> c; c.push_back(8); be(c, v, 8); be(c, b, 8); c.resize(33, 0); return Commitment(CBigInteger<33>(std::move(c))); }
inline RangeProof proof(uint64_t v, uint64_t b, uint8_t mark) { std::vector<uint8_t> c; be(c, v, 8); be(c, b, 8); c.push_back(mark); c.resize(20, 0); return RangeProof(std::move(c)); }
inline BlindingFactor blind(uint64_t b) { std::vector<uint8_t> c(24, 0); be(c, b, 8); return BlindingFactor(CBigInteger<32>(std::move(c))); }
inline SecretKey key(uint64_t b) { std::vector<uint8_t> c(24, 0); be(c, b, 8); return SecretKey(CBigInteger<32>(std::move(c))); }
inline Hash blake(const std::vector<uint8_t> &in) { uint8_t o[8]; ideal_uf(910, o, 8, in.data(), in.size(), 1); Hash h; for (int i = 0; i < 32; i++) h[i] = i < 4 ? o[i] : i >= 28 ? o[i - 24] : 0x5a; return h; }
// what a kernel signature signs
inline Hash message(uint8_t features, uint8_t shift, uint64_t fee, uint64_t lock) {
  std::vector<uint8_t> m; m.push_back(features);
  if (features != 1) { be(m, 0, 2); be(m, shift, 1); be(m, fee, 5); }
  if (features == 2) be(m, lock, 8);
  if (features == 3) be(m, lock, 2);
  return blake(m);
}
// a signature with nonce k and response s for the point (0, p), made over msg
inline Signature sign(uint64_t k, uint64_t s, uint64_t pv, uint64_t pb, const Hash &msg) {
  std::vector<uint8_t> in; be(in, 0, 8); be(in, k, 8); be(in, pv, 8); be(in, pb, 8); in.insert(in.end(), msg.data(), msg.data() + 32);
  std::vector<uint8_t> sig; be(sig, k, 8); be(sig, s, 8); uint8_t t[8]; ideal_uf(901, t, 8, in.data(), 64, 1); sig.insert(sig.end(), t, t + 8); sig.resize(64, 0);
  return Signature(CBigInteger<64>(std::move(sig)));
}
inline bool less(const Hash &a, const Hash &b) { return memcmp(a.data(), b.data(), 32) < 0; }
struct In { uint8_t f; uint64_t v, b; };
struct Out { uint8_t f; uint64_t v, b; bool proofOk; };
struct Ker { uint8_t f, shift; uint64_t fee, lock, v, b; bool sigOk; };
// a body of any content: every field symbolic
struct Body {
  std::vector<In> in; std::vector<Out> out; std::vector<Ker> ker;
  std::vector<TransactionInput> ti; std::vector<TransactionOutput> to; std::vector<TransactionKernel> tk;
  void make(size_t ni, size_t no, size_t nk, int mode = 0 /* 1: plain kernels, 2: no foreign signatures, 3: also the first kernel is a coinbase */) {
    for (size_t i = 0; i < ni; i++) { In x; x.f = v_u8("inFeatures") & 1; x.v = v_u16("inValue"); x.b = v_u16("inBlind"); in.push_back(x); ti.push_back(TransactionInput((EOutputFeatures)x.f, commit(x.v, x.b))); }
    for (size_t i = 0; i < no; i++) { Out x; x.f = v_u8("outFeatures") & 1; x.v = v_u16("outValue"); x.b = v_u16("outBlind"); x.proofOk = v_bool("proofOk"); out.push_back(x);
      to.push_back(TransactionOutput((EOutputFeatures)x.f, commit(x.v, x.b), proof(x.v, x.b, (uint8_t)x.proofOk))); }
    for (size_t i = 0; i < nk; i++) { Ker x; x.f = mode == 1 ? 0 : mode == 3 && i == 0 ? 1 : (uint8_t)v_choose("kernelFeatures", 0, 2); x.shift = v_u8("feeShift") & 15; x.fee = v_u64("fee") & 0xffffffffffull; x.lock = v_u64("lock"); x.v = 0; x.b = v_u16("excess"); bool good = v_bool("sigOk"); uint64_t k = v_u16("sigNonce");
      bool other = mode == 0 && v_fork("sigOther"); // signed over another message (fee, lock height or features changed)
      Hash msg = message(x.f, x.shift, x.fee, x.lock), m2 = msg; if (other) m2[31] ^= 1;
      x.sigOk = good & !other;
      uint64_t s = k + 3 * x.b + (good ? 0 : 1);
      ker.push_back(x); tk.push_back(TransactionKernel((EKernelFeatures)x.f, Fee(x.shift, x.fee), x.lock, commit(x.v, x.b), sign(k, s, 0, x.b, m2))); }
  }
  TransactionBody body() const { return TransactionBody::NoSort(ti, to, tk); }
  bool sorted() const { bool ok = true; for (size_t i = 1; i < ti.size(); i++) ok = ok & !less(ti[i].GetHash(), ti[i - 1].GetHash()); for (size_t i = 1; i < to.size(); i++) ok = ok & !less(to[i].GetHash(), to[i - 1].GetHash());
    for (size_t i = 1; i < tk.size(); i++) ok = ok & !less(tk[i].GetHash(), tk[i - 1].GetHash()); return ok; }
  bool inputsUnique() const { bool ok = true; for (size_t i = 0; i < in.size(); i++) for (size_t j = 0; j < i; j++) ok = ok & !((in[i].v == in[j].v) & (in[i].b == in[j].b)); return ok; }
  bool outputsUnique() const { bool ok = true; for (size_t i = 0; i < out.size(); i++) for (size_t j = 0; j < i; j++) ok = ok & !((out[i].v == out[j].v) & (out[i].b == out[j].b)); return ok; }
  bool cutThrough() const { bool ok = true; for (auto &a : in) for (auto &b : out) ok = ok & !((a.v == b.v) & (a.b == b.b)); return ok; }
  bool proofs() const { bool ok = true; for (auto &o : out) ok = ok & o.proofOk; return ok; }
  bool sigs() const { bool ok = true; for (auto &k : ker) ok = ok & k.sigOk; return ok; }
  uint64_t fees() const { uint64_t f = 0; for (auto &k : ker) f += k.f == 1 ? k.fee : k.fee; return f; }
};
}
