// Ideal group model behind the libsecp256k1-zkp interface.
//
// A group element is the pair (v, b) standing for v*H + b*G, both taken modulo 2^64; a scalar is the
// 64-bit number in the last 8 bytes of its 32-byte encoding (the other 24 bytes are zero). Sums are
// exact, commitments are binding by construction (equal encodings iff equal pairs) and a signature is
// valid exactly when it was made by the key for that message, nonce sum and key sum.
#include <secp256k1-zkp/secp256k1.h>
#include <string.h>
#include "../harness/verif.h"
// hashes inside the group: any injective function, or, where a harness enumerates concrete histories, one concrete mixing function
bool ideal_concrete = false;
void ideal_uf(unsigned id, unsigned char *out, size_t n, const unsigned char *in, size_t len, int inj) {
  if (!ideal_concrete) { verif_uf(id, out, n, in, len, inj); return; }
  unsigned long long h = 1469598103934665603ull + id; for (size_t i = 0; i < len; i++) { h = (h ^ in[i]) * 1099511628211ull; h ^= h >> 31; } h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29; for (size_t i = 0; i < n; i++) out[i] = (unsigned char)(h >> (8 * (i & 7)));
}
static uint64_t rd(const unsigned char *p) { uint64_t r = 0; for (int i = 0; i < 8; i++) r = (r << 8) | p[i]; return r; }
static void wr(unsigned char *p, uint64_t v) { for (int i = 7; i >= 0; i--) { p[i] = (unsigned char)v; v >>= 8; } }
static bool zero(const unsigned char *p, int n) { unsigned char a = 0; for (int i = 0; i < n; i++) a |= p[i]; return a == 0; }
static int dummy;
extern "C" {
extern const secp256k1_generator secp256k1_generator_const_g = {{1}}, secp256k1_generator_const_h = {{2}};
secp256k1_context *secp256k1_context_create(unsigned) { return (secp256k1_context *)&dummy; }
void secp256k1_context_destroy(secp256k1_context *) {}
int secp256k1_context_randomize(secp256k1_context *, const unsigned char *) { return 1; }
secp256k1_scratch_space *secp256k1_scratch_space_create(const secp256k1_context *, size_t) { return (secp256k1_scratch_space *)&dummy; }
void secp256k1_scratch_space_destroy(secp256k1_scratch_space *) {}
// ---- keys
static bool scalarOk(const unsigned char *k) { return zero(k, 24); }
int secp256k1_ec_seckey_verify(const secp256k1_context *, const unsigned char *k) { return scalarOk(k) & (rd(k + 24) != 0); }
static void setPoint(unsigned char *d, uint64_t v, uint64_t b) { memset(d, 0, 64); wr(d, v); wr(d + 8, b); }
int secp256k1_ec_pubkey_create(const secp256k1_context *, secp256k1_pubkey *p, const unsigned char *k) { setPoint(p->data, 0, rd(k + 24)); return rd(k + 24) != 0; }
int secp256k1_ec_pubkey_parse(const secp256k1_context *, secp256k1_pubkey *p, const unsigned char *in, size_t len) {
  if (len != 33) return 0;
  memset(p->data, 0, 64);
  bool ok = (in[0] == 2) & zero(in + 17, 16) & !zero(in + 1, 16);
  if (!ok) return 0;
  setPoint(p->data, rd(in + 1), rd(in + 9)); return 1;
}
int secp256k1_ec_pubkey_serialize(const secp256k1_context *, unsigned char *out, size_t *len, const secp256k1_pubkey *p, unsigned) { out[0] = 2; memcpy(out + 1, p->data, 16); memset(out + 17, 0, 16); *len = 33; return 1; }
int secp256k1_ec_pubkey_combine(const secp256k1_context *, secp256k1_pubkey *out, const secp256k1_pubkey *const *ins, size_t n) {
  if (n == 0) return 0;
  uint64_t v = 0, b = 0; for (size_t i = 0; i < n; i++) { v += rd(ins[i]->data); b += rd(ins[i]->data + 8); }
  setPoint(out->data, v, b); return (v | b) != 0;
}
int secp256k1_ec_privkey_tweak_add(const secp256k1_context *, unsigned char *k, const unsigned char *t) { uint64_t s = rd(k + 24) + rd(t + 24); wr(k + 24, s); return s != 0; }
// ---- signatures: k(8) | s(8) | tag(8) | 0(40); e = 3
static const uint64_t EE = 3;
static void tag(unsigned char *out, const unsigned char *R, const unsigned char *pk, const unsigned char *msg) {
  unsigned char in[64]; memcpy(in, R, 16); memcpy(in + 16, pk, 16); memcpy(in + 32, msg, 32);
  ideal_uf(901, out, 8, in, 64, 1);
}
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context *, secp256k1_ecdsa_signature *s, const unsigned char *in) { memcpy(s->data, in, 64); return 1; }
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context *, unsigned char *out, const secp256k1_ecdsa_signature *s) { memcpy(out, s->data, 64); return 1; }
int secp256k1_aggsig_export_secnonce_single(const secp256k1_context *, unsigned char *n, const unsigned char *seed) { memset(n, 0, 24); memcpy(n + 24, seed + 24, 8); uint64_t z = rd(n + 24) | 1; wr(n + 24, z); return 1; }
int secp256k1_aggsig_sign_single(const secp256k1_context *, unsigned char *sig, const unsigned char *msg, const unsigned char *key, const unsigned char *nonce, const unsigned char *, const secp256k1_pubkey *ne,
                                 const secp256k1_pubkey *, const secp256k1_pubkey *pe, const unsigned char *seed) {
  uint64_t k = nonce ? rd(nonce + 24) : (rd(seed + 24) | 1), x = rd(key + 24);
  unsigned char R[64], P[64];
  if (ne) memcpy(R, ne->data, 64); else setPoint(R, 0, k);
  if (pe) memcpy(P, pe->data, 64); else setPoint(P, 0, x);
  memset(sig, 0, 64); wr(sig, k); wr(sig + 8, k + EE * x); tag(sig + 16, R, P, msg);
  return 1;
}
static bool sigOk(const unsigned char *sig, const unsigned char *R, const unsigned char *pk, const unsigned char *pkTotal, const unsigned char *msg) {
  unsigned char t[8]; tag(t, R, pkTotal, msg);
  return (memcmp(t, sig + 16, 8) == 0) & zero(sig + 24, 40) & (rd(pk) == 0) & (rd(sig + 8) == rd(sig) + EE * rd(pk + 8));
}
int secp256k1_aggsig_verify_single(const secp256k1_context *, const unsigned char *sig, const unsigned char *msg, const secp256k1_pubkey *pubnonce, const secp256k1_pubkey *pubkey, const secp256k1_pubkey *total,
                                   const secp256k1_pubkey *, int) {
  unsigned char R[64];
  if (pubnonce) memcpy(R, pubnonce->data, 64); else setPoint(R, 0, rd(sig));
  return sigOk(sig, R, pubkey->data, total ? total->data : pubkey->data, msg);
}
int secp256k1_aggsig_add_signatures_single(const secp256k1_context *, unsigned char *sig, const unsigned char **sigs, size_t n, const secp256k1_pubkey *total) {
  if (n == 0) return 0;
  uint64_t s = 0; bool same = true;
  for (size_t i = 0; i < n; i++) { s += rd(sigs[i] + 8); same = same & (memcmp(sigs[0] + 16, sigs[i] + 16, 8) == 0); }
  memset(sig, 0, 64); wr(sig, rd(total->data + 8)); wr(sig + 8, s);
  if (same) memcpy(sig + 16, sigs[0] + 16, 8);
  return 1;
}
int secp256k1_schnorrsig_parse(const secp256k1_context *, secp256k1_schnorrsig *s, const unsigned char *in) { memcpy(s->data, in, 64); return 1; }
int secp256k1_schnorrsig_verify_batch(const secp256k1_context *, secp256k1_scratch_space *, const secp256k1_schnorrsig *const *sig, const unsigned char *const *msg, const secp256k1_pubkey *const *pk, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) { unsigned char R[64]; setPoint(R, 0, rd(sig[i]->data)); ok = ok & sigOk(sig[i]->data, R, pk[i]->data, pk[i]->data, msg[i]); }
  return ok;
}
// ---- commitments: 0x08 | v(8) | b(8) | 0(16)
int secp256k1_pedersen_commitment_parse(const secp256k1_context *, secp256k1_pedersen_commitment *c, const unsigned char *in) {
  if (!((in[0] == 8) & zero(in + 17, 16))) return 0;
  setPoint(c->data, rd(in + 1), rd(in + 9)); return 1;
}
int secp256k1_pedersen_commitment_serialize(const secp256k1_context *, unsigned char *out, const secp256k1_pedersen_commitment *c) { out[0] = 8; memcpy(out + 1, c->data, 16); memset(out + 17, 0, 16); return 1; }
int secp256k1_pedersen_commit(const secp256k1_context *, secp256k1_pedersen_commitment *c, const unsigned char *blind, uint64_t value, const secp256k1_generator *, const secp256k1_generator *) {
  setPoint(c->data, value, rd(blind + 24)); return (value | rd(blind + 24)) != 0;
}
int secp256k1_pedersen_blind_sum(const secp256k1_context *, unsigned char *out, const unsigned char *const *blinds, size_t n, size_t npos) {
  uint64_t s = 0; for (size_t i = 0; i < n; i++) { if (i < npos) s += rd(blinds[i] + 24); else s -= rd(blinds[i] + 24); }
  memset(out, 0, 24); wr(out + 24, s); return 1;
}
int secp256k1_pedersen_commit_sum(const secp256k1_context *, secp256k1_pedersen_commitment *out, const secp256k1_pedersen_commitment *const *pos, size_t np, const secp256k1_pedersen_commitment *const *neg, size_t nn) {
  uint64_t v = 0, b = 0;
  for (size_t i = 0; i < np; i++) { v += rd(pos[i]->data); b += rd(pos[i]->data + 8); }
  for (size_t i = 0; i < nn; i++) { v -= rd(neg[i]->data); b -= rd(neg[i]->data + 8); }
  setPoint(out->data, v, b); return 1;
}
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context *, secp256k1_pubkey *p, const secp256k1_pedersen_commitment *c) { memcpy(p->data, c->data, 64); return 1; }
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context *, secp256k1_pedersen_commitment *c, const secp256k1_pubkey *p) { memcpy(c->data, p->data, 64); return 1; }
int secp256k1_blind_switch(const secp256k1_context *, unsigned char *out, const unsigned char *blind, uint64_t value, const secp256k1_generator *, const secp256k1_generator *, const secp256k1_pubkey *) {
  unsigned char in[16], h[8]; wr(in, value); memcpy(in + 8, blind + 24, 8); ideal_uf(902, h, 8, in, 16, 1);
  memset(out, 0, 24); memcpy(out + 24, h, 8); return 1;
}
// ---- range proofs: v(8) | b(8) | 1 | nonce(32) | message(20) | 0...
secp256k1_bulletproof_generators *secp256k1_bulletproof_generators_create(const secp256k1_context *, const secp256k1_generator *, size_t) { return (secp256k1_bulletproof_generators *)&dummy; }
void secp256k1_bulletproof_generators_destroy(const secp256k1_context *, secp256k1_bulletproof_generators *) {}
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context *, secp256k1_scratch_space *, const secp256k1_bulletproof_generators *, const unsigned char *const *proof, size_t n, size_t plen,
    const uint64_t *const *, const secp256k1_pedersen_commitment *const *commit, size_t, size_t, const secp256k1_generator *, const unsigned char *const *, size_t *) {
  bool ok = plen >= 17;
  for (size_t i = 0; ok && i < n; i++) ok = ok & (memcmp(proof[i], commit[i]->data, 16) == 0) & (proof[i][16] == 1) & (proof[i][plen - 1] != 0xEE);
  return ok;
}
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context *, secp256k1_scratch_space *, const secp256k1_bulletproof_generators *, unsigned char *proof, size_t *plen, unsigned char *, secp256k1_pubkey *,
    secp256k1_pubkey *, const uint64_t *value, const uint64_t *, const unsigned char *const *blind, const secp256k1_pedersen_commitment *const *, size_t, const secp256k1_generator *, size_t, const unsigned char *nonce,
    const unsigned char *privateNonce, const unsigned char *, size_t, const unsigned char *message) {
  if (*plen < 70) return 0;
  wr(proof, *value); memcpy(proof + 8, blind[0] + 24, 8); proof[16] = 1; memcpy(proof + 17, nonce, 32); memcpy(proof + 49, message, 20); proof[69] = memcmp(nonce, privateNonce, 32) == 0;
  *plen = 675; return 1;
}
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context *, uint64_t *value, unsigned char *blind, const unsigned char *proof, size_t plen, uint64_t, const secp256k1_pedersen_commitment *commit,
    const secp256k1_generator *, const unsigned char *nonce, const unsigned char *, size_t, unsigned char *message) {
  if (plen < 70) return 0;
  bool ok = (memcmp(proof, commit->data, 16) == 0) & (proof[16] == 1) & (memcmp(proof + 17, nonce, 32) == 0);
  if (!ok) return 0;
  *value = rd(proof); memset(blind, 0, 24); memcpy(blind + 24, proof + 8, 8); if (!proof[69]) blind[31] ^= 1; memcpy(message, proof + 49, 20); return 1; // the blinding factor opens only with the nonce that hid it
}
}
