// Ideal-group stand-in for libsecp256k1-zkp (not available in this sandbox). See stubs/secp.cpp.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
typedef struct secp256k1_context_struct secp256k1_context;
typedef struct secp256k1_scratch_space_struct secp256k1_scratch_space;
typedef struct { unsigned char data[64]; } secp256k1_pubkey;
typedef struct { unsigned char data[64]; } secp256k1_ecdsa_signature;
typedef struct { unsigned char data[64]; } secp256k1_generator;
typedef struct { unsigned char data[64]; } secp256k1_pedersen_commitment;
typedef struct { unsigned char data[64]; } secp256k1_schnorrsig;
typedef struct secp256k1_bulletproof_generators secp256k1_bulletproof_generators;
#define SECP256K1_CONTEXT_SIGN 0x201
#define SECP256K1_CONTEXT_VERIFY 0x101
#define SECP256K1_EC_COMPRESSED 0x102
extern const secp256k1_generator secp256k1_generator_const_g, secp256k1_generator_const_h;
secp256k1_context *secp256k1_context_create(unsigned flags);
void secp256k1_context_destroy(secp256k1_context *);
int secp256k1_context_randomize(secp256k1_context *, const unsigned char *seed32);
secp256k1_scratch_space *secp256k1_scratch_space_create(const secp256k1_context *, size_t max_size);
void secp256k1_scratch_space_destroy(secp256k1_scratch_space *);
int secp256k1_ec_seckey_verify(const secp256k1_context *, const unsigned char *seckey);
int secp256k1_ec_pubkey_create(const secp256k1_context *, secp256k1_pubkey *, const unsigned char *seckey);
int secp256k1_ec_pubkey_parse(const secp256k1_context *, secp256k1_pubkey *, const unsigned char *in, size_t len);
int secp256k1_ec_pubkey_serialize(const secp256k1_context *, unsigned char *out, size_t *len, const secp256k1_pubkey *, unsigned flags);
int secp256k1_ec_pubkey_combine(const secp256k1_context *, secp256k1_pubkey *out, const secp256k1_pubkey *const *ins, size_t n);
int secp256k1_ec_privkey_tweak_add(const secp256k1_context *, unsigned char *seckey, const unsigned char *tweak);
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context *, secp256k1_ecdsa_signature *, const unsigned char *in64);
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context *, unsigned char *out64, const secp256k1_ecdsa_signature *);
int secp256k1_aggsig_export_secnonce_single(const secp256k1_context *, unsigned char *secnonce32, const unsigned char *seed);
int secp256k1_aggsig_sign_single(const secp256k1_context *, unsigned char *sig64, const unsigned char *msg32, const unsigned char *seckey32, const unsigned char *secnonce32, const unsigned char *extra32,
                                 const secp256k1_pubkey *pubnonce_for_e, const secp256k1_pubkey *pubnonce_total, const secp256k1_pubkey *pubkey_for_e, const unsigned char *seed);
int secp256k1_aggsig_verify_single(const secp256k1_context *, const unsigned char *sig64, const unsigned char *msg32, const secp256k1_pubkey *pubnonce, const secp256k1_pubkey *pubkey,
                                   const secp256k1_pubkey *pubkey_total, const secp256k1_pubkey *extra_pubkey, int is_partial);
int secp256k1_aggsig_add_signatures_single(const secp256k1_context *, unsigned char *sig64, const unsigned char **sigs, size_t n, const secp256k1_pubkey *pubnonce_total);
int secp256k1_pedersen_commitment_parse(const secp256k1_context *, secp256k1_pedersen_commitment *, const unsigned char *in33);
int secp256k1_pedersen_commitment_serialize(const secp256k1_context *, unsigned char *out33, const secp256k1_pedersen_commitment *);
int secp256k1_pedersen_commit(const secp256k1_context *, secp256k1_pedersen_commitment *, const unsigned char *blind, uint64_t value, const secp256k1_generator *vgen, const secp256k1_generator *bgen);
int secp256k1_pedersen_blind_sum(const secp256k1_context *, unsigned char *out, const unsigned char *const *blinds, size_t n, size_t npositive);
int secp256k1_pedersen_commit_sum(const secp256k1_context *, secp256k1_pedersen_commitment *out, const secp256k1_pedersen_commitment *const *pos, size_t npos, const secp256k1_pedersen_commitment *const *neg, size_t nneg);
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context *, secp256k1_pubkey *, const secp256k1_pedersen_commitment *);
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context *, secp256k1_pedersen_commitment *, const secp256k1_pubkey *);
int secp256k1_blind_switch(const secp256k1_context *, unsigned char *out32, const unsigned char *blind, uint64_t value, const secp256k1_generator *vgen, const secp256k1_generator *bgen, const secp256k1_pubkey *sw);
int secp256k1_schnorrsig_parse(const secp256k1_context *, secp256k1_schnorrsig *, const unsigned char *in64);
int secp256k1_schnorrsig_verify_batch(const secp256k1_context *, secp256k1_scratch_space *, const secp256k1_schnorrsig *const *sig, const unsigned char *const *msg32, const secp256k1_pubkey *const *pk, size_t n);
secp256k1_bulletproof_generators *secp256k1_bulletproof_generators_create(const secp256k1_context *, const secp256k1_generator *, size_t n);
void secp256k1_bulletproof_generators_destroy(const secp256k1_context *, secp256k1_bulletproof_generators *);
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context *, secp256k1_scratch_space *, const secp256k1_bulletproof_generators *, const unsigned char *const *proof, size_t n_proofs, size_t plen,
    const uint64_t *const *min_value, const secp256k1_pedersen_commitment *const *commit, size_t n_commits, size_t nbits, const secp256k1_generator *value_gen, const unsigned char *const *extra, size_t *extra_len);
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context *, secp256k1_scratch_space *, const secp256k1_bulletproof_generators *, unsigned char *proof, size_t *plen, unsigned char *tau_x,
    secp256k1_pubkey *t_one, secp256k1_pubkey *t_two, const uint64_t *value, const uint64_t *min_value, const unsigned char *const *blind, const secp256k1_pedersen_commitment *const *commits, size_t n_commits,
    const secp256k1_generator *value_gen, size_t nbits, const unsigned char *nonce, const unsigned char *private_nonce, const unsigned char *extra, size_t extra_len, const unsigned char *message);
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context *, uint64_t *value, unsigned char *blind, const unsigned char *proof, size_t plen, uint64_t min_value,
    const secp256k1_pedersen_commitment *commit, const secp256k1_generator *value_gen, const unsigned char *nonce, const unsigned char *extra, size_t extra_len, unsigned char *message);
}
