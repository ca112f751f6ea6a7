#pragma once
// Steps of a payment between the parties of wallet.h.
#include "wallet.h"
#include <Crypto/ED25519.h>
using namespace ww;
// ideal ed25519: a signature is the public key and the hash of the message
ed25519_keypair_t ED25519::CalculateKeypair(const SecretKey &seed) { std::vector<uint8_t> p(seed.data(), seed.data() + 32); p[0] ^= 0x77; std::vector<uint8_t> s(seed.data(), seed.data() + 32); s.insert(s.end(), p.begin(), p.end()); return ed25519_keypair_t(ed25519_public_key_t(CBigInteger<32>(std::move(p))), ed25519_secret_key_t(SecretKey64(CBigInteger<64>(std::move(s))))); }
static std::vector<uint8_t> edSign(std::vector<uint8_t> p, const std::vector<uint8_t> &m) { Hash h = ideal::blake(m); p.insert(p.end(), h.data(), h.data() + 32); return p; }
ed25519_signature_t ED25519::Sign(const ed25519_secret_key_t &k, const std::vector<uint8_t> &m) { return ed25519_signature_t(CBigInteger<64>(edSign(std::vector<uint8_t>(k.data() + 32, k.data() + 64), m))); }
bool ED25519::VerifySignature(const ed25519_public_key_t &p, const ed25519_signature_t &s, const std::vector<uint8_t> &m) { return s.vec() == edSign(p.vec(), m); }
static void fund(Party &p, uint64_t v, uint64_t blind) { auto o = output(v, blind, EOutputStatus::SPENDABLE, 0, 100, std::nullopt, (uint32_t)p.db->s.nextChild++); p.db->s.outputs.push_back(o); p.node->chain.push_back({ o.GetCommitment(), 100 }); p.db->saved = p.db->s; }
template <class F> static bool done(F f) { try { f(); return true; } catch (CryptoException &) { verif_assume(false); } catch (std::exception &) {} return false; }
static std::optional<Slate> send(Party &p, uint64_t amount, uint8_t change = 1) { std::optional<Slate> s; done([&] { s = SendSlateBuilder(p.node).BuildSendSlate(p.impl, p.seed, amount, 500000, change, false, std::nullopt, SelectionStrategyDTO(ESelectionStrategy::ALL, {}), 4, {}); }); return s; }
static std::optional<Slate> receive(Party &p, const Slate &s) { std::optional<Slate> r; done([&] { r = ReceiveSlateBuilder().AddReceiverData(p.impl, p.seed, s, std::nullopt, {}); }); return r; }
static std::optional<std::pair<Slate, Transaction>> finalize(Party &p, const Slate &s) { std::optional<std::pair<Slate, Transaction>> r; done([&] { r = FinalizeSlateBuilder(p.wallet, p.node).Finalize(s); }); return r; }
