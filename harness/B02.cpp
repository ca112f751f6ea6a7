//@stubs env hash secp
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/BlockChain/Validators/*.cpp
//@exclude src/BlockChain/Validators/BlockHeaderValidator.cpp
//@bounds blocks of up to 1 input, 2 outputs and 2 kernels, every feature, value, blinding factor, fee, lock height, excess, signature and block height symbolic; values and blinding factors below 2^16 except the reward; any claimed block weight
//@outside no-recent-duplicate kernels; the elliptic curve library (ideal group of order 2^64)
#include "verif.h"
#include "env.h"
#include "fakes.h"
#include "ideal.h"
#include <BlockChain/Validators/BlockValidator.h>
#include <Core/Exceptions/BadDataException.h>
using namespace ideal;
static const uint64_t REWARD = 60000000000ull;
static void blk(size_t ni, size_t no, size_t nk, int mode) {
  Body b; b.make(ni, no, nk, mode);
  // the first output may carry a large value so that a coinbase can balance
  if (no) { b.out[0].v = (uint64_t)v_u16("small") + (v_fork("large") ? REWARD : 0); b.to[0] = TransactionOutput((EOutputFeatures)b.out[0].f, commit(b.out[0].v, b.out[0].b), proof(b.out[0].v, b.out[0].b, (uint8_t)b.out[0].proofOk)); }
  HeaderSpec h; h.height = v_u64("height"); h.hash = hashOf(1);
  FullBlock block(h.make(), b.body());
  bool ok = true, odd = false;
  try { BlockValidator().VerifySelfConsistent(block); } catch (const BadDataException &) { ok = false; } catch (...) { ok = false; odd = true; }
  bool locks = true; uint64_t cv = 0, cb = 0, kb = 0, kv = 0;
  for (auto &k : b.ker) { locks = locks & (k.lock <= h.height); if (k.f == 1) kb += k.b; }
  for (auto &o : b.out) { cv += o.f == 1 ? o.v : 0; cb += o.f == 1 ? o.b : 0; }
  bool coinbase = (cv == REWARD + b.fees()) & (cb == kb);
  bool uniq = b.inputsUnique() & b.outputsUnique(); for (size_t i = 0; i < b.tk.size(); i++) for (size_t j = 0; j < i; j++) uniq = uniq & !(b.tk[i].GetHash() == b.tk[j].GetHash());
  (void)kv; (void)odd;
  CHECK(!ok || locks, "lock-heights");
  CHECK(!ok || coinbase, "reward-and-fees-exact");
  CHECK(!ok || b.cutThrough(), "cut-through");
  CHECK(!ok || b.sorted(), "sorted");
  CHECK(!ok || uniq, "no-duplicates");
  CHECK(!ok || b.proofs(), "range-proofs");
  CHECK(!ok || b.sigs(), "kernel-signatures");
  CHECK(ok || !(locks & coinbase & b.cutThrough() & b.sorted() & uniq & b.proofs() & b.sigs()), "valid-accepted");
  CHECK(block.WasValidated() == ok, "marked-iff-valid");
  if (ok) REACH("accepted"); else REACH("rejected");
}
HARNESS(blk011) { blk(0, 1, 1, 0); }
HARNESS(blk111) { blk(1, 1, 1, 0); }
HARNESS(blk021) { blk(0, 2, 1, 2); }
HARNESS(blk012) { blk(0, 1, 2, 3); }
HARNESS_T(blk022) { blk(0, 2, 2, 3); }
HARNESS_T(blk122) { blk(1, 2, 2, 3); }
