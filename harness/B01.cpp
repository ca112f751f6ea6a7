//@stubs env hash secp
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
//@bounds bodies of up to 2 inputs, outputs or kernels (thorough: up to 3 of one kind), every feature, value, blinding factor, fee, fee shift, lock height, excess, signature and offset symbolic; values, blinding factors and nonces below 2^16, fees below 2^40
//@outside no-recent-duplicate kernels; the elliptic curve library (ideal group of order 2^64)
#include "verif.h"
#include "env.h"
#include "ideal.h"
#include <Core/Validation/TransactionValidator.h>
#include <Core/Exceptions/BadDataException.h>
using namespace ideal;
static void tx(size_t ni, size_t no, size_t nk, bool simple = false) {
  Body b; b.make(ni, no, nk, simple);
  uint64_t off = v_u16("offset");
  Transaction t(blind(off), b.body());
  bool ok = true, odd = false;
  try { TransactionValidator().Validate(t, 2000000); } catch (const BadDataException &) { ok = false; } catch (...) { ok = false; odd = true; }
  bool plain = true; uint64_t v = 0, bl = 0, kb = off;
  for (auto &o : b.out) { plain = plain & (o.f == 0); v += o.v; bl += o.b; }
  for (auto &i : b.in) { v -= i.v; bl -= i.b; }
  for (auto &k : b.ker) { plain = plain & (k.f != 1); kb += k.b; v += k.fee; }
  bool sums = (v == 0) & (bl == kb);
  (void)odd;
  CHECK(!ok || b.sorted(), "sorted");
  CHECK(!ok || b.inputsUnique(), "no-input-twice");
  CHECK(!ok || b.outputsUnique(), "no-output-twice");
  CHECK(!ok || b.cutThrough(), "cut-through");
  CHECK(!ok || b.proofs(), "range-proofs");
  CHECK(!ok || b.sigs(), "kernel-signatures");
  CHECK(!ok || plain, "no-coinbase");
  CHECK(!ok || sums, "sums-balance");
  bool kerUnique = true; for (size_t i = 0; i < b.tk.size(); i++) for (size_t j = 0; j < i; j++) kerUnique = kerUnique & !(b.tk[i].GetHash() == b.tk[j].GetHash());
  CHECK(!ok || kerUnique, "no-kernel-twice");
  CHECK(ok || !(b.sorted() & b.inputsUnique() & b.outputsUnique() & b.cutThrough() & b.proofs() & b.sigs() & plain & sums & kerUnique), "valid-accepted");
  if (ok) REACH("accepted"); else REACH("rejected");
}
HARNESS(tx111) { tx(1, 1, 1); }
HARNESS(tx211) { tx(2, 1, 1, !verif_tier()); }
HARNESS(tx121) { tx(1, 2, 1, !verif_tier()); }
HARNESS(tx112) { tx(verif_tier(), 1, 2); }
HARNESS(txOdd) { uint64_t k = v_choose("shape", 0, 3); if (k == 0) tx(0, 1, 1); else if (k == 1) tx(1, 0, 1); else if (k == 2) tx(1, 1, 0); else tx(0, 0, 1); }
HARNESS_T(tx220) { tx(2, 2, 0); }
HARNESS_T(tx311) { tx(3, 1, 1, true); }
HARNESS_T(tx131) { tx(1, 3, 1, true); }
