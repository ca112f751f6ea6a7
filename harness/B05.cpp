//@stubs env hash secp
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/BlockChain/Validators/*.cpp
//@exclude src/BlockChain/Validators/BlockHeaderValidator.cpp
//@bounds every weight a body can have (the weight function is an arbitrary answer here and is compared with the formula separately), every block height
#include "verif.h"
#include "env.h"
#include "fakes.h"
#include "ideal.h"
#include <BlockChain/Validators/BlockValidator.h>
#include <Core/Validation/TransactionValidator.h>
#include <Core/Exceptions/BadDataException.h>
using namespace ideal;
static uint64_t g_weight, g_height;
static bool g_asked;
uint64_t verif_weight(const TransactionBody *, uint64_t h) asm("_ZNK15TransactionBody10CalcWeightEm");
uint64_t verif_weight(const TransactionBody *, uint64_t h) { g_asked = true; if (h != g_height) CHECK(false, "weighed-at-its-height"); return g_weight; }
HARNESS(block) {
  g_weight = v_u64("weight"); g_asked = false;
  uint64_t r = 60000000000ull;
  Hash msg = message(1, 0, 0, 0); uint64_t k = 5;
  TransactionBody body = TransactionBody::NoSort({}, { TransactionOutput(EOutputFeatures::COINBASE_OUTPUT, commit(r, 9), proof(r, 9, 1)) }, { TransactionKernel(EKernelFeatures::COINBASE_KERNEL, Fee(), 0, commit(0, 9), sign(k, k + 27, 0, 9, msg)) });
  HeaderSpec h; h.height = v_u64("height"); g_height = h.height;
  FullBlock b(h.make(), std::move(body));
  bool ok = true; try { BlockValidator().VerifySelfConsistent(b); } catch (const std::exception &) { ok = false; }
  CHECK(ok == (g_weight <= 40000), "block-weight-limit");
  if (ok) REACH("accepted"); else REACH("rejected");
}
HARNESS(transaction) {
  g_weight = v_u64("weight") & 0xffffffffffff; g_height = v_u64("height");
  // one input, one output, one kernel with fee 1
  Hash msg = message(0, 0, 1, 0); uint64_t k = 5;
  TransactionBody body = TransactionBody::NoSort({ TransactionInput(EOutputFeatures::DEFAULT, commit(8, 1)) }, { TransactionOutput(EOutputFeatures::DEFAULT, commit(7, 4), proof(7, 4, 1)) }, { TransactionKernel(EKernelFeatures::DEFAULT_KERNEL, Fee(0, 1), 0, commit(0, 3), sign(k, k + 9, 0, 3, msg)) });
  Transaction t(blind(0), std::move(body));
  bool ok = true; try { TransactionValidator().Validate(t, g_height); } catch (const std::exception &) { ok = false; }
  CHECK(ok == (g_weight + 24 <= 40000), "transaction-weight-limit");
  if (ok) REACH("accepted"); else REACH("rejected");
}
