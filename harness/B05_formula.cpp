//@stubs env hash
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/Hasher.cpp
//@bounds weight function: bodies of up to 4 inputs, 4 outputs and 4 kernels, every block height on every network
#include "verif.h"
#include "env.h"
#include <Core/Models/TransactionBody.h>
HARNESS(formula) {
  uint64_t e = v_choose("env", 0, 2); venv::env = e == 0 ? Environment::MAINNET : e == 1 ? Environment::FLOONET : Environment::AUTOMATED_TESTING;
  uint64_t i = v_choose("i", 0, 4), o = v_choose("o", 0, 4), k = v_choose("k", 0, 4), h = v_u64("height");
  std::vector<TransactionInput> vi(i); std::vector<TransactionOutput> vo; std::vector<TransactionKernel> vk(k);
  for (uint64_t n = 0; n < o; n++) vo.push_back(TransactionOutput(EOutputFeatures::DEFAULT, Commitment(), RangeProof(std::vector<uint8_t>())));
  TransactionBody b = TransactionBody::NoSort(std::move(vi), std::move(vo), std::move(vk));
  uint64_t hf4 = e == 1 ? 642240 : 1048320;
  int64_t w4 = -(int64_t)i + 4 * (int64_t)o + (int64_t)k;
  CHECK(b.CalcWeight(h) == (h >= hf4 ? i + 21 * o + 3 * k : (uint64_t)(w4 < 1 ? 1 : w4)), "weight-of-body");
  REACH("end");
}
