//@stubs env hash
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/PoW/*.cpp src/BlockChain/**/*.cpp src/PMMR/Common/*.cpp
//@exclude src/PMMR/Common/MMRHashUtil.cpp
//@bounds every field of header and parent, every clock value below 2^33 seconds (whole seconds), every environment; the proof-of-work verdict and the header MMR are arbitrary answers
#include "verif.h"
#include "fakes.h"
#include "env.h"
#include <PoW/PoWValidator.h>
#include <BlockChain/Validators/BlockHeaderValidator.h>
#include <Core/Exceptions/BadDataException.h>
static uint64_t g_now; static bool g_pow; static int g_powCalls;
extern "C" uint64_t verif_clock_ns() { return g_now; }
bool PoWValidator::IsPoWValid(const BlockHeader &, const BlockHeader &) const { g_powCalls++; return g_pow; }
HARNESS(validate) {
  uint64_t env = v_choose("env", 0, 2);
  venv::env = env == 0 ? Environment::MAINNET : env == 1 ? Environment::FLOONET : Environment::AUTOMATED_TESTING;
  auto db = std::make_shared<FakeBlockDB>(); auto mmr = std::make_shared<FakeHeaderMMR>();
  uint64_t secs = v_u64("now") & ((1ull << 33) - 1); g_now = secs * 1000000000ull;
  g_pow = v_bool("pow");
  HeaderSpec p, h;
  p.height = v_u64("prevHeight"); p.timestamp = (int64_t)v_u64("prevTime"); p.hash = hashOf(1); p.version = v_u16("prevVersion");
  h.height = v_u64("height"); h.timestamp = (int64_t)v_u64("time"); h.version = v_u16("version"); h.hash = hashOf(3);
  bool linked = v_fork("linked"); h.prev = linked ? hashOf(1) : hashOf(2);
  uint8_t rb = v_u8("root"); h.prevRoot = hashOf(5); h.prevRoot[31] = rb;
  Hash good = hashOf(5), other = hashOf(9);
  mmr->roots.push_back({ h.height - 1, good }); mmr->other = other;
  bool ok = true, bad = false;
  try { BlockHeaderValidator(db, mmr).Validate(*h.make(), *p.make()); } catch (const BadDataException &) { ok = false; } catch (...) { ok = false; bad = true; }
  bool height = h.height == p.height + 1, later = h.timestamp > p.timestamp, notFuture = h.timestamp <= (int64_t)(secs + 300), version = h.version == Consensus::GetHeaderVersion(venv::env, h.height);
  bool pow = env == 2 || g_pow, root = rb == 5;
  CHECK(!bad, "only-bad-data");
  CHECK(!ok || linked, "names-its-parent");
  CHECK(!ok || height, "height-follows");
  CHECK(!ok || later, "timestamp-increases");
  CHECK(!ok || notFuture, "timestamp-not-in-future");
  CHECK(!ok || version, "version-schedule");
  CHECK(!ok || pow, "proof-of-work");
  CHECK(!ok || root, "previous-root");
  CHECK(ok || !(linked && height && later && notFuture && version && pow && root), "valid-accepted");
  if (ok) REACH("accepted"); else REACH("rejected");
}
