//@stubs env hash secp
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp
//@bounds every byte of the header symbolic; edge bits 1..63 chosen (quick: 4, 29, 31 and the invalid 0, 64 and 255), buffers of every relevant length, protocol versions V1 to V3
//@outside the JSON form of a header
#include "verif.h"
#include "env.h"
#include <Core/Models/BlockHeader.h>
#include <Core/Exceptions/DeserializationException.h>
static bool same(const BlockHeader &a, const BlockHeader &b) {
  return (a.GetVersion() == b.GetVersion()) & (a.GetHeight() == b.GetHeight()) & (a.GetTimestamp() == b.GetTimestamp()) & (a.GetPreviousHash() == b.GetPreviousHash()) & (a.GetPreviousRoot() == b.GetPreviousRoot())
    & (a.GetOutputRoot() == b.GetOutputRoot()) & (a.GetRangeProofRoot() == b.GetRangeProofRoot()) & (a.GetKernelRoot() == b.GetKernelRoot()) & (a.GetTotalKernelOffset() == b.GetTotalKernelOffset())
    & (a.GetOutputMMRSize() == b.GetOutputMMRSize()) & (a.GetKernelMMRSize() == b.GetKernelMMRSize()) & (a.GetTotalDifficulty() == b.GetTotalDifficulty()) & (a.GetScalingDifficulty() == b.GetScalingDifficulty()) & (a.GetNonce() == b.GetNonce())
    & (a.GetProofOfWork().GetEdgeBits() == b.GetProofOfWork().GetEdgeBits()) & (a.GetProofOfWork().GetProofNonces() == b.GetProofOfWork().GetProofNonces());
}
static const size_t PRE = 2 + 8 + 8 + 32 * 6 + 8 * 3 + 4 + 8;
static void header(unsigned edge, size_t len) {
  std::vector<uint8_t> in = v_bytes("header", len);
  if (len > PRE) in[PRE] = (uint8_t)edge;
  size_t want = PRE + 1 + (edge * 42 + 7) / 8;
  ByteBuffer buf(in, EProtocolVersion::V2);
  bool ok = true, odd = false;
  std::unique_ptr<BlockHeader> h;
  try { h = std::make_unique<BlockHeader>(BlockHeader::Deserialize(buf)); } catch (const DeserializationException &) { ok = false; } catch (...) { ok = false; odd = true; }
  CHECK(!odd, "malformed-is-reported-as-malformed");
  CHECK(!ok || (len >= want && edge >= 1 && edge <= 63), "too-short-or-invalid-edge-bits-rejected");
  bool fits = len >= want && edge >= 1 && edge <= 63;
  unsigned used = edge * 42 % 8;
  bool padded = !fits || used == 0 || (in[want - 1] >> used) == 0;
  CHECK(ok || !fits || !padded, "well-formed-accepted");
  CHECK(!ok || padded, "unused-bits-zero");
  if (!ok) { REACH("rejected"); return; }
  REACH("accepted");
  CHECK(buf.GetRemainingSize() == len - want, "consumes-its-own-bytes");
  Serializer s(EProtocolVersion::V2); h->Serialize(s);
  bool eq = s.size() == want;
  CHECK(eq, "written-size");
  if (eq) for (size_t i = 0; i < want; i++) eq = eq & (s.GetBytes()[i] == in[i]);
  CHECK(eq, "reads-then-writes-the-same-bytes");
  ByteBuffer b2(s.GetBytes(), EProtocolVersion::V2);
  BlockHeader h2 = BlockHeader::Deserialize(b2);
  CHECK(same(*h, h2), "reads-back-equal");
  CHECK(h->GetHash() == h2.GetHash(), "hash-survives-storage");
}
HARNESS(valid) { static const unsigned es[] = { 29, 31, 4, 32, 33, 63 }; unsigned e = es[v_choose("edge", 0, verif_tier() ? 5 : 2)]; header(e, PRE + 1 + (e * 42 + 7) / 8 + (e == 4 ? 3 : 0)); }
HARNESS(invalid) {
  static const unsigned es[] = { 0, 64, 255 }; unsigned e = es[v_choose("edge", 0, 2)]; header(e, PRE + 1 + (e * 42 + 7) / 8);
}
HARNESS(shortBuffer) { header(29, v_choose("len", 0, PRE + 1 + 152)); }
HARNESS_T(allEdges) { unsigned e = (unsigned)v_choose("edge", 1, 63); header(e, PRE + 1 + (e * 42 + 7) / 8); }
