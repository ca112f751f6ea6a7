//@stubs env hash secp net
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/PMMR/Common/*.cpp
//@exclude src/PMMR/Common/MMRHashUtil.cpp
//@bounds every message body symbolic for lengths from empty to a few elements of each message (fixed layout up to the full size plus one); counts, lengths and modes inside the body unconstrained; protocol versions V1, V2, V3, V1000
//@outside the socket layer; headers, blocks and compact blocks inside messages are decided by S01 and S02 for their content and here only for memory safety
#include "verif.h"
#include "env.h"
#include <BlockChain/ICoinView.h>
#include "P2P/Messages/HandMessage.h"
#include "P2P/Messages/ShakeMessage.h"
#include "P2P/Messages/PingMessage.h"
#include "P2P/Messages/PongMessage.h"
#include "P2P/Messages/GetPeerAddressesMessage.h"
#include "P2P/Messages/PeerAddressesMessage.h"
#include "P2P/Messages/GetHeadersMessage.h"
#include "P2P/Messages/HeaderMessage.h"
#include "P2P/Messages/HeadersMessage.h"
#include "P2P/Messages/GetBlockMessage.h"
#include "P2P/Messages/BlockMessage.h"
#include "P2P/Messages/CompactBlockMessage.h"
#include "P2P/Messages/GetCompactBlockMessage.h"
#include "P2P/Messages/TransactionMessage.h"
#include "P2P/Messages/StemTransactionMessage.h"
#include "P2P/Messages/TransactionKernelMessage.h"
#include "P2P/Messages/GetTransactionMessage.h"
#include "P2P/Messages/TxHashSetRequestMessage.h"
#include "P2P/Messages/TxHashSetArchiveMessage.h"
#include "P2P/Messages/BanReasonMessage.h"
#include "P2P/Messages/ErrorMessage.h"
#include "P2P/Messages/SegmentRequestMessage.h"
#include "P2P/Messages/SegmentResponseMessage.h"
struct View : ICoinView { EOutputFeatures GetOutputType(const Commitment &c) const override { uint8_t o; verif_uf(77, &o, 1, c.data(), 33, 0); return (EOutputFeatures)(o & 1); } };
static const EProtocolVersion VS[] = { EProtocolVersion::V1, EProtocolVersion::V2, EProtocolVersion::V3, EProtocolVersion::V1000 };
// exact: an accepted body is written back byte for byte
template <class M> static void message(const std::vector<uint8_t> &in, bool exact, EProtocolVersion v = EProtocolVersion::V2) {
  venv::coinView = std::make_shared<View>();
  bool ok = true, odd = false; size_t left = 0; std::unique_ptr<M> m;
  verif_alloc_limit(8 << 20);
  try { ByteBuffer b(in, v); m = std::make_unique<M>(M::Deserialize(b)); left = b.GetRemainingSize(); } catch (const DeserializationException &) { ok = false; } catch (...) { ok = false; odd = true; }
  verif_alloc_limit(0);
  CHECK(!odd, "malformed-is-reported-as-malformed");
  if (!ok) return;
  Serializer s(v); static_cast<const IMessage &>(*m).SerializeBody(s);
  if (exact) {
    CHECK(s.size() == in.size() - left, "written-size");
    bool eq = s.size() <= in.size(); if (eq) for (size_t i = 0; i < s.size(); i++) eq = eq & (s.GetBytes()[i] == in[i]);
    CHECK(eq, "reads-then-writes-the-same-bytes");
  }
}
template <class M> static void sizes(size_t lo, size_t hi, bool exact = true) { message<M>(v_bytes("body", v_choose("len", lo, hi)), exact); }
HARNESS(fixed) {
  uint64_t k = v_choose("kind", 0, 11);
  switch (k) {
  case 0: sizes<PingMessage>(15, 17); break; case 1: sizes<PongMessage>(15, 17); break; case 2: sizes<GetPeerAddressesMessage>(3, 5); break; case 3: sizes<GetBlockMessage>(31, 33); break;
  case 4: sizes<GetCompactBlockMessage>(31, 33); break; case 5: sizes<TransactionKernelMessage>(31, 33); break; case 6: sizes<GetTransactionMessage>(31, 33); break; case 7: sizes<TxHashSetRequestMessage>(39, 41); break;
  case 8: sizes<TxHashSetArchiveMessage>(47, 49); break; case 9: sizes<BanReasonMessage>(3, 5); break; case 10: sizes<GetKernelSegmentMessage>(40, 42); break; case 11: sizes<GetOutputSegmentMessage>(40, 42); break;
  }
  REACH("fixed");
}
HARNESS(hand) { size_t n = v_choose("len", 0, 2); message<HandMessage>(v_bytes("body", 4 + 4 + 8 + 8 + 14 + 12 * v_choose("six", 0, 1) + 8 + n + 32), true); REACH("hand"); }
HARNESS(shake) { size_t n = v_choose("len", 0, 3); message<ShakeMessage>(v_bytes("body", 4 + 4 + 8 + 8 + n + 32), true); REACH("shake"); }
HARNESS(error) { uint64_t l = v_choose("len", 0, 16); message<ErrorMessage>(v_bytes("body", l == 16 ? 34 : l), true); REACH("error"); }
HARNESS(peers) { sizes<PeerAddressesMessage>(0, verif_tier() ? 46 : 27); REACH("peers"); }
HARNESS(getHeaders) { sizes<GetHeadersMessage>(0, 67); REACH("locator"); }
// The three counts of a segment are chosen among nothing, one, values the body cannot hold, and values whose multiples wrap; everything else is unconstrained.
static const uint64_t COUNTS[] = { 0, 1, 3, 1ull << 32, 1ull << 59, 1ull << 61, ~0ull };
static uint64_t count(std::vector<uint8_t> &b, const char *nm, uint64_t lo, uint64_t hi) { uint64_t c = COUNTS[v_choose(nm, lo, hi)]; for (int i = 7; i >= 0; i--) b.push_back((uint8_t)(c >> (8 * i))); return c; }
static void some(std::vector<uint8_t> &b, const char *nm, size_t n) { std::vector<uint8_t> x = v_bytes(nm, n); b.insert(b.end(), x.begin(), x.end()); }
HARNESS(segments) {
  uint64_t k = v_choose("kind", 0, 2); std::vector<uint8_t> b; some(b, "head", 41);
  static const size_t KERNEL[] = { 1 + 8 + 97, 1 + 97, 1 + 8 + 8 + 97, 1 + 8 + 2 + 97 };
  uint64_t h = count(b, "hashes", 0, 6);
  if (h == 1) some(b, "hash", 40);
  if (h <= 1) {
    uint64_t l = count(b, "leaves", 0, 6);
    if (l == 1) {
      some(b, "leafPos", 8);
      if (k == 0) some(b, "output", 34);
      else if (k == 1) { for (int i = 0; i < 8; i++) b.push_back(i == 6 ? 675 >> 8 : i == 7 ? 675 & 255 : 0); some(b, "proof", 675); }
      else { uint64_t f = v_choose("features", 0, 3); b.push_back((uint8_t)f); some(b, "kernel", KERNEL[f] - 1); }
    }
    if (l <= 1) { uint64_t p = count(b, "proofs", 0, 6); if (p == 1) some(b, "proofHash", 32); }
  }
  some(b, "tail", 8 * v_choose("more", 0, 2));
  if (v_choose("cut", 0, 1)) b.resize(b.size() - v_choose("less", 1, 7));
  if (k == 0) message<OutputSegmentMessage>(b, true); else if (k == 1) message<RangeProofSegmentMessage>(b, true); else message<KernelSegmentMessage>(b, true);
  REACH("segments");
}
HARNESS(bitmap) {
  static const uint16_t cs[] = { 0, 1, 2, 65535 };
  std::vector<uint8_t> b; some(b, "head", 41);
  uint16_t n = cs[v_choose("blocks", 0, 3)]; b.push_back((uint8_t)(n >> 8)); b.push_back((uint8_t)n);
  for (uint64_t i = 0; i < n && i < 2; i++) {
    some(b, "chunks", 1); uint64_t mode = v_choose("mode", 1, 3); b.push_back((uint8_t)mode);
    uint16_t m = i ? 1 : cs[v_choose("positions", 0, 3)]; b.push_back((uint8_t)(m >> 8)); b.push_back((uint8_t)m);
    some(b, "pos", 2 * (m > 2 ? 2 : m));
  }
  if (n > 2) return message<OutputBitmapSegmentMessage>(b, true);
  uint64_t p = count(b, "proofs", verif_tier() ? 0 : 1, verif_tier() ? 6 : 3); if (p == 1) some(b, "proofHash", 32);
  if (v_choose("cut", 0, 1)) b.resize(b.size() - (verif_tier() ? v_choose("less", 1, 9) : 3));
  message<OutputBitmapSegmentMessage>(b, true);
  REACH("bitmap");
}
// a raw block of the bitmap: 128 bytes for each chunk
HARNESS(bitmapRaw) {
  size_t chunks = v_choose("chunks", 0, 1);
  std::vector<uint8_t> b = v_bytes("body", 32 + 9 + 2 + 2 + 128 * chunks + 8 + 32 - v_choose("cut", 0, 1)); b[41] = 0; b[42] = 1; b[43] = (uint8_t)chunks; b[44] = 0;
  message<OutputBitmapSegmentMessage>(b, true);
  REACH("raw");
}
