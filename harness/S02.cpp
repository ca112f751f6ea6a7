//@stubs env hash secp
//@repo src/Core/**/*.cpp src/Common/**/*.cpp src/Crypto/*.cpp src/PMMR/Common/*.cpp
//@exclude src/PMMR/Common/MMRHashUtil.cpp
//@bounds every byte of one element symbolic and every buffer length up to a few bytes beyond the element (range proofs of 0, 1, 3 and 675 bytes), protocol versions V1, V2, V3 and V1000; bodies of up to 2 elements of each kind (thorough: 3 of one kind)
//@outside the JSON forms; for protocol V3 the coin view is assumed to know the output type of every input
#include "verif.h"
#include "env.h"
#include <Core/Models/TransactionBody.h>
#include <Core/Models/Transaction.h>
#include <Core/Models/BlockSums.h>
#include <Core/Models/SpentOutput.h>
#include <Core/Models/OutputIdentifier.h>
#include <Core/Models/ShortId.h>
#include <Core/Exceptions/DeserializationException.h>
#include <BlockChain/ICoinView.h>
struct View : ICoinView { EOutputFeatures GetOutputType(const Commitment &c) const override { uint8_t o; verif_uf(77, &o, 1, c.data(), 33, 0); return (EOutputFeatures)(o & 1); } };
static void setup() { venv::coinView = std::make_shared<View>(); }
static const EProtocolVersion VS[] = { EProtocolVersion::V1, EProtocolVersion::V2, EProtocolVersion::V3, EProtocolVersion::V1000 };
static EProtocolVersion ver() { return VS[v_choose("version", 0, 3)]; }
static bool eq(const TransactionInput &a, const TransactionInput &b) { return ((a.GetFeatures() == b.GetFeatures()) | (b.GetFeatures() == View().GetOutputType(b.GetCommitment()))) & (a.GetCommitment() == b.GetCommitment()) & (a.GetHash() == b.GetHash()); }
static bool eq(const TransactionOutput &a, const TransactionOutput &b) { return (a.GetFeatures() == b.GetFeatures()) & (a.GetCommitment() == b.GetCommitment()) & (a.GetRangeProof().GetProofBytes() == b.GetRangeProof().GetProofBytes()) & (a.GetHash() == b.GetHash()); }
static bool eq(const TransactionKernel &a, const TransactionKernel &b) { return (a.GetFeatures() == b.GetFeatures()) & (a.GetFee() == b.GetFee()) & (a.GetFeeShift() == b.GetFeeShift()) & (a.GetLockHeight() == b.GetLockHeight()) & (a.GetExcessCommitment() == b.GetExcessCommitment()) & (a.GetExcessSignature() == b.GetExcessSignature()) & (a.GetHash() == b.GetHash()); }
static bool eq(const OutputIdentifier &a, const OutputIdentifier &b) { return (a.GetFeatures() == b.GetFeatures()) & (a.GetCommitment() == b.GetCommitment()); }
static bool eq(const BlockSums &a, const BlockSums &b) { return (a.GetOutputSum() == b.GetOutputSum()) & (a.GetKernelSum() == b.GetKernelSum()); }
static bool eq(const SpentOutput &a, const SpentOutput &b) { return (a.GetCommitment() == b.GetCommitment()) & (a.GetLocation().GetPosition() == b.GetLocation().GetPosition()) & (a.GetLocation().GetBlockHeight() == b.GetLocation().GetBlockHeight()); }
static bool eq(const ShortId &a, const ShortId &b) { return a.GetId() == b.GetId(); }
template <class T> static std::vector<uint8_t> bytes(const T &t, EProtocolVersion v) { Serializer s(v); t.Serialize(s); return s.GetBytes(); }
static bool sameBytes(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }
// reads one T from arbitrary bytes; what is accepted must come back unchanged through every protocol version
template <class T> static void element(std::vector<uint8_t> in, EProtocolVersion v, bool (*known)(const T &)) {
  ByteBuffer buf(in, v);
  bool ok = true, odd = false; std::unique_ptr<T> x;
  try { x = std::make_unique<T>(T::Deserialize(buf)); } catch (const DeserializationException &) { ok = false; } catch (...) { ok = false; odd = true; }
  CHECK(!odd, "malformed-is-reported-as-malformed");
  if (!ok) return;
  CHECK(known(*x), "only-known-features");
  EProtocolVersion w = ver();
  std::vector<uint8_t> out = bytes(*x, w);
  ByteBuffer b2(out, w);
  T y = T::Deserialize(b2);
  CHECK(b2.GetRemainingSize() == 0, "reads-all-it-wrote");
  CHECK(eq(*x, y), "survives-every-version");
  if (w == v) {
    CHECK(out.size() == in.size() - buf.GetRemainingSize(), "same-size");
    CHECK(out.size() <= in.size() && sameBytes(out, in, out.size()), "reads-then-writes-the-same-bytes");
  }
}
static bool kIn(const TransactionInput &i) { return ((int)i.GetFeatures() == 0) | ((int)i.GetFeatures() == 1); }
static bool kOut(const TransactionOutput &i) { return ((int)i.GetFeatures() == 0) | ((int)i.GetFeatures() == 1); }
static bool kId(const OutputIdentifier &i) { return ((int)i.GetFeatures() == 0) | ((int)i.GetFeatures() == 1); }
static bool kKer(const TransactionKernel &i) { return (unsigned)i.GetFeatures() <= 3; }
template <class T> static bool any(const T &) { return true; }
HARNESS(input) { setup(); EProtocolVersion v = ver(); element<TransactionInput>(v_bytes("b", v_choose("len", 32, 35)), v, kIn); REACH("input"); }
HARNESS(output) {
  setup(); EProtocolVersion v = ver(); static const uint64_t ps[] = { 0, 1, 3, 675, 676, ~0ull, 1ull << 63 }; uint64_t n = ps[v_choose("proof", 0, 6)];
  std::vector<uint8_t> b = v_bytes("b", 34 + 8 + (n < 700 ? n : 5)); for (int i = 0; i < 8; i++) b[34 + i] = (uint8_t)(n >> (56 - 8 * i));
  if (v_fork("cut")) b.pop_back();
  element<TransactionOutput>(b, v, kOut); REACH("output");
}
HARNESS(identifier) { EProtocolVersion v = ver(); element<OutputIdentifier>(v_bytes("b", v_choose("len", 33, 35)), v, kId); REACH("id"); }
HARNESS(kernel) { EProtocolVersion v = ver(); static const int ls[] = { 97, 98, 106, 107, 113, 114, 115 }; element<TransactionKernel>(v_bytes("b", ls[v_choose("len", 0, 6)]), v, kKer); REACH("kernel"); }
HARNESS(sums) { element<BlockSums>(v_bytes("b", v_choose("len", 65, 67)), EProtocolVersion::V1, any<BlockSums>); REACH("sums"); }
HARNESS(shortid) { element<ShortId>(v_bytes("b", v_choose("len", 5, 7)), EProtocolVersion::V1, any<ShortId>); REACH("shortid"); }
// every well-formed element is accepted as written
template <class T> static void made(const T &x) {
  EProtocolVersion v = ver(); std::vector<uint8_t> o = bytes(x, v); ByteBuffer b(o, v); bool ok = true;
  try { T y = T::Deserialize(b); CHECK(eq(x, y), "well-formed-reads-back-equal"); } catch (...) { ok = false; }
  CHECK(ok, "well-formed-accepted");
}
static Commitment com() { CBigInteger<33> c(v_bytes("commitment", 33)); return Commitment(std::move(c)); }
static Signature sig() { CBigInteger<64> c(v_bytes("signature", 64)); return Signature(std::move(c)); }
static TransactionKernel ker() {
  uint64_t f = v_choose("features", 0, 3), fee = v_u64("fee") & 0xffffffffffull, lock = v_u64("lock"); uint8_t sh = v_u8("shift") & 15;
  if (f == 1) fee = sh = 0; if (f < 2) lock = 0; if (f == 3) verif_assume(lock >= 1 && lock <= 7 * 1440);
  return TransactionKernel((EKernelFeatures)f, Fee(sh, fee), lock, com(), sig());
}
static TransactionOutput outp() { return TransactionOutput((EOutputFeatures)(v_u8("features") & 1), com(), RangeProof(v_bytes("proof", v_choose("proofSize", 0, 2)))); }
static TransactionInput inp() { return TransactionInput((EOutputFeatures)(v_u8("features") & 1), com()); }
HARNESS(madeKernel) { made(ker()); REACH("made"); }
HARNESS(madeOutput) { made(outp()); made(TransactionOutput(EOutputFeatures::DEFAULT, com(), RangeProof(v_bytes("proof", 675)))); made(OutputIdentifier((EOutputFeatures)(v_u8("features") & 1), com())); REACH("made"); }
HARNESS(madeInput) { setup(); made(inp()); REACH("made"); }
HARNESS(madeSpent) { made(SpentOutput(com(), OutputLocation(LeafIndex::At(v_u8("leaf")), v_u64("height")))); made(BlockSums(com(), com())); REACH("made"); }
static void body(size_t ni, size_t no, size_t nk, EProtocolVersion v) {
  setup();
  std::vector<TransactionInput> i; std::vector<TransactionOutput> o; std::vector<TransactionKernel> k;
  for (size_t n = 0; n < ni; n++) i.push_back(inp());
  for (size_t n = 0; n < no; n++) o.push_back(TransactionOutput((EOutputFeatures)(v_u8("features") & 1), com(), RangeProof(v_bytes("proof", 2))));
  for (size_t n = 0; n < nk; n++) k.push_back(TransactionKernel(EKernelFeatures::HEIGHT_LOCKED, Fee(v_u8("shift") & 15, v_u32("fee")), v_u64("lock"), com(), sig()));
  TransactionBody a = TransactionBody::NoSort(i, o, k);
  BlindingFactor off(CBigInteger<32>(v_bytes("offset", 32)));
  Transaction t{ BlindingFactor(off), TransactionBody(a) };
  std::vector<uint8_t> w = bytes(t, v); ByteBuffer b(w, v);
  Transaction u = Transaction::Deserialize(b); const TransactionBody &c = u.GetBody();
  CHECK(b.GetRemainingSize() == 0, "body-reads-all-it-wrote");
  CHECK(u.GetOffset() == off, "offset");
  bool sz = c.GetInputs().size() == ni && c.GetOutputs().size() == no && c.GetKernels().size() == nk; CHECK(sz, "body-sizes");
  bool same = true;
  auto perm = [&same](auto &x, auto &y) { if (x.size() == 1) same = same & eq(x[0], y[0]); if (x.size() == 2) same = same & ((eq(x[0], y[0]) & eq(x[1], y[1])) | (eq(x[0], y[1]) & eq(x[1], y[0]))); };
  if (sz) { perm(i, c.GetInputs()); perm(o, c.GetOutputs()); perm(k, c.GetKernels()); }
  CHECK(same, "body-content");

}
HARNESS(body111) { body(1, 1, 1, ver()); REACH("body"); }
HARNESS(body2) { uint64_t w = v_choose("which", 0, 2); body(w == 0 ? 2 : 0, w == 1 ? 2 : 0, w == 2 ? 2 : 0, ver()); }
// claimed counts never make the reader run beyond the buffer
HARNESS(counts) {
  setup(); EProtocolVersion v = ver(); std::vector<uint8_t> b = v_bytes("b", 24 + v_choose("len", 0, 4) * 17);
  ByteBuffer buf(b, v); bool odd = false;
  try { TransactionBody::Deserialize(buf); REACH("read"); } catch (const DeserializationException &) { REACH("rejected"); } catch (...) { odd = true; }
  CHECK(!odd, "malformed-is-reported-as-malformed");
}
