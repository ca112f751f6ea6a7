//@stubs env hash
//@repo src/PMMR/Common/Index.cpp src/PMMR/Common/MMRUtil.cpp
//@nomerge ^Index::|BitUtil::|^pc|^node
//@concretize BitUtil::FillOnesToRight
//@bounds every node over the leaf numbers below 2^8, and every node of height up to 33 (thorough 48) at the places named by four free bits and one high bit (quick: none, 4, 15, 30; thorough: any up to 50); leaf-number positions below 2^24 (2^40) by a recursion over the highest bit; peak lists of every size below 2^9 (2^13)
//@outside nodes whose place needs more free bits than stated
#include "verif.h"
#include "PMMR/Common/MMRUtil.h"
#include <PMMR/Common/Index.h>
#include <PMMR/Common/LeafIndex.h>
static uint64_t pc(uint64_t x) { uint64_t n = 0; for (int i = 0; i < 64; i++) if ((x >> i) & 1) n++; return n; }
// Postorder position of the node of height h over the 2^h leaves that end with leaf r. Every position is of this form exactly once.
static uint64_t at(uint64_t r, uint64_t h) { return 2 * r - pc(r) + h; }
static void node(uint64_t hi, uint64_t bits, uint64_t h) {
  uint64_t r = (hi | (v_u64("leaf") & ((1ull << bits) - 1))) << h | ((1ull << h) - 1), p = at(r, h);
  Index n = Index::At(p);
  CHECK(n.GetPosition() == p && n.GetHeight() == h, "height-of-every-position");
  CHECK(n.IsLeaf() == (h == 0), "leaf-exactly-at-height-zero");
  bool right = (r >> h) & 1; uint64_t s, e; if (right) { s = r - (1ull << h); e = r; } else e = s = r + (1ull << h);
  Index par = n.GetParent(), sib = n.GetSibling();
  CHECK(par.GetPosition() == at(e, h + 1) && par.GetHeight() == h + 1, "parent");
  CHECK(sib.GetPosition() == at(s, h) && sib.GetHeight() == h, "sibling");
  if (h > 0) {
    Index l = n.GetLeftChild(), c = n.GetRightChild();
    CHECK(l.GetPosition() == at(r - (1ull << (h - 1)), h - 1) && l.GetHeight() == h - 1, "left-child");
    CHECK(c.GetPosition() == at(r, h - 1) && c.GetHeight() == h - 1, "right-child");
  } else {
    CHECK(n.GetLeafIndex() == r, "leaf-number-of-position");
    LeafIndex f = LeafIndex::At(r);
    CHECK(f.Get() == r && f.GetPosition() == p && f.GetIndex().GetHeight() == 0, "position-of-leaf-number");
  }
  REACH("node");
}
HARNESS(small) { uint64_t h = v_choose("height", 0, 7); node(0, 8 - h, h); }
HARNESS(large) {
  uint64_t h = v_choose("height", 0, verif_tier() ? 48 : 33), a = v_choose("top", 0, verif_tier() ? 50 : 3);
  if (!verif_tier()) { static const uint8_t as[] = { 0, 4, 15, 30 }; a = as[a]; }
  if (a + h > 60 || (a && a < 4)) return;
  node(a ? 1ull << a : 0, 4, h);
}
HARNESS(leaves) {
  uint64_t k = v_choose("k", 1, (verif_tier() ? 40 : 24)); uint64_t m = v_u64("leaf") & ((1ull << (k - 1)) - 1), n = m + (1ull << (k - 1));
  LeafIndex a = LeafIndex::At(n), b = LeafIndex::At(m);
  CHECK(a.Get() == n && a.GetPosition() == b.GetPosition() + (1ull << k) - 1 && a.GetIndex().GetHeight() == 0, "position-of-leaf-number");
  REACH("leaf");
}
HARNESS(steps) {
  uint64_t n = v_u64("leaf") & 0xfff; LeafIndex a = LeafIndex::At(n); LeafIndex b = a.Next();
  CHECK(b.Get() == n + 1 && b.Prev().Get() == n && b.Prev().GetPosition() == a.GetPosition(), "next-and-previous-leaf"); REACH("step");
}
// peaks: the sizes of the complete trees, largest first, that add up to the size; none when the size is not a sum of distinct ones
HARNESS(peaks) {
  uint64_t size = v_u64("size") & (verif_tier() ? 8191 : 511), left = size, sum = 0; std::vector<uint64_t> want, got = MMRUtil::GetPeakIndices(size);
  for (int k = 14; k >= 1; k--) if (left >= (1ull << k) - 1) { left -= (1ull << k) - 1; sum += (1ull << k) - 1; want.push_back(sum - 1); }
  if (left) want.clear();
  CHECK(got.size() == want.size(), "peaks-of-every-size"); if (got.size() == want.size()) for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "peaks-of-every-size");
  REACH("peaks");
}
