#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <deque>
#include <unordered_set>

std::vector<VarInfo> g_vars;
size_t g_exprCount = 0;

static inline size_t hmix(size_t h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h; }
static size_t hashExpr(const Expr *e) {
  size_t h = (size_t)e->op * 1000003u + e->w;
  h = hmix(h, e->off);
  h = hmix(h, e->a ? e->a->id + 1 : 0);
  h = hmix(h, e->b ? e->b->id + 1 : 0);
  h = hmix(h, e->c ? e->c->id + 1 : 0);
  if (e->op == Op::CONST) {
    for (unsigned i = 0; i < e->k.getNumWords(); i++) h = hmix(h, e->k.getRawData()[i]);
  }
  return h;
}
struct EH { size_t operator()(const Expr *e) const { return hashExpr(e); } };
struct EEq {
  bool operator()(const Expr *x, const Expr *y) const {
    if (x->op != y->op || x->w != y->w || x->off != y->off || x->a != y->a || x->b != y->b || x->c != y->c) return false;
    return x->op != Op::CONST || x->k == y->k;
  }
};
static std::unordered_set<Expr *, EH, EEq> &table() { static auto *t = new std::unordered_set<Expr *, EH, EEq>(1 << 16); return *t; }

static uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

static uint64_t fillRight(uint64_t x) { x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; return x; }

static void computeRange(Expr *e) {
  if (e->w > 64) { e->lo = 0; e->hi = ~0ULL; return; }
  uint64_t m = maskw(e->w);
  e->lo = 0; e->hi = m;
  switch (e->op) {
  case Op::CONST: e->lo = e->hi = e->k.getZExtValue(); break;
  case Op::CONCAT: {
    uint32_t lw = e->b->w;
    uint64_t al = e->a->lo, ah = e->a->hi;
    if (e->a->w > 64 || e->b->w > 64) break;
    e->lo = (lw >= 64 ? 0 : (al << lw)) + e->b->lo;
    e->hi = (lw >= 64 ? 0 : (ah << lw)) + e->b->hi;
    break;
  }
  case Op::ITE: if (e->b->w <= 64) { e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); } break;
  case Op::ADD: {
    uint64_t h = e->a->hi + e->b->hi;
    if (h >= e->a->hi && h <= m) { e->lo = e->a->lo + e->b->lo; e->hi = h; }
    break;
  }
  case Op::MUL: {
    unsigned __int128 h = (unsigned __int128)e->a->hi * e->b->hi;
    if (h <= m) { e->lo = e->a->lo * e->b->lo; e->hi = (uint64_t)h; }
    break;
  }
  case Op::SUB: if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; } break;
  case Op::AND: e->hi = std::min(e->a->hi, e->b->hi); break;
  case Op::OR: e->lo = std::max(e->a->lo, e->b->lo); e->hi = std::min(m, fillRight(e->a->hi | e->b->hi)); break;
  case Op::XOR: e->hi = std::min(m, fillRight(e->a->hi | e->b->hi)); break;
  case Op::UDIV: if (e->b->lo > 0) { e->lo = e->a->lo / e->b->hi; e->hi = e->a->hi / e->b->lo; } break;
  case Op::UREM: if (e->b->lo > 0) { e->hi = std::min(e->a->hi, e->b->hi - 1); } break;
  case Op::LSHR: e->hi = e->a->hi; break;
  case Op::EXTRACT: if (e->a->w <= 64) {
      if ((e->a->hi >> e->off) <= m) { e->lo = e->a->lo >> e->off; e->hi = e->a->hi >> e->off; }
    } break;
  default: break;
  }
}

static E intern(Op op, uint32_t w, uint32_t off, E a, E b, E c, const APInt *k = nullptr) {
  Expr tmp;
  tmp.op = op; tmp.w = w; tmp.off = off; tmp.a = a; tmp.b = b; tmp.c = c;
  if (k) tmp.k = *k;
  auto &t = table();
  auto it = t.find(&tmp);
  if (it != t.end()) return *it;
  Expr *e = new Expr();
  e->op = op; e->w = w; e->off = off; e->a = a; e->b = b; e->c = c;
  if (k) e->k = *k;
  e->id = (uint32_t)g_exprCount++;
  computeRange(e);
  if (e->w <= 64 && e->op != Op::CONST && e->lo == e->hi) {
    APInt kv(w, e->lo);
    uint32_t id = e->id; (void)id;
    delete e; g_exprCount--;
    return intern(Op::CONST, w, 0, nullptr, nullptr, nullptr, &kv);
  }
  t.insert(e);
  return e;
}

E mkConst(const APInt &v) { return intern(Op::CONST, v.getBitWidth(), 0, nullptr, nullptr, nullptr, &v); }
E mkConst(uint64_t v, uint32_t w) { APInt k(w, w < 64 ? (v & maskw(w)) : v); return mkConst(k); }
E mkVar(const std::string &name, uint32_t w) {
  uint32_t id = (uint32_t)g_vars.size();
  g_vars.push_back({name, w});
  return intern(Op::VAR, w, id, nullptr, nullptr, nullptr);
}
static inline bool isK(E e, uint64_t v) { return e->isConst() && e->k == v; }
static inline bool isAllOnes(E e) { return e->isConst() && e->k.isAllOnes(); }

// decompose into segments (from low to high), looking through CONCAT and CONST only
struct Seg { uint32_t off, w; E e; };
static void segs(E e, uint32_t base, std::vector<Seg> &out) {
  while (e->op == Op::CONCAT) { segs(e->b, base, out); base += e->b->w; e = e->a; }
  out.push_back({base, e->w, e});
}
static E fromSegs(const std::vector<E> &lowToHigh) {
  E r = lowToHigh[0];
  for (size_t i = 1; i < lowToHigh.size(); i++) r = mkConcat(lowToHigh[i], r);
  return r;
}
// split into const-run-aware pieces at the union of cut points
static bool segmentwise(Op op, E a, E b, E &out) {
  if (a->op != Op::CONCAT && b->op != Op::CONCAT && !a->isConst() && !b->isConst()) return false;
  std::vector<uint32_t> cuts;
  std::vector<Seg> sa, sb;
  segs(a, 0, sa); segs(b, 0, sb);
  if (sa.size() + sb.size() > 64) { if (sa.size() + sb.size() > 400) return false; }
  for (auto &s : sa) cuts.push_back(s.off);
  for (auto &s : sb) cuts.push_back(s.off);
  auto addConstRuns = [&](const std::vector<Seg> &sv) {
    for (auto &s : sv) if (s.e->isConst() && s.w > 1) {
      unsigned runs = 0;
      std::vector<uint32_t> c2;
      bool prev = s.e->k[0];
      for (uint32_t i = 1; i < s.w; i++) { bool bit = s.e->k[i]; if (bit != prev) { c2.push_back(s.off + i); prev = bit; runs++; } }
      if (runs > 16) return false;
      cuts.insert(cuts.end(), c2.begin(), c2.end());
    }
    return true;
  };
  if (!addConstRuns(sa) || !addConstRuns(sb)) return false;
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() < 2) return false;
  cuts.push_back(a->w);
  std::vector<E> parts;
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    uint32_t o = cuts[i], w = cuts[i + 1] - o;
    E x = mkExtract(a, o, w), y = mkExtract(b, o, w);
    E r = nullptr;
    if (x->isConst() && y->isConst()) r = mkBin(op == Op::ADD ? Op::OR : op, x, y);
    if (op == Op::ADD) { if (isK(x, 0)) r = y; else if (isK(y, 0)) r = x; else return false; }
    else if (!r) {
      if (isK(x, 0)) r = op == Op::AND ? x : y;
      else if (isK(y, 0)) r = op == Op::AND ? y : x;
      else if (isAllOnes(x) && op != Op::XOR) r = op == Op::AND ? y : x;
      else if (isAllOnes(y) && op != Op::XOR) r = op == Op::AND ? x : y;
      else if (x == y && op != Op::XOR) r = x;
      else return false;
    }
    parts.push_back(r);
  }
  out = fromSegs(parts);
  return true;
}

E mkNot(E a) {
  if (a->isConst()) return mkConst(a->k == 0 ? 1 : 0, 1);
  switch (a->op) {
  case Op::XOR: if (isK(a->b, 1)) return a->a; break;
  case Op::ULT: return mkUle(a->b, a->a);
  case Op::ULE: return mkUlt(a->b, a->a);
  case Op::SLT: return mkSle(a->b, a->a);
  case Op::SLE: return mkSlt(a->b, a->a);
  default: break;
  }
  return intern(Op::XOR, 1, 0, a, mkConst(1, 1), nullptr);
}

static E constFold(Op op, const APInt &x, const APInt &y) {
  switch (op) {
  case Op::ADD: return mkConst(x + y);
  case Op::SUB: return mkConst(x - y);
  case Op::MUL: return mkConst(x * y);
  case Op::UDIV: return y == 0 ? mkConst(APInt::getAllOnes(x.getBitWidth())) : mkConst(x.udiv(y));
  case Op::SDIV: return y == 0 ? mkConst(x.isNegative() ? APInt(x.getBitWidth(), 1) : APInt::getAllOnes(x.getBitWidth())) : mkConst(x.sdiv(y));
  case Op::UREM: return y == 0 ? mkConst(x) : mkConst(x.urem(y));
  case Op::SREM: return y == 0 ? mkConst(x) : mkConst(x.srem(y));
  case Op::AND: return mkConst(x & y);
  case Op::OR: return mkConst(x | y);
  case Op::XOR: return mkConst(x ^ y);
  case Op::SHL: return mkConst(y.uge(x.getBitWidth()) ? APInt(x.getBitWidth(), 0) : x.shl(y));
  case Op::LSHR: return mkConst(y.uge(x.getBitWidth()) ? APInt(x.getBitWidth(), 0) : x.lshr(y));
  case Op::ASHR: return mkConst(y.uge(x.getBitWidth()) ? x.ashr(x.getBitWidth() - 1) : x.ashr(y));
  default: return nullptr;
  }
}

E mkBin(Op op, E a, E b) {
  uint32_t w = a->w;
  switch (op) {
  case Op::EQ: return mkEq(a, b);
  case Op::ULT: return mkUlt(a, b);
  case Op::ULE: return mkUle(a, b);
  case Op::SLT: return mkSlt(a, b);
  case Op::SLE: return mkSle(a, b);
  default: break;
  }
  if (a->isConst() && b->isConst()) return constFold(op, a->k, b->k);
  bool comm = op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR;
  if (comm) {
    if (a->isConst()) std::swap(a, b);
    else if (!b->isConst() && a->id > b->id) std::swap(a, b);
  }
  // push into ITE with constant arms when other side const
  if (b->isConst() && a->op == Op::ITE && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, constFold(op, a->b->k, b->k), constFold(op, a->c->k, b->k));
  switch (op) {
  case Op::ADD: {
    if (isK(b, 0)) return a;
    if (w == 1) return mkBin(Op::XOR, a, b);
    if (b->isConst() && a->op == Op::ADD && a->b->isConst()) return mkBin(Op::ADD, a->a, mkConst(a->b->k + b->k));
    if (b->isConst() && a->op == Op::SUB && a->a->isConst()) return mkBin(Op::SUB, mkConst(a->a->k + b->k), a->b);
    if (!b->isConst()) {
      if (a->op == Op::ADD && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
      if (b->op == Op::ADD && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
      if (b->op == Op::SUB && b->b == a) return b->a;
      if (a->op == Op::SUB && a->b == b) return a->a;
    }
    E r; if (w <= 128 && segmentwise(Op::ADD, a, b, r)) return r;
    break;
  }
  case Op::SUB:
    if (isK(b, 0)) return a;
    if (a == b) return mkConst(0, w);
    if (w == 1) return mkBin(Op::XOR, a, b);
    if (b->isConst()) return mkAdd(a, mkConst(-b->k));
    if (a->op == Op::ADD) {
      if (a->a == b) return a->b;
      if (a->b == b) return a->a;
    }
    if (a->op == Op::ADD && a->b->isConst()) return mkAdd(mkSub(a->a, b), a->b);
    if (b->op == Op::ADD && b->b->isConst()) return mkAdd(mkSub(a, b->a), mkConst(-b->b->k));
    if (a->op == Op::ADD && b->op == Op::ADD) {
      if (a->a == b->a) return mkSub(a->b, b->b);
      if (a->b == b->b) return mkSub(a->a, b->a);
      if (a->a == b->b) return mkSub(a->b, b->a);
      if (a->b == b->a) return mkSub(a->a, b->b);
    }
    break;
  case Op::MUL:
    if (isK(b, 0)) return b;
    if (isK(b, 1)) return a;
    if (w == 1) return mkAnd(a, b);
    if (b->isConst() && b->k.isPowerOf2()) return mkBin(Op::SHL, a, mkConst(b->k.logBase2(), w));
    if (b->isConst() && a->op == Op::MUL && a->b->isConst()) return mkBin(Op::MUL, a->a, mkConst(a->b->k * b->k));
    break;
  case Op::UDIV:
    if (isK(b, 1)) return a;
    if (isK(a, 0) && b->lo > 0 && w <= 64) return a;
    if (b->isConst() && b->k.isPowerOf2()) return mkBin(Op::LSHR, a, mkConst(b->k.logBase2(), w));
    if (w <= 64 && b->lo > 0 && a->hi < b->lo) return mkConst(0, w);
    if (b->isConst() && w <= 64 && b->lo > 0 && a->op == Op::MUL && a->b->isConst() && a->b->lo >= b->lo && a->b->lo % b->lo == 0) { // (x * qk) / k without overflow
      unsigned __int128 t = (unsigned __int128)a->a->hi * a->b->lo;
      if (t <= (w == 64 ? ~0ULL : ((1ULL << w) - 1))) return mkBin(Op::MUL, a->a, mkConst(a->b->lo / b->lo, w));
    }
    if (b->isConst() && w <= 64 && b->lo > 0 && a->op == Op::ADD && a->b->isConst() && a->a->op == Op::MUL && a->a->b->isConst() && a->a->b->lo >= b->lo && a->a->b->lo % b->lo == 0) { // (x * qk + c) / k
      unsigned __int128 t = (unsigned __int128)a->a->a->hi * a->a->b->lo + a->b->lo;
      if (t <= (w == 64 ? ~0ULL : ((1ULL << w) - 1))) return mkAdd(mkBin(Op::MUL, a->a->a, mkConst(a->a->b->lo / b->lo, w)), mkConst(a->b->lo / b->lo, w));
    }
    if (b->isConst() && w <= 64 && b->lo > 0) { // narrow
      uint32_t nw = 64 - __builtin_clzll(std::max(a->hi, b->hi) | 1);
      if (nw < w && nw > 0) return mkZExt(mkBin(Op::UDIV, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
    }
    break;
  case Op::UREM:
    if (isK(b, 1)) return mkConst(0, w);
    if (b->isConst() && b->k.isPowerOf2()) return mkAnd(a, mkConst(b->k - 1));
    if (w <= 64 && b->lo > 0 && a->hi < b->lo) return a;
    if (b->isConst() && w <= 64 && b->lo > 0) {
      uint32_t nw = 64 - __builtin_clzll(std::max(a->hi, b->hi) | 1);
      if (nw < w && nw > 0) return mkZExt(mkBin(Op::UREM, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
    }
    break;
  case Op::SDIV:
    if (isK(b, 1)) return a;
    if (w <= 64 && a->hi < (1ULL << (w - 1)) && b->hi < (1ULL << (w - 1))) return mkBin(Op::UDIV, a, b);
    break;
  case Op::SREM:
    if (isK(b, 1)) return mkConst(0, w);
    if (w <= 64 && a->hi < (1ULL << (w - 1)) && b->hi < (1ULL << (w - 1))) return mkBin(Op::UREM, a, b);
    break;
  case Op::AND: {
    if (isK(b, 0)) return b;
    if (isAllOnes(b) || a == b) return a;
    if (b->isConst() && a->op == Op::AND && a->b->isConst()) return mkAnd(a->a, mkConst(a->b->k & b->k));
    if (w == 1) {
      if (mkNot(a) == b) return mkFalse();
      if (a->op == Op::AND && (a->a == b || a->b == b)) return a;
      if (b->op == Op::AND && (b->a == a || b->b == a)) return b;
      break;
    }
    E r; if (segmentwise(Op::AND, a, b, r)) return r;
    break;
  }
  case Op::OR: {
    if (isK(b, 0) || a == b) return a;
    if (isAllOnes(b)) return b;
    if (w == 1) {
      if (mkNot(a) == b) return mkTrue();
      if (a->op == Op::OR && (a->a == b || a->b == b)) return a;
      if (b->op == Op::OR && (b->a == a || b->b == a)) return b;
      break;
    }
    E r; if (segmentwise(Op::OR, a, b, r)) return r;
    break;
  }
  case Op::XOR: {
    if (isK(b, 0)) return a;
    if (a == b) return mkConst(0, w);
    if (w == 1 && isK(b, 1)) return mkNot(a);
    if (b->isConst() && a->op == Op::XOR && a->b->isConst()) return mkBin(Op::XOR, a->a, mkConst(a->b->k ^ b->k));
    if (w == 1) break;
    E r; if (segmentwise(Op::XOR, a, b, r)) return r;
    break;
  }
  case Op::SHL:
    if (b->isConst()) {
      if (b->k.uge(w)) return mkConst(0, w);
      uint32_t s = (uint32_t)b->k.getZExtValue();
      if (!s) return a;
      return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    if (isK(a, 0)) return a;
    break;
  case Op::LSHR:
    if (b->isConst()) {
      if (b->k.uge(w)) return mkConst(0, w);
      uint32_t s = (uint32_t)b->k.getZExtValue();
      if (!s) return a;
      return mkConcat(mkConst(0, s), mkExtract(a, s, w - s));
    }
    if (isK(a, 0)) return a;
    break;
  case Op::ASHR:
    if (b->isConst()) {
      uint32_t s = b->k.uge(w) ? w - 1 : (uint32_t)b->k.getZExtValue();
      if (!s) return a;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  default: break;
  }
  return intern(op, w, 0, a, b, nullptr);
}

static bool topBitZero(E e) {
  if (e->w <= 64) return e->hi < (1ULL << (e->w - 1));
  if (e->op == Op::CONCAT) return topBitZero(e->a);
  if (e->isConst()) return !e->k.isNegative();
  return false;
}

E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkConst(a->k == b->k, 1);
  if (a->isConst()) std::swap(a, b);
  uint32_t w = a->w;
  if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkFalse();
  if (w == 1) {
    if (isK(b, 1)) return a;
    if (isK(b, 0)) return mkNot(a);
  }
  if (b->isConst()) {
    if (a->op == Op::ITE) {
      E x = a->b, y = a->c;
      if (x->isConst() || y->isConst()) {
        E ex = mkEq(x, b), ey = mkEq(y, b);
        return mkIte(a->a, ex, ey);
      }
    }
    if (a->op == Op::ADD && a->b->isConst()) return mkEq(a->a, mkConst(b->k - a->b->k));
    if (a->op == Op::SUB && b->k == 0) return mkEq(a->a, a->b);
    if (a->op == Op::SUB && a->a->isConst()) return mkEq(a->b, mkConst(a->a->k - b->k));
    if (a->op == Op::XOR && a->b->isConst()) return mkEq(a->a, mkConst(b->k ^ a->b->k));
    if (a->op == Op::XOR && b->k == 0) return mkEq(a->a, a->b);
    if (a->op == Op::OR && b->k == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
    if (a->op == Op::SEXT) {
      APInt t = b->k.trunc(a->a->w);
      if (t.sext(w) != b->k) return mkFalse();
      return mkEq(a->a, mkConst(t));
    }
  }
  if (a->op == Op::SEXT && b->op == Op::SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->op == Op::ADD && b->op == Op::ADD) {
    if (a->a == b->a) return mkEq(a->b, b->b);
    if (a->b == b->b) return mkEq(a->a, b->a);
  }
  if (a->op == Op::CONCAT || (b->op == Op::CONCAT)) {
    std::vector<Seg> sa, sb;
    segs(a, 0, sa); segs(b, 0, sb);
    std::vector<uint32_t> cuts;
    for (auto &s : sa) cuts.push_back(s.off);
    for (auto &s : sb) cuts.push_back(s.off);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    cuts.push_back(w);
    E r = mkTrue();
    std::vector<E> parts;
    for (size_t i = 0; i + 1 < cuts.size(); i++) {
      E q = mkEq(mkExtract(a, cuts[i], cuts[i + 1] - cuts[i]), mkExtract(b, cuts[i], cuts[i + 1] - cuts[i]));
      if (isFalse(q)) return q;
      parts.push_back(q);
    }
    for (E q : parts) r = mkAnd(r, q);
    return r;
  }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return intern(Op::EQ, 1, 0, a, b, nullptr);
}

// strip a common constant/identical high prefix
static bool stripPrefix(E &a, E &b) {
  if (a->op != Op::CONCAT && b->op != Op::CONCAT) return false;
  E ha = a->op == Op::CONCAT ? a->a : nullptr, hb = b->op == Op::CONCAT ? b->a : nullptr;
  uint32_t hw = std::min(ha ? ha->w : a->w, hb ? hb->w : b->w);
  if (hw >= a->w) return false;
  E x = mkExtract(a, a->w - hw, hw), y = mkExtract(b, b->w - hw, hw);
  if (x != y) return false;
  uint32_t nw = a->w - hw;
  a = mkExtract(a, 0, nw); b = mkExtract(b, 0, nw);
  return true;
}

E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return mkConst(a->k.ult(b->k), 1);
  if (a->w <= 64) {
    if (a->hi < b->lo) return mkTrue();
    if (a->lo >= b->hi) return mkFalse();
  }
  if (isK(b, 0)) return mkFalse();
  if (isK(b, 1)) return mkEq(a, mkConst(0, a->w));
  if (isK(a, 0)) return mkNot(mkEq(b, a));
  if (isAllOnes(a)) return mkFalse();
  if (isAllOnes(b)) return mkNot(mkEq(a, b));
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (stripPrefix(a, b)) return mkUlt(a, b);
  if (b->isConst() && a->op == Op::ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  if (a->isConst() && b->op == Op::ITE && (b->b->isConst() || b->c->isConst())) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  return intern(Op::ULT, 1, 0, a, b, nullptr);
}
E mkUle(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkConst(a->k.ule(b->k), 1);
  if (a->w <= 64) {
    if (a->hi <= b->lo) return mkTrue();
    if (a->lo > b->hi) return mkFalse();
  }
  if (isK(a, 0)) return mkTrue();
  if (isAllOnes(b)) return mkTrue();
  if (b->isConst()) return mkUlt(a, mkConst(b->k + 1));
  if (a->isConst()) return mkUlt(mkConst(a->k - 1), b);
  if (a->w == 1) return mkOr(mkNot(a), b);
  if (stripPrefix(a, b)) return mkUle(a, b);
  return intern(Op::ULE, 1, 0, a, b, nullptr);
}
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return mkConst(a->k.slt(b->k), 1);
  bool za = topBitZero(a), zb = topBitZero(b);
  if (za && zb) return mkUlt(a, b);
  if (a->w <= 64) {
    uint64_t s = 1ULL << (a->w - 1);
    bool na = a->lo >= s, nb = b->lo >= s;
    if (na && zb) return mkTrue();
    if (za && nb) return mkFalse();
    if (na && nb) return mkUlt(a, b);
  }
  if (a->op == Op::SEXT && b->op == Op::SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (b->isConst() && b->k == 0) return mkExtract(a, a->w - 1, 1);
  if (a->isConst() && a->k.isAllOnes()) return mkNot(mkExtract(b, b->w - 1, 1));
  if (b->isConst() && a->op == Op::ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (a->isConst() && b->op == Op::ITE && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
  return intern(Op::SLT, 1, 0, a, b, nullptr);
}
E mkSle(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkConst(a->k.sle(b->k), 1);
  if (topBitZero(a) && topBitZero(b)) return mkUle(a, b);
  if (b->isConst() && !b->k.isMaxSignedValue()) return mkSlt(a, mkConst(b->k + 1));
  if (a->isConst() && !a->k.isMinSignedValue()) return mkSlt(mkConst(a->k - 1), b);
  if (b->isConst() || (a->isConst())) return mkTrue();
  return intern(Op::SLE, 1, 0, a, b, nullptr);
}

E mkZExt(E a, uint32_t w) { return a->w == w ? a : mkConcat(mkConst(0, w - a->w), a); }
E mkSExt(E a, uint32_t w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->k.sext(w));
  if (topBitZero(a)) return mkZExt(a, w);
  if (a->op == Op::SEXT) return mkSExt(a->a, w);
  if (a->op == Op::ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(Op::SEXT, w, 0, a, nullptr, nullptr);
}
E mkExtract(E a, uint32_t off, uint32_t w) {
  for (;;) {
    if (off == 0 && w == a->w) return a;
    if (a->op == Op::CONCAT) {
      uint32_t lw = a->b->w;
      if (off + w <= lw) { a = a->b; continue; }
      if (off >= lw) { off -= lw; a = a->a; continue; }
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    if (a->op == Op::EXTRACT) { off += a->off; a = a->a; continue; }
    break;
  }
  if (a->isConst()) return mkConst(a->k.extractBits(w, off));
  switch (a->op) {
  case Op::SEXT:
    if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    if (off < a->a->w) return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
    return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
  case Op::ITE:
    if ((a->b->isConst() || a->b->op == Op::CONCAT) || (a->c->isConst() || a->c->op == Op::CONCAT))
      return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
    break;
  case Op::AND: case Op::OR: case Op::XOR:
    return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  case Op::ADD: case Op::SUB: case Op::MUL:
    if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  if (a->w <= 64) {
    if (off < 64 && (a->hi >> off) == 0) return mkConst(0, w);
    if (off > 0 && off + w < a->w) {} 
    // trim top zero bits
    uint32_t sig = a->hi ? 64 - __builtin_clzll(a->hi) : 1;
    if (sig > off && off + w > sig && sig < a->w && sig - off < w)
      return mkConcat(mkConst(0, w - (sig - off)), mkExtract(a, off, sig - off));
  }
  return intern(Op::EXTRACT, w, off, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo) {
  if (hi->op == Op::CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->isConst() && lo->isConst()) {
    APInt r = lo->k.zext(hi->w + lo->w);
    r.insertBits(hi->k, lo->w);
    return mkConst(r);
  }
  E first = lo->op == Op::CONCAT ? lo->a : lo;
  E rest = lo->op == Op::CONCAT ? lo->b : nullptr;
  E merged = nullptr;
  if (hi->isConst() && first->isConst()) merged = mkConcat(hi, first);
  else if (hi->op == Op::EXTRACT && first->op == Op::EXTRACT && hi->a == first->a && hi->off == first->off + first->w)
    merged = mkExtract(hi->a, first->off, hi->w + first->w);
  else if (hi->op == Op::EXTRACT && hi->off == first->w && (hi->a->op == Op::ADD || hi->a->op == Op::SUB || hi->a->op == Op::MUL) && mkExtract(hi->a, 0, first->w) == first)
    merged = mkExtract(hi->a, 0, hi->w + first->w);
  else if (hi->op == first->op && (hi->op == Op::AND || hi->op == Op::OR || hi->op == Op::XOR) && hi->a->op == Op::EXTRACT && hi->w > 1 && first->w > 1) {
    E ca = mkConcat(hi->a, first->a), cb = mkConcat(hi->b, first->b);
    if (ca->op != Op::CONCAT && cb->op != Op::CONCAT) merged = mkBin(hi->op, ca, cb);
  }
  if (merged) return rest ? mkConcat(merged, rest) : merged;
  // Concat(ITE(c,k1,k2), ITE(c,k3,k4)) -> ITE(c, .., ..)
  if (hi->op == Op::ITE && first->op == Op::ITE && hi->a == first->a) {
    E m = mkIte(hi->a, mkConcat(hi->b, first->b), mkConcat(hi->c, first->c));
    return rest ? mkConcat(m, rest) : m;
  }
  return intern(Op::CONCAT, hi->w + lo->w, 0, hi, lo, nullptr);
}
E mkIte(E c, E t, E f) {
  if (c->isConst()) return c->k == 1 ? t : f;
  if (t == f) return t;
  if (c->op == Op::XOR && isK(c->b, 1)) { std::swap(t, f); c = c->a; }
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkOr(c, f);
    if (isFalse(t)) return mkAnd(mkNot(c), f);
    if (isTrue(f)) return mkOr(mkNot(c), t);
    if (isFalse(f)) return mkAnd(c, t);
  }
  if (t->op == Op::ITE && t->a == c) t = t->b;
  if (f->op == Op::ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (f->op == Op::ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  return intern(Op::ITE, t->w, 0, c, t, f);
}

static std::deque<VarSet> g_varsets;
static std::unordered_map<std::string, const VarSet *> g_vsIntern;
const VarSet *varsOf(E e) {
  if (e->vars) return e->vars;
  // iterative post-order
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && !k->vars) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    std::vector<uint32_t> v;
    if (x->op == Op::VAR) v.push_back(x->off);
    const VarSet *only = nullptr; int cnt = 0;
    for (E k : {x->a, x->b, x->c}) if (k && !k->vars->v.empty()) {
      if (k->vars != only) { only = k->vars; cnt++; v.insert(v.end(), k->vars->v.begin(), k->vars->v.end()); }
    }
    if (cnt == 1 && x->op != Op::VAR) { x->vars = only; continue; }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    std::string key((const char *)v.data(), v.size() * 4);
    auto &slot = g_vsIntern[key];
    if (!slot) { g_varsets.push_back({v}); slot = &g_varsets.back(); }
    x->vars = slot;
  }
  return e->vars;
}

static uint64_t g_modelId = 1;
Model::Model() : id(g_modelId++) {}
Model::Model(const Model &o) : id(g_modelId++), vals(o.vals) {}
APInt Model::get(uint32_t v) const {
  uint32_t w = g_vars[v].w;
  if (v < vals.size() && vals[v].getBitWidth() == w) return vals[v];
  return APInt(w, 0);
}

struct Memo { uint64_t model = 0; uint64_t v = 0; };
static std::vector<Memo> g_memo;
static std::unordered_map<uint32_t, APInt> g_wide; static uint64_t g_wideModel = 0;

static APInt evalRec(E e, const Model &m) {
  if (e->op == Op::CONST) return e->k;
  if (e->w <= 64) {
    if (e->id < g_memo.size() && g_memo[e->id].model == m.id) return APInt(e->w, g_memo[e->id].v);
  } else {
    auto it = g_wide.find(e->id);
    if (it != g_wide.end()) return it->second;
  }
  APInt r(1, 0);
  switch (e->op) {
  case Op::VAR: r = m.get(e->off); break;
  case Op::EQ: r = APInt(1, evalRec(e->a, m) == evalRec(e->b, m)); break;
  case Op::ULT: r = APInt(1, evalRec(e->a, m).ult(evalRec(e->b, m))); break;
  case Op::ULE: r = APInt(1, evalRec(e->a, m).ule(evalRec(e->b, m))); break;
  case Op::SLT: r = APInt(1, evalRec(e->a, m).slt(evalRec(e->b, m))); break;
  case Op::SLE: r = APInt(1, evalRec(e->a, m).sle(evalRec(e->b, m))); break;
  case Op::SEXT: r = evalRec(e->a, m).sext(e->w); break;
  case Op::EXTRACT: r = evalRec(e->a, m).extractBits(e->w, e->off); break;
  case Op::CONCAT: { APInt lo = evalRec(e->b, m).zext(e->w); lo.insertBits(evalRec(e->a, m), e->b->w); r = lo; break; }
  case Op::ITE: r = evalRec(e->a, m) == 1 ? evalRec(e->b, m) : evalRec(e->c, m); break;
  default: {
    APInt x = evalRec(e->a, m);
    if (e->w == 1 && e->op == Op::AND && x == 0) { r = x; break; }
    if (e->w == 1 && e->op == Op::OR && x == 1) { r = x; break; }
    APInt y = evalRec(e->b, m);
    switch (e->op) {
    case Op::ADD: r = x + y; break;
    case Op::SUB: r = x - y; break;
    case Op::MUL: r = x * y; break;
    case Op::AND: r = x & y; break;
    case Op::OR: r = x | y; break;
    case Op::XOR: r = x ^ y; break;
    default: r = constFold(e->op, x, y)->k;
    }
  }
  }
  if (e->w <= 64) {
    if (e->id >= g_memo.size()) g_memo.resize(g_exprCount + 1024);
    g_memo[e->id] = {m.id, r.getZExtValue()};
  } else g_wide.emplace(e->id, r);
  return r;
}
APInt evalExpr(E e, const Model &m) {
  if (g_wideModel != m.id) { g_wide.clear(); g_wideModel = m.id; }
  return evalRec(e, m);
}

std::string exprStr(E e, int depth) {
  static const char *names[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>a", "==", "<u", "<=u", "<s", "<=s", "sext", "extract", "concat", "ite"};
  if (e->isConst()) { llvm::SmallString<64> s; e->k.toString(s, 16, false, true); return std::string(s.str()) + ":" + std::to_string(e->w); }
  if (e->op == Op::VAR) return g_vars[e->off].name + "#" + std::to_string(e->off) + ":" + std::to_string(e->w);
  if (depth <= 0) return "..";
  std::string r = std::string("(") + names[(int)e->op];
  if (e->op == Op::EXTRACT) r += "[" + std::to_string(e->off + e->w - 1) + ":" + std::to_string(e->off) + "]";
  for (E k : {e->a, e->b, e->c}) if (k) r += " " + exprStr(k, depth - 1);
  return r + ")";
}
