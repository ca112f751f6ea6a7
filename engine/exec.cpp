#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

static uint64_t MASK(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t SX(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Violation { std::string label, detail, where; std::string modelFile; };

// thrown inside instruction execution
struct PathEnd { };              // path is finished (killed)

struct Ctx {
  struct Engine *eng; State *s; Fn *fn; CallInfo *ci; Val *args; size_t n;
  Val ret[4]; bool jumped = false;   // jumped: control already transferred
};

struct Engine {
  std::unique_ptr<Module> M;
  const DataLayout *DL = nullptr;
  std::vector<Val> cpool;
  std::unordered_map<const Function *, Fn *> fnMap;
  std::vector<Fn *> fns;
  std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
  std::unordered_map<uint32_t, const GlobalVariable *> gByObj;
  std::unordered_map<std::string, Builtin> builtins;
  std::vector<State *> work;
  std::map<const void *, int> typeIds;
  int nextTypeId = 1;
  // results
  std::vector<Violation> viols;
  std::set<std::string> violLabels, reached, checked;
  std::map<std::string, uint64_t> incompl;
  uint64_t paths = 0, forks = 0, steps = 0, killed = 0, merges = 0, mergeFail = 0, checks = 0, transitions = 0;
  std::vector<std::string> samples;
  std::string modelDir, entry;
  int tier = 0;
  double deadline = 0;
  bool trace = false;
  uint64_t maxAlloc = 64ull << 20;
  uint64_t stepLimit = 200000000ull;
  uint64_t forkEnumLimit = 4096;
  std::map<const Instruction *, uint64_t> forkSites;
  std::map<std::string, uint64_t> forkFns;
  bool profile = false;
  // parallel
  volatile int *slots = nullptr; int maxSlots = 1; bool isChild = false; std::string outFile; int childN = 0;
  std::vector<pid_t> kids;

  // ------------------------------------------------------------ helpers
  E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  Val toV(E e) {
    if (e->isConst() && e->w <= 64) return VC(e->k.getZExtValue());
    return Val{0, e};
  }
  static Val *regs(State &s) { return s.st.back().regs.data(); }
  Val get(State &s, int32_t i) { return i >= 0 ? s.st.back().regs[i] : cpool[-(i + 1)]; }
  static int32_t slot(int32_t i, int j) { return i >= 0 ? i + j : i - j; }

  void incomplete(State &s, const std::string &why) {
    std::string w = why + " at " + where(s);
    if (!incompl[w]++) fprintf(stderr, "[incomplete] %s\n", w.c_str());
  }
  [[noreturn]] void giveUp(State &s, const std::string &why) { incomplete(s, why); throw PathEnd(); }

  std::string locOf(const Instruction *I) {
    if (!I) return "?";
    std::string r;
    if (auto *dl = I->getDebugLoc().get()) {
      auto *sc = dl;
      r = sc->getFilename().str() + ":" + std::to_string(sc->getLine());
    } else r = "?";
    return r;
  }
  std::string where(State &s, int n = 6) {
    std::string r;
    for (int i = (int)s.st.size() - 1; i >= 0 && n > 0; i--, n--) {
      Frame &f = s.st[i];
      if (!r.empty()) r += " < ";
      std::string nm = f.fn->demangled.substr(0, 90);
      r += nm + "@" + (f.pc < f.fn->code.size() ? locOf(f.fn->code[f.pc].src) : "?");
    }
    return r;
  }

  // ------------------------------------------------------------ state / forks
  void addPc(State &s, E c) {
    if (c->isConst()) return;
    if (c->op == Op::AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
    auto it = s.eq.find(c);
    if (it != s.eq.end() && it->second == 1) return;
    s.pc.push_back(c);
    s.eq[c] = 1;
    E n = mkNot(c);
    s.eq[n] = 0;
    if (c->op == Op::EQ && c->b->isConst() && c->b->w <= 64) s.eq[c->a] = c->b->k.getZExtValue();
    if (c->op == Op::EQ && c->a->isConst() && c->a->w <= 64) s.eq[c->b] = c->a->k.getZExtValue();
  }
  State *cloneState(State &s) {
    State *n = new State(s);
    for (auto &f : n->st) if (f.group) f.group->outstanding++;
    n->forks++; s.forks++;
    forks++;
    if (profile) { Frame &f = s.st.back(); const Instruction *I = f.fn->code[f.pc].src; forkSites[I]++; forkFns[f.fn->demangled]++; }
    return n;
  }
  // groups with a dead member
  void leaveGroups(State &s, size_t downTo) {
    for (size_t i = s.st.size(); i-- > downTo;) if (Group *g = s.st[i].group) {
      s.st[i].group = nullptr;
      g->lost = true;
      if (--g->outstanding == (int)g->parked.size()) finishGroup(g);
    }
  }
  void kill(State *s) {
    leaveGroups(*s, 0);
    delete s;
  }
  bool decide(State &s, E c) {
    if (c->isConst()) return c->k == 1;
    if (c->op == Op::XOR && c->w == 1 && c->b->isConst()) return !decide(s, c->a);
    auto it = s.eq.find(c);
    if (it != s.eq.end()) return it->second;
    bool mv = evalExpr(c, *s.model) == 1;
    E oc = mv ? mkNot(c) : c;
    ModelPtr m2;
    Res r = solverCheck(s.pc, oc, s.model, m2);
    transitions++;
    if (r == Res::UNKNOWN) incomplete(s, "solver-unknown");
    if (r != Res::SAT) { s.eq[c] = mv; return mv; }
    State *n = cloneState(s);
    addPc(*n, oc); n->model = m2;
    n->eq[c] = !mv;
    work.push_back(n);
    addPc(s, mv ? c : mkNot(c));
    s.eq[c] = mv;
    return mv;
  }
  // constrain without forking the other side; returns false when infeasible
  bool assume(State &s, E c) {
    if (c->isConst()) return c->k == 1;
    auto it = s.eq.find(c);
    if (it != s.eq.end()) return it->second;
    if (evalExpr(c, *s.model) != 1) {
      ModelPtr m2;
      Res r = solverCheck(s.pc, c, s.model, m2);
      if (r == Res::UNKNOWN) incomplete(s, "solver-unknown");
      if (r != Res::SAT) return false;
      s.model = m2;
    }
    // other side may be feasible: it is dropped, so merge groups become partial
    for (auto &f : s.st) if (f.group) f.group->lost = true;
    addPc(s, c);
    return true;
  }
  uint64_t concretize(State &s, Val v, unsigned w, const char *what = "value") {
    if (!v.e) return v.c;
    auto it = s.eq.find(v.e);
    if (it != s.eq.end()) return it->second;
    if (w > 64) giveUp(s, "concretize wide");
    static std::unordered_map<E, uint64_t> cnt;
    for (;;) {
      uint64_t k = evalExpr(v.e, *s.model).getZExtValue();
      E c = mkEq(v.e, mkConst(k, w));
      if (decide(s, c)) { s.eq[v.e] = k; return k; }
    }
  }

  // ------------------------------------------------------------ violations
  std::string dumpModel(State &s, const Model &m, const std::string &label) {
    static int n = 0;
    std::string safe;
    for (char c : label) safe += (isalnum((unsigned char)c) || c == '_' || c == '-') ? c : '_';
    if (safe.size() > 60) safe.resize(60);
    std::string f = modelDir + "/" + entry + "." + safe + "." + std::to_string(getpid()) + "." + std::to_string(n++) + ".model";
    FILE *fp = fopen(f.c_str(), "w");
    if (!fp) return "";
    fprintf(fp, "entry %s\nlabel %s\ntier %d\n", entry.c_str(), label.c_str(), tier);
    auto hex = [&](E e, uint32_t bytes) {
      APInt v = evalExpr(e, m);
      std::string h;
      for (uint32_t i = 0; i < bytes; i++) {
        uint64_t b = i * 8 < v.getBitWidth() ? v.extractBits(std::min(8u, v.getBitWidth() - i * 8), i * 8).getZExtValue() : 0;
        char t[3]; snprintf(t, 3, "%02x", (unsigned)b); h += t;
      }
      return h;
    };
    for (auto &in : s.inputs) {
      std::string h;
      for (E p : in.parts) h += hex(p, (p->w + 7) / 8);
      fprintf(fp, "input %s %u %s\n", in.name.c_str(), in.bytes, h.c_str());
    }
    for (auto &u : s.uf) fprintf(fp, "uf %u %u %s %u %s\n", u.id, u.inlen, u.inlen ? hex(u.in, u.inlen).c_str() : "-", u.outlen, hex(u.out, u.outlen).c_str());
    fclose(fp);
    return f;
  }
  void violation(State &s, const std::string &label, const std::string &detail, const Model &m) {
    if (violLabels.count(label)) return;
    violLabels.insert(label);
    Violation v; v.label = label; v.detail = detail; v.where = where(s, 10);
    v.modelFile = dumpModel(s, m, label);
    viols.push_back(v);
    if (slots && !slots[2] && !getenv("VERIF_NOSTOP")) slots[2] = (int)time(nullptr);
    fprintf(stderr, "[violation] %s: %s\n   at %s\n   model %s\n", label.c_str(), detail.c_str(), v.where.c_str(), v.modelFile.c_str());
  }
  [[noreturn]] void fail(State &s, const std::string &label, const std::string &detail) {
    violation(s, label, detail, *s.model);
    throw PathEnd();
  }

  // ------------------------------------------------------------ memory access
  // resolves an address to (object, offset expression); forks as needed
  struct Loc { uint32_t id; Obj *o; uint64_t off; E offE; uint64_t lo, hi, step; };
  static uint64_t tz(E e) { // known trailing zero bits
    switch (e->op) {
    case Op::CONST: return e->k == 0 ? 32 : e->k.countTrailingZeros();
    case Op::CONCAT: { uint64_t t = tz(e->b); return t >= e->b->w ? e->b->w + tz(e->a) : t; }
    case Op::ADD: case Op::SUB: case Op::OR: case Op::XOR: return std::min(tz(e->a), tz(e->b));
    case Op::MUL: return tz(e->a) + tz(e->b);
    case Op::AND: return std::max(tz(e->a), tz(e->b));
    case Op::ITE: return std::min(tz(e->b), tz(e->c));
    case Op::EXTRACT: { uint64_t t = tz(e->a); return t > e->off ? std::min<uint64_t>(t - e->off, e->w) : 0; }
    case Op::SEXT: return tz(e->a);
    default: return 0;
    }
  }
  Loc resolve(State &s, Val p, uint64_t n, bool write) {
    Loc L;
    if (p.e) { auto it = s.eq.find(p.e); if (it != s.eq.end()) p = VC(it->second); }
    if (!p.e) {
      L.id = p.c >> 32; L.off = p.c & 0xffffffff; L.offE = nullptr;
      L.o = s.mem.get(L.id);
      if (!L.o) badAddr(s, p.c, n, write);
      if (L.off + n > L.o->size) badAddr(s, p.c, n, write);
      if (write && L.o->kind == 3) badAddr(s, p.c, n, write);
      return L;
    }
    for (;;) {
      uint64_t mv = evalExpr(p.e, *s.model).getZExtValue();
      uint32_t id = mv >> 32;
      Obj *o = s.mem.get(id);
      if (!o || (mv & 0xffffffff) + n > o->size || (write && o->kind == 3)) {
        badAddr(s, mv, n, write);
      }
      E base = mkConst((uint64_t)id << 32, 64);
      E rel = mkSub(p.e, base);
      E in = mkUle(rel, mkConst(o->size - n, 64));
      if (!decide(s, in)) continue;
      if (auto it = s.eq.find(p.e); it != s.eq.end()) return resolve(s, VC(it->second), n, write);
      L.id = id; L.o = o; L.offE = rel; L.off = 0;
      L.lo = std::max<uint64_t>(rel->lo, 0); L.hi = std::min<uint64_t>(rel->hi, o->size - n);
      uint64_t t = std::min<uint64_t>(tz(rel), 20); L.step = 1ull << t;
      L.lo = (L.lo + L.step - 1) & ~(L.step - 1);
      if (rel->op == Op::CONST) { L.off = rel->k.getZExtValue(); L.offE = nullptr; }
      return L;
    }
  }
  [[noreturn]] void badAddr(State &s, uint64_t a, uint64_t n, bool write) {
    char b[160]; Obj *o = s.mem.get(a >> 32);
    snprintf(b, sizeof b, "invalid %s of %llu bytes at object %llx offset %lld (object %s size %u)", write ? "write" : "read", (unsigned long long)n,
             (unsigned long long)(a >> 32), (long long)(a & 0xffffffff), o ? "live" : "not live", o ? o->size : 0);
    fail(s, "memory", b);
  }
  E byteE(Obj *o, uint64_t off) { return o->sym && o->sym[off] ? o->sym[off] : mkConst(o->data[off], 8); }
  Val readAt(Obj *o, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (o->sym) {
      bool any = false;
      for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
      if (any) {
        E r = byteE(o, off);
        for (unsigned i = 1; i < n; i++) r = mkConcat(byteE(o, off + i), r);
        if (r->w != w) r = mkExtract(r, 0, w);
        return toV(r);
      }
    }
    if (w <= 64) { uint64_t v = 0; memcpy(&v, o->data + off, n); return VC(v & MASK(w)); }
    APInt k(n * 8, 0);
    for (unsigned i = 0; i < n; i++) k.insertBits(APInt(8, o->data[off + i]), i * 8);
    return Val{0, mkConst(k.trunc(w))};
  }
  E muxRead(State &s, Obj *o, E off, const std::vector<uint64_t> &ks, size_t a, size_t b, unsigned w) {
    if (b - a == 1) return toE(readAt(o, ks[a], w), w);
    size_t m = (a + b) / 2;
    E l = muxRead(s, o, off, ks, a, m, w), r = muxRead(s, o, off, ks, m, b, w);
    if (l == r) return l;
    return mkIte(mkUlt(off, mkConst(ks[m], 64)), l, r);
  }
  static void possibleOffsets(const Loc &L, uint64_t limit, std::vector<uint64_t> &ks, bool &ok) {
    // enumerate from ITE leaves when possible
    std::set<uint64_t> vals; std::vector<E> st{L.offE}; ok = true; size_t seen = 0;
    bool leaves = true;
    while (!st.empty() && seen++ < 4096) {
      E e = st.back(); st.pop_back();
      if (e->isConst()) vals.insert(e->k.getZExtValue());
      else if (e->op == Op::ITE) { st.push_back(e->b); st.push_back(e->c); }
      else { leaves = false; break; }
    }
    if (leaves && st.empty()) { for (auto v : vals) if (v >= L.lo && v <= L.hi) ks.push_back(v); }
    else {
      if (L.hi < L.lo) { ok = false; return; }
      if ((L.hi - L.lo) / L.step > limit) { ok = false; return; }
      for (uint64_t k = L.lo; k <= L.hi; k += L.step) ks.push_back(k);
    }
    if (ks.empty()) ok = false;
  }
  Val load(State &s, Val p, unsigned w) {
    unsigned n = (w + 7) / 8;
    Loc L = resolve(s, p, n, false);
    if (!L.offE) return readAt(L.o, L.off, w);
    std::vector<uint64_t> ks; bool ok;
    possibleOffsets(L, 1100, ks, ok);
    if (ok) return toV(muxRead(s, L.o, L.offE, ks, 0, ks.size(), w));
    uint64_t a = concretize(s, p, 64, "load address");
    return load(s, VC(a), w);
  }
  void writeByte(Obj *o, uint64_t off, E b) {
    if (b->isConst()) { o->data[off] = (uint8_t)b->k.getZExtValue(); if (o->sym) o->sym[off] = nullptr; }
    else {
      if (!o->sym) o->sym = (E *)calloc(o->size ? o->size : 1, sizeof(E));
      o->sym[off] = b;
    }
  }
  void writeAt(Obj *o, uint64_t off, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { memcpy(o->data + off, &v.c, n > 8 ? 8 : n); if (o->sym) memset(o->sym + off, 0, n * sizeof(E)); return; }
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
    if (n == 1) { writeByte(o, off, e); return; }
    for (unsigned i = 0; i < n; i++) writeByte(o, off + i, mkExtract(e, i * 8, 8));
  }
  void store(State &s, Val p, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    Loc L = resolve(s, p, n, true);
    if (!L.offE) { writeAt(s.mem.getW(L.id), L.off, v, w); return; }
    std::vector<uint64_t> ks; bool ok;
    possibleOffsets(L, 520, ks, ok);
    if (ok) {
      Obj *o = s.mem.getW(L.id);
      E ve = toE(v, w); if (ve->w < n * 8) ve = mkZExt(ve, n * 8);
      for (uint64_t k : ks) {
        E c = mkEq(L.offE, mkConst(k, 64));
        for (unsigned i = 0; i < n; i++) writeByte(o, k + i, mkIte(c, mkExtract(ve, i * 8, 8), byteE(o, k + i)));
      }
      return;
    }
    uint64_t a = concretize(s, p, 64, "store address");
    store(s, VC(a), v, w);
  }
  // byte range helpers for builtins (concrete length)
  void readBytes(State &s, Val p, uint64_t n, std::vector<E> &out) {
    out.clear();
    if (!n) return;
    uint64_t a = concretize(s, p, 64, "pointer");
    Loc L = resolve(s, VC(a), n, false);
    out.reserve(n);
    for (uint64_t i = 0; i < n; i++) out.push_back(byteE(L.o, L.off + i));
  }
  static E concatBE(const std::vector<E> &b) { // first byte most significant
    E r = b[b.size() - 1];
    for (size_t i = b.size() - 1; i-- > 0;) r = mkConcat(b[i], r);
    return r;
  }
  static E concatLE(const std::vector<E> &b) { E r = b[0]; for (size_t i = 1; i < b.size(); i++) r = mkConcat(b[i], r); return r; }
  void copyBytes(State &s, Val d, Val sr, uint64_t n) {
    if (!n) return;
    uint64_t sa = concretize(s, sr, 64, "memcpy src"), da = concretize(s, d, 64, "memcpy dst");
    Loc S = resolve(s, VC(sa), n, false);
    Loc D = resolve(s, VC(da), n, true);
    if (S.id == D.id) {
      Obj *o = s.mem.getW(D.id);
      memmove(o->data + D.off, o->data + S.off, n);
      if (o->sym) memmove(o->sym + D.off, o->sym + S.off, n * sizeof(E));
      return;
    }
    Obj *o = s.mem.getW(D.id); Obj *so = s.mem.get(S.id);
    memcpy(o->data + D.off, so->data + S.off, n);
    bool any = false;
    if (so->sym) for (uint64_t i = 0; i < n; i++) if (so->sym[S.off + i]) { any = true; break; }
    if (any) {
      if (!o->sym) o->sym = (E *)calloc(o->size ? o->size : 1, sizeof(E));
      memcpy(o->sym + D.off, so->sym + S.off, n * sizeof(E));
    } else if (o->sym) memset(o->sym + D.off, 0, n * sizeof(E));
  }
  void setBytes(State &s, Val d, Val v, uint64_t n) {
    if (!n) return;
    uint64_t da = concretize(s, d, 64, "memset dst");
    Loc D = resolve(s, VC(da), n, true);
    Obj *o = s.mem.getW(D.id);
    if (!v.e) { memset(o->data + D.off, (int)(v.c & 0xff), n); if (o->sym) memset(o->sym + D.off, 0, n * sizeof(E)); }
    else { E b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) writeByte(o, D.off + i, b); }
  }

  // ------------------------------------------------------------ constants / globals
  void flat(Type *t, std::vector<uint16_t> &w) {
    if (t->isIntegerTy()) w.push_back(t->getIntegerBitWidth());
    else if (t->isPointerTy()) w.push_back(64);
    else if (t->isFloatTy()) w.push_back(32);
    else if (t->isDoubleTy()) w.push_back(64);
    else if (t->isX86_FP80Ty()) w.push_back(80);
    else if (t->isHalfTy()) w.push_back(16);
    else if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) flat(e, w); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), w); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), w); }
    else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {}
    else w.push_back(64);
  }
  unsigned nslots(Type *t) { std::vector<uint16_t> w; flat(t, w); return w.size(); }
  void flatOff(Type *t, uint64_t base, std::vector<std::pair<uint64_t, uint16_t>> &o) {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) flatOff(st->getElementType(i), base + sl->getElementOffset(i), o);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) flatOff(at->getElementType(), base + i * es, o);
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) flatOff(vt->getElementType(), base + i * es, o);
    } else { std::vector<uint16_t> w; flat(t, w); for (auto x : w) o.push_back({base, x}); }
  }
  Fn *fnOf(const Function *f) {
    auto &p = fnMap[f];
    if (!p) {
      p = new Fn(); p->f = f; p->name = f->getName().str(); p->demangled = demangle(p->name);
      p->id = fns.size(); fns.push_back(p);
      p->merge = f->hasFnAttribute("verif-merge");
      if (f->hasFnAttribute("verif-cond")) p->condArg = atoi(f->getFnAttribute("verif-cond").getValueAsString().str().c_str());
      if (f->isDeclaration() || builtins.count(p->name)) {
        auto it = builtins.find(p->name);
        if (it != builtins.end()) p->bi = it->second;
        else if (f->isIntrinsic()) {
          std::string n = p->name;
          while (!builtins.count(n)) { size_t d = n.rfind('.'); if (d == std::string::npos || d == 0) break; n = n.substr(0, d); }
          auto j = builtins.find(n);
          if (j != builtins.end()) p->bi = j->second;
        }
      }
      if (auto *sp = f->getSubprogram()) p->srcFile = sp->getFilename().str();
    }
    return p;
  }
  uint64_t addrOfFn(const Function *f) { return (0x80000000ull + fnOf(f)->id) << 32; }
  uint64_t addrOfGV(const GlobalVariable *g) { return gaddr.at(g); }
  void constSlots(const Constant *c, std::vector<Val> &out) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() <= 64) out.push_back(VC(ci->getZExtValue())); else out.push_back(Val{0, mkConst(ci->getValue())});
      return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      APInt b = cf->getValueAPF().bitcastToAPInt();
      if (b.getBitWidth() <= 64) out.push_back(VC(b.getZExtValue())); else out.push_back(Val{0, mkConst(b)});
      return;
    }
    if (isa<ConstantPointerNull>(c)) { out.push_back(VC(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      std::vector<uint16_t> w; flat(t, w);
      for (auto x : w) out.push_back(x <= 64 ? VC(0) : Val{0, mkConst(0, x)});
      return;
    }
    if (auto *f = dyn_cast<Function>(c)) { out.push_back(VC(addrOfFn(f))); return; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { out.push_back(VC(addrOfGV(g))); return; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) { constSlots(ga->getAliasee(), out); return; }
    if (isa<ConstantAggregate>(c)) { for (auto &op : c->operands()) constSlots(cast<Constant>(op), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out);
      return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      auto one = [&](unsigned i) { std::vector<Val> v; constSlots(ce->getOperand(i), v); return v.at(0); };
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
        out.push_back(VC(one(0).c + off.getZExtValue())); return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val v = one(0); std::vector<uint16_t> w; flat(t, w); v.c &= MASK(w[0]); out.push_back(v); return;
      }
      case Instruction::Add: out.push_back(VC((one(0).c + one(1).c) & MASK(t->getIntegerBitWidth()))); return;
      case Instruction::Sub: out.push_back(VC((one(0).c - one(1).c) & MASK(t->getIntegerBitWidth()))); return;
      case Instruction::Trunc: out.push_back(VC(one(0).c & MASK(t->getIntegerBitWidth()))); return;
      case Instruction::ICmp: {
        auto p = ce->getPredicate();
        bool r = p == CmpInst::ICMP_EQ ? one(0).c == one(1).c : p == CmpInst::ICMP_NE ? one(0).c != one(1).c : false;
        out.push_back(VC(r)); return;
      }
      default: break;
      }
    }
    if (isa<ConstantTokenNone>(c)) return;
    std::string str; raw_string_ostream os(str); c->print(os);
    fprintf(stderr, "engine: unsupported constant %s\n", os.str().substr(0, 200).c_str());
    std::vector<uint16_t> w; flat(t, w); for (auto x : w) { (void)x; out.push_back(VC(0)); }
  }
  void initMem(Obj *o, uint64_t off, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset(o->data + off, 0, DL->getTypeStoreSize(c->getType())); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c); cd && (cd->isString() || cd->getElementType()->isIntegerTy())) {
      StringRef raw = cd->getRawDataValues(); memcpy(o->data + off, raw.data(), raw.size()); return;
    }
    std::vector<Val> v; constSlots(c, v);
    std::vector<std::pair<uint64_t, uint16_t>> fo; flatOff(c->getType(), off, fo);
    for (size_t i = 0; i < fo.size() && i < v.size(); i++) writeAt(o, fo[i].first, v[i], fo[i].second);
  }
  void setupGlobals(State &s) {
    for (auto &g : M->globals()) {
      if (g.getName().starts_with("llvm.")) { gaddr[&g] = 0; continue; }
      uint64_t sz = DL->getTypeAllocSize(g.getValueType());
      if (g.isDeclaration() && sz < 64) sz = 64;
      uint32_t id = s.mem.alloc((uint32_t)sz, 2, 0);
      gaddr[&g] = (uint64_t)id << 32; gByObj[id] = &g;
    }
    for (auto &g : M->globals()) {
      if (g.getName().starts_with("llvm.") || !g.hasInitializer()) continue;
      uint32_t id = gaddr[&g] >> 32;
      Obj *o = s.mem.getW(id);
      initMem(o, 0, g.getInitializer());
      if (g.isConstant()) o->kind = 3;
    }
  }
  int typeId(const void *p) { auto &x = typeIds[p]; if (!x) x = nextTypeId++; return x; }

#include "decode.inc"
#include "run.inc"
};
#include "builtins.inc"
#include "mainexec.inc"
