// ---------------------------------------------------------------- builtins
#define B(name) static void name(Ctx &c)
static uint64_t conc(Ctx &c, size_t i, unsigned w = 64) { return c.eng->concretize(*c.s, c.args[i], w); }
static std::string cstr(Ctx &c, uint64_t p) {
  std::string r;
  Obj *o = c.s->mem.get(p >> 32);
  if (!o) return r;
  for (uint64_t i = p & 0xffffffff; i < o->size && o->data[i] && r.size() < 200; i++) r += (char)o->data[i];
  return r;
}
static bool allocSize(Ctx &c, size_t i, uint64_t &n, bool throwing) {
  Engine &E_ = *c.eng; State &s = *c.s;
  Val v = c.args[i];
  if (s.allocLimit) { bool over = v.e ? E_.decide(s, mkUlt(mkConst(s.allocLimit, 64), v.e)) : v.c > s.allocLimit; if (over) E_.fail(s, "memory-bounded", "allocation above the limit set by the harness"); }
  bool big = v.e ? E_.decide(s, mkUlt(mkConst(E_.maxAlloc, 64), v.e)) : v.c > E_.maxAlloc;
  if (big) {
    if (!throwing) { c.ret[0] = VC(0); return false; }
    if (!E_.callByName(s, "verif_throw_bad_alloc", nullptr, 0)) E_.giveUp(s, "huge allocation");
    c.jumped = true; return false;
  }
  n = E_.concretize(s, v, 64, "allocation size");
  return true;
}
B(b_fuel) { c.s->fuel = c.s->steps + conc(c, 0); }
B(b_alloc_limit) { c.s->allocLimit = conc(c, 0); }
B(b_new) { uint64_t n; if (!allocSize(c, 0, n, true)) return; c.ret[0] = VC((uint64_t)c.s->mem.alloc((uint32_t)n, 0, 0xAA) << 32); }
B(b_malloc) { uint64_t n; if (!allocSize(c, 0, n, false)) return; c.ret[0] = VC((uint64_t)c.s->mem.alloc((uint32_t)n, 0, 0xAA) << 32); }
B(b_calloc) { uint64_t a = conc(c, 0), b = conc(c, 1); c.ret[0] = VC((uint64_t)c.s->mem.alloc((uint32_t)(a * b), 0, 0) << 32); }
static void doFree(Ctx &c, bool checked) {
  uint64_t p = conc(c, 0);
  if (!p) return;
  Obj *o = c.s->mem.get(p >> 32);
  if (!o || (p & 0xffffffff) || o->kind != 0) { if (checked) { char b[80]; snprintf(b, sizeof b, "invalid free of %llx", (unsigned long long)p); c.eng->fail(*c.s, "memory", b); } return; }
  c.s->mem.release(p >> 32);
}
B(b_free) { doFree(c, true); }
B(b_realloc) {
  uint64_t p = conc(c, 0), n = conc(c, 1);
  uint32_t id = c.s->mem.alloc((uint32_t)n, 0, 0xAA);
  if (p) { Obj *o = c.s->mem.get(p >> 32); uint64_t k = std::min<uint64_t>(n, o ? o->size : 0); c.eng->copyBytes(*c.s, VC((uint64_t)id << 32), VC(p), k); c.s->mem.release(p >> 32); }
  c.ret[0] = VC((uint64_t)id << 32);
}
B(b_memcpy) {
  uint64_t n = conc(c, 2);
  c.args[0] = VC(conc(c, 0)); c.args[1] = VC(conc(c, 1));
  c.eng->copyBytes(*c.s, c.args[0], c.args[1], n); c.ret[0] = c.args[0];
}
B(b_memset) { uint64_t n = conc(c, 2); c.args[0] = VC(conc(c, 0)); c.eng->setBytes(*c.s, c.args[0], c.args[1], n); c.ret[0] = c.args[0]; }
static void cmpBytes(Ctx &c, bool bcmp) {
  uint64_t n = conc(c, 2);
  if (!n) { c.ret[0] = VC(0); return; }
  std::vector<E> a, b;
  c.eng->readBytes(*c.s, c.args[0], n, a); c.eng->readBytes(*c.s, c.args[1], n, b);
  E x = Engine::concatBE(a), y = Engine::concatBE(b);
  E eq = mkEq(x, y);
  if (bcmp) c.ret[0] = c.eng->toV(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
  else c.ret[0] = c.eng->toV(mkIte(eq, mkConst(0, 32), mkIte(mkUlt(x, y), mkConst(0xffffffffull, 32), mkConst(1, 32))));
}
B(b_memcmp) { cmpBytes(c, false); }
B(b_bcmp) { cmpBytes(c, true); }
B(b_nop) {}
B(b_zero) { c.ret[0] = VC(0); }
B(b_one) { c.ret[0] = VC(1); }
B(b_abort) { c.eng->fail(*c.s, "abort", "call to " + c.fn->demangled); }
B(b_exit) { throw PathEnd(); }
// exceptions
B(b_alloc_exc) { uint64_t n = conc(c, 0); c.ret[0] = VC(c.eng->allocExc(*c.s, n)); }
B(b_free_exc) {}
B(b_throw) { uint64_t o = conc(c, 0), t = conc(c, 1); c.jumped = true; c.eng->throwExc(*c.s, o, t); }
B(b_begin_catch) {
  uint64_t h = conc(c, 0);
  Obj *o = c.s->mem.getW(h >> 32);
  uint64_t ti, adj; memcpy(&ti, o->data, 8); memcpy(&adj, o->data + 8, 8);
  c.s->caught.push_back({h, ti, 0});
  c.ret[0] = VC(h + 32 + adj);
}
B(b_get_exc_ptr) { uint64_t h = conc(c, 0); Obj *o = c.s->mem.get(h >> 32); uint64_t adj; memcpy(&adj, o->data + 8, 8); c.ret[0] = VC(h + 32 + adj); }
B(b_end_catch) { if (!c.s->caught.empty()) c.s->caught.pop_back(); }
B(b_rethrow) {
  if (c.s->caught.empty()) c.eng->fail(*c.s, "terminate", "rethrow without exception");
  ExcRec r = c.s->caught.back();
  c.jumped = true; c.eng->unwind(*c.s, r.obj, r.tinfo);
}
B(b_uncaught) { c.ret[0] = VC(0); }
B(b_guard_acquire) {
  Val v = c.eng->load(*c.s, c.args[0], 8);
  c.ret[0] = VC(v.c ? 0 : 1);
}
B(b_guard_release) { c.eng->store(*c.s, c.args[0], VC(1), 8); }
B(b_dyncast) {
  Engine &E_ = *c.eng; State &s = *c.s;
  uint64_t src = conc(c, 0), dst = conc(c, 2);
  uint64_t vptr = E_.concretize(s, E_.load(s, VC(src), 64), 64);
  int64_t top = (int64_t)E_.load(s, VC(vptr - 16), 64).c;
  uint64_t ti = E_.load(s, VC(vptr - 8), 64).c;
  auto a = E_.gByObj.find(ti >> 32), b = E_.gByObj.find(dst >> 32);
  int64_t adj = 0;
  if (a != E_.gByObj.end() && b != E_.gByObj.end() && E_.derives(a->second, b->second, adj)) c.ret[0] = VC(src + top + adj);
  else c.ret[0] = VC(0);
}
// ---- intrinsics
template <class F> static void un(Ctx &c, F f) { c.ret[0] = f(c.args[0], c.ci->aw[0]); }
static Val selV(Ctx &c, E cond, Val a, Val b, unsigned w) { return c.eng->toV(mkIte(cond, c.eng->toE(a, w), c.eng->toE(b, w))); }
static E ex(Ctx &c, size_t i) { return c.eng->toE(c.args[i], c.ci->aw[i]); }
B(i_umin) { E a = ex(c, 0), b = ex(c, 1); c.ret[0] = c.eng->toV(mkIte(mkUlt(a, b), a, b)); }
B(i_umax) { E a = ex(c, 0), b = ex(c, 1); c.ret[0] = c.eng->toV(mkIte(mkUlt(a, b), b, a)); }
B(i_smin) { E a = ex(c, 0), b = ex(c, 1); c.ret[0] = c.eng->toV(mkIte(mkSlt(a, b), a, b)); }
B(i_smax) { E a = ex(c, 0), b = ex(c, 1); c.ret[0] = c.eng->toV(mkIte(mkSlt(a, b), b, a)); }
B(i_abs) { E a = ex(c, 0); c.ret[0] = c.eng->toV(mkIte(mkSlt(a, mkConst(0, a->w)), mkSub(mkConst(0, a->w), a), a)); }
B(i_bswap) { E a = ex(c, 0); E r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); c.ret[0] = c.eng->toV(r); }
B(i_bitrev) { E a = ex(c, 0); E r = mkExtract(a, 0, 1); for (unsigned i = 1; i < a->w; i++) r = mkConcat(r, mkExtract(a, i, 1)); c.ret[0] = c.eng->toV(r); }
B(i_ctpop) {
  E a = ex(c, 0);
  if (a->isConst()) { c.ret[0] = VC(a->k.popcount()); return; }
  // pairwise tree
  std::vector<E> v; for (unsigned i = 0; i < a->w; i++) v.push_back(mkZExt(mkExtract(a, i, 1), a->w));
  while (v.size() > 1) { std::vector<E> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(mkAdd(v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v = n; }
  c.ret[0] = c.eng->toV(v[0]);
}
B(i_ctlz) { E a = ex(c, 0); E r = mkConst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); c.ret[0] = c.eng->toV(r); }
B(i_cttz) { E a = ex(c, 0); E r = mkConst(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); c.ret[0] = c.eng->toV(r); }
static void fsh(Ctx &c, bool left) {
  E a = ex(c, 0), b = ex(c, 1), n = ex(c, 2); unsigned w = a->w;
  E cat = mkConcat(a, b); E sh = mkZExt(mkBin(Op::UREM, n, mkConst(w, w)), 2 * w);
  E r = left ? mkExtract(mkBin(Op::SHL, cat, sh), w, w) : mkExtract(mkBin(Op::LSHR, cat, sh), 0, w);
  c.ret[0] = c.eng->toV(r);
}
B(i_fshl) { fsh(c, true); }
B(i_fshr) { fsh(c, false); }
B(i_uaddo) { E a = ex(c, 0), b = ex(c, 1); unsigned w = a->w; E t = mkAdd(mkZExt(a, w + 1), mkZExt(b, w + 1)); c.ret[0] = c.eng->toV(mkExtract(t, 0, w)); c.ret[1] = c.eng->toV(mkExtract(t, w, 1)); }
B(i_usubo) { E a = ex(c, 0), b = ex(c, 1); c.ret[0] = c.eng->toV(mkSub(a, b)); c.ret[1] = c.eng->toV(mkUlt(a, b)); }
B(i_umulo) { E a = ex(c, 0), b = ex(c, 1); unsigned w = a->w; E t = mkBin(Op::MUL, mkZExt(a, 2 * w), mkZExt(b, 2 * w)); c.ret[0] = c.eng->toV(mkExtract(t, 0, w)); c.ret[1] = c.eng->toV(mkNot(mkEq(mkExtract(t, w, w), mkConst(0, w)))); }
static void so(Ctx &c, Op op) {
  E a = ex(c, 0), b = ex(c, 1); unsigned w = a->w; unsigned W = op == Op::MUL ? 2 * w : w + 1;
  E t = mkBin(op, mkSExt(a, W), mkSExt(b, W)); E r = mkExtract(t, 0, w);
  c.ret[0] = c.eng->toV(r); c.ret[1] = c.eng->toV(mkNot(mkEq(mkSExt(r, W), t)));
}
B(i_saddo) { so(c, Op::ADD); }
B(i_ssubo) { so(c, Op::SUB); }
B(i_smulo) { so(c, Op::MUL); }
B(i_uaddsat) { E a = ex(c, 0), b = ex(c, 1); E t = mkAdd(a, b); c.ret[0] = c.eng->toV(mkIte(mkUlt(t, a), mkConst(APInt::getAllOnes(a->w)), t)); }
B(i_usubsat) { E a = ex(c, 0), b = ex(c, 1); c.ret[0] = c.eng->toV(mkIte(mkUlt(a, b), mkConst(0, a->w), mkSub(a, b))); }
B(i_fabs) { Val v = c.args[0]; if (v.e) c.eng->giveUp(*c.s, "symbolic fp"); unsigned w = c.ci->aw[0]; c.ret[0] = VC(v.c & (MASK(w) >> 1)); }
template <double (*F)(double)> static void fp1(Ctx &c) { unsigned w = c.ci->aw[0]; if (c.args[0].e) c.eng->giveUp(*c.s, "symbolic fp"); c.ret[0] = VC(Engine::fromD(F(Engine::asD(c.args[0].c, w)), w)); }
static double f_floor(double x) { return floor(x); } static double f_ceil(double x) { return ceil(x); } static double f_trunc(double x) { return trunc(x); } static double f_round(double x) { return round(x); } static double f_sqrt(double x) { return sqrt(x); } static double f_log2(double x) { return log2(x); }
static double f_log(double x) { return log(x); }
B(i_fmuladd) { unsigned w = c.ci->aw[0]; for (int i = 0; i < 3; i++) if (c.args[i].e) c.eng->giveUp(*c.s, "symbolic fp"); c.ret[0] = VC(Engine::fromD(Engine::asD(c.args[0].c, w) * Engine::asD(c.args[1].c, w) + Engine::asD(c.args[2].c, w), w)); }
B(b_pow) { if (c.args[0].e || c.args[1].e) c.eng->giveUp(*c.s, "symbolic fp"); c.ret[0] = VC(Engine::fromD(pow(Engine::asD(c.args[0].c, 64), Engine::asD(c.args[1].c, 64)), 64)); }
// ---- verification interface
static std::unordered_map<std::string, E> g_inputVars;
static E inputVar(State &s, const std::string &name, unsigned w, uint32_t occ, unsigned part) {
  std::string key = name + "/" + std::to_string(occ) + "/" + std::to_string(w) + "/" + std::to_string(part);
  auto &e = g_inputVars[key];
  if (!e) e = mkVar(name, w);
  return e;
}
B(v_make) { // (void*, size_t, const char*)
  uint64_t p = conc(c, 0), n = conc(c, 1); std::string nm = cstr(c, conc(c, 2));
  for (auto &ch : nm) if (ch == ' ') ch = '_';
  if (nm.empty()) nm = "in";
  InputRec r; r.name = nm; r.bytes = (uint32_t)n;
  uint32_t occ = c.s->inputCount[nm]++;
  uint64_t off = 0; unsigned part = 0;
  while (off < n) {
    uint64_t k = std::min<uint64_t>(n - off, n <= 64 ? 64 : 32);
    E v = inputVar(*c.s, nm, (unsigned)k * 8, occ, part++);
    r.parts.push_back(v);
    Engine::Loc L = c.eng->resolve(*c.s, VC(p + off), k, true);
    c.eng->writeAt(c.s->mem.getW(L.id), L.off, Val{0, v}, (unsigned)k * 8);
    off += k;
  }
  c.s->inputs.push_back(r);
}
B(v_assume) {
  E e = c.args[0].e ? mkNot(mkEq(c.args[0].e, mkConst(0, c.ci->aw[0]))) : mkConst(c.args[0].c != 0, 1);
  if (!c.eng->assume(*c.s, e)) throw PathEnd();
}
B(v_check) {
  Engine &E_ = *c.eng; State &s = *c.s;
  std::string lbl = cstr(c, conc(c, 1));
  E_.checked.insert(lbl); E_.checks++;
  E e = c.args[0].e ? mkNot(mkEq(c.args[0].e, mkConst(0, c.ci->aw[0]))) : mkConst(c.args[0].c != 0, 1);
  if (isTrue(e)) return;
  auto it = s.eq.find(e);
  if (it != s.eq.end() && it->second == 1) return;
  E ne = mkNot(e);
  ModelPtr m;
  Res r = solverCheck(s.pc, ne, s.model, m);
  if (r == Res::UNKNOWN) { E_.incomplete(s, "solver-unknown in check " + lbl); return; }
  if (r == Res::UNSAT) { s.eq[e] = 1; return; }
  E_.violation(s, lbl, "assertion can be false", *m);
  if (!E_.assume(s, e)) throw PathEnd();
}
B(v_reach) { c.eng->reached.insert(cstr(c, conc(c, 0))); }
B(v_conc) { c.ret[0] = VC(c.eng->concretize(*c.s, c.args[0], c.ci->aw[0])); }
B(v_native) { c.ret[0] = VC(0); }
B(v_tier) { c.ret[0] = VC(c.eng->tier); }
B(v_symbolic) { c.ret[0] = VC(c.args[0].e != nullptr); }
B(v_print) { fprintf(stderr, "[print] %s %s\n", cstr(c, conc(c, 0)).c_str(), c.args[1].e ? exprStr(c.args[1].e, 8).c_str() : std::to_string(c.args[1].c).c_str()); }
// uninterpreted function: (id, out, outlen, in, inlen, injective)
static APInt fnvOut(uint32_t id, const APInt &in, uint32_t inlen, uint32_t outlen) {
  uint64_t h = 1469598103934665603ull ^ (id * 0x9E3779B97F4A7C15ull);
  auto mix = [&](uint8_t b) { h ^= b; h *= 1099511628211ull; h ^= h >> 29; };
  for (int i = 0; i < 4; i++) mix((uint8_t)(inlen >> (8 * i)));
  for (uint32_t i = 0; i < inlen; i++) mix((uint8_t)in.extractBits(8, i * 8).getZExtValue());
  APInt out(outlen * 8, 0);
  for (uint32_t i = 0; i < outlen; i++) {
    if (i % 8 == 0) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h += i; }
    out.insertBits(APInt(8, (h >> (8 * (i % 8))) & 0xff), i * 8);
  }
  return out;
}
B(v_uf) {
  Engine &E_ = *c.eng; State &s = *c.s;
  uint32_t id = (uint32_t)conc(c, 0, c.ci->aw[0]); uint64_t outlen = conc(c, 2), inlen = conc(c, 4); bool inj = conc(c, 5, c.ci->aw[5]);
  std::vector<E> ib; E_.readBytes(s, c.args[3], inlen, ib);
  E in = inlen ? Engine::concatLE(ib) : mkConst(0, 8);
  auto put = [&](E out) {
    uint64_t p = conc(c, 1);
    Engine::Loc L = E_.resolve(s, VC(p), outlen, true);
    E_.writeAt(s.mem.getW(L.id), L.off, E_.toV(out), (unsigned)outlen * 8);
  };
  for (auto &u : s.uf) if (u.id == id && u.inlen == inlen && u.outlen == outlen && u.in == in) { put(u.out); return; }
  bool isC = in->isConst();
  E out;
  if (isC) out = mkConst(fnvOut(id, in->k, (uint32_t)inlen, (uint32_t)outlen));
  else {
    static std::unordered_map<std::string, E> vars;
    std::string key = std::to_string(id) + "/" + std::to_string(in->id) + "/" + std::to_string(inlen) + "/" + std::to_string(outlen);
    auto &v = vars[key];
    if (!v) v = mkVar("uf" + std::to_string(id), (unsigned)outlen * 8);
    out = v;
    // pick a value consistent with the current model
    APInt iv = evalExpr(in, *s.model);
    APInt ov = fnvOut(id, iv, (uint32_t)inlen, (uint32_t)outlen);
    bool fixed = false;
    for (auto &u : s.uf) if (u.id == id && u.inlen == inlen && u.outlen == outlen && evalExpr(u.in, *s.model) == iv) { ov = evalExpr(u.out, *s.model); fixed = true; }
    if (!fixed && inj) {
      for (int tries = 0; tries < 1000; tries++) {
        bool clash = false;
        for (auto &u : s.uf) if (u.id == id && u.outlen == outlen && evalExpr(u.out, *s.model) == ov) clash = true;
        if (!clash) break;
        ov = ov + 1;
      }
    }
    auto m = std::make_shared<Model>(*s.model);
    if (m->vals.size() < g_vars.size()) m->vals.resize(g_vars.size(), APInt(1, 0));
    m->vals[out->off] = ov;
    s.model = m;
  }
  for (auto &u : s.uf) if (u.id == id && u.outlen == outlen && !(isC && u.conc)) {
    E oeq = mkEq(u.out, out);
    if (u.inlen != inlen) { if (inj) E_.addPc(s, mkNot(oeq)); continue; }
    E ieq = mkEq(u.in, in);
    if (isFalse(ieq)) { if (inj) E_.addPc(s, mkNot(oeq)); continue; }
    if (inj) E_.addPc(s, mkEq(ieq, oeq)); else E_.addPc(s, mkOr(mkNot(ieq), oeq));
  }
  s.uf.push_back({id, in, (uint32_t)inlen, out, (uint32_t)outlen, isC});
  put(out);
}
static void registerBuiltins(Engine &e) {
  auto &b = e.builtins;
  for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) b[n] = b_new;
  for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc"}) b[n] = b_malloc;
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "free"}) b[n] = b_free;
  b["verif_alloc_limit"] = b_alloc_limit; b["verif_fuel"] = b_fuel; b["calloc"] = b_calloc; b["realloc"] = b_realloc;
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline"}) b[n] = b_memcpy;
  b["memset"] = b_memset; b["llvm.memset"] = b_memset; b["explicit_bzero"] = b_nop;
  b["memcmp"] = b_memcmp; b["bcmp"] = b_bcmp;
  for (auto n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "llvm.trap", "__assert_fail", "llvm.debugtrap", "llvm.ubsantrap"}) b[n] = b_abort;
  b["exit"] = b_exit; b["_exit"] = b_exit;
  b["__cxa_allocate_exception"] = b_alloc_exc; b["__cxa_free_exception"] = b_free_exc; b["__cxa_throw"] = b_throw;
  b["__cxa_begin_catch"] = b_begin_catch; b["__cxa_end_catch"] = b_end_catch; b["__cxa_rethrow"] = b_rethrow; b["__cxa_get_exception_ptr"] = b_get_exc_ptr;
  b["_ZSt18uncaught_exceptionv"] = b_uncaught; b["_ZSt19uncaught_exceptionsv"] = b_uncaught;
  b["__cxa_guard_acquire"] = b_guard_acquire; b["__cxa_guard_release"] = b_guard_release; b["__cxa_guard_abort"] = b_nop;
  b["__dynamic_cast"] = b_dyncast;
  for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit"}) b[n] = b_zero;
  for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", 
                 "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy",
                 "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_init", "pthread_cond_destroy", "pthread_setname_np", "pthread_detach", "sched_yield", "usleep", "nanosleep", "pthread_cond_clockwait"}) b[n] = b_zero;
  b["pthread_self"] = b_one;
  b["llvm.umin"] = i_umin; b["llvm.umax"] = i_umax; b["llvm.smin"] = i_smin; b["llvm.smax"] = i_smax; b["llvm.abs"] = i_abs;
  b["llvm.bswap"] = i_bswap; b["llvm.bitreverse"] = i_bitrev; b["llvm.ctpop"] = i_ctpop; b["llvm.ctlz"] = i_ctlz; b["llvm.cttz"] = i_cttz; b["llvm.fshl"] = i_fshl; b["llvm.fshr"] = i_fshr;
  b["llvm.uadd.with.overflow"] = i_uaddo; b["llvm.usub.with.overflow"] = i_usubo; b["llvm.umul.with.overflow"] = i_umulo;
  b["llvm.sadd.with.overflow"] = i_saddo; b["llvm.ssub.with.overflow"] = i_ssubo; b["llvm.smul.with.overflow"] = i_smulo;
  b["llvm.uadd.sat"] = i_uaddsat; b["llvm.usub.sat"] = i_usubsat;
  b["llvm.fabs"] = i_fabs; b["llvm.floor"] = fp1<f_floor>; b["llvm.ceil"] = fp1<f_ceil>; b["llvm.trunc"] = fp1<f_trunc>; b["llvm.round"] = fp1<f_round>; b["llvm.sqrt"] = fp1<f_sqrt>;
  b["llvm.fmuladd"] = i_fmuladd; b["llvm.fma"] = i_fmuladd; b["pow"] = b_pow; b["log2"] = fp1<f_log2>; b["log"] = fp1<f_log>; b["floor"] = fp1<f_floor>; b["ceil"] = fp1<f_ceil>; b["round"] = fp1<f_round>; b["sqrt"] = fp1<f_sqrt>;
  b["verif_make_symbolic"] = v_make; b["verif_assume"] = v_assume; b["verif_check"] = v_check; b["verif_reach"] = v_reach; b["verif_concretize"] = v_conc;
  b["verif_is_native"] = v_native; b["verif_tier"] = v_tier; b["verif_is_symbolic"] = v_symbolic; b["verif_print"] = v_print; b["verif_uf"] = v_uf; b["verif_silent_exit"] = b_exit;
}
