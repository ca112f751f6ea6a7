// ---------------------------------------------------------------- execution (inside struct Engine)
uint64_t curExcObj = 0; // transient

void takeEdge(State &s, int e) {
  Frame &f = s.st.back();
  const Edge &ed = f.fn->edges[e];
  size_t n = ed.copies.size();
  if (n == 1) f.regs[ed.copies[0].first] = get(s, ed.copies[0].second);
  else if (n) {
    Val tmp[64]; std::vector<Val> big;
    Val *t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = get(s, ed.copies[i].second);
    for (size_t i = 0; i < n; i++) f.regs[ed.copies[i].first] = t[i];
  }
  f.pc = ed.pc;
}
void pushFrame(State &s, Fn *fn, const Val *args, size_t n) {
  decode(fn);
  fn->hits++;
  if (s.st.size() > 2000) giveUp(s, "stack too deep");
  s.st.emplace_back();
  Frame &f = s.st.back();
  f.fn = fn; f.pc = 0;
  f.regs.assign(fn->nregs, VC(0));
  for (size_t i = 0; i < n && i < fn->nargs; i++) f.regs[i] = args[i];
}
void popFrame(State &s) {
  for (uint32_t id : s.st.back().allocas) s.mem.release(id);
  s.st.pop_back();
}
// ---- exceptions
std::string typeName(uint64_t ti) {
  auto it = gByObj.find(ti >> 32);
  if (it == gByObj.end()) return "?";
  return demangle(it->second->getName().str());
}
// does type `from` derive from (or equal) `to`; adj accumulates offset
bool derives(const GlobalVariable *from, const GlobalVariable *to, int64_t &adj) {
  if (from == to || from->getName() == to->getName()) return true;
  if (!from->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(from->getInitializer());
  if (!cs || cs->getNumOperands() < 3) return false;
  if (cs->getNumOperands() == 3) {
    auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts());
    return b && derives(b, to, adj);
  }
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
    auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
    auto *o = dyn_cast<ConstantInt>(cs->getOperand(i + 1));
    if (!b || !o) continue;
    if (o->getSExtValue() & 1) continue; // virtual base
    int64_t a2 = adj + (o->getSExtValue() >> 8);
    if (derives(b, to, a2)) { adj = a2; return true; }
  }
  return false;
}
uint64_t pendObj = 0, pendTi = 0; int pendSel = 0;
std::unordered_map<uint64_t, uint64_t> dummy;
// unwinds from the current call instruction of the top frame
void unwind(State &s, uint64_t obj, uint64_t ti) {
  auto git = gByObj.find(ti >> 32);
  const GlobalVariable *T = git == gByObj.end() ? nullptr : git->second;
  for (;;) {
    if (s.st.empty()) break;
    Frame &f = s.st.back();
    Inst &in = f.fn->code[f.pc];
    if (in.op == O_CALL && f.fn->calls[in.a].invoke) {
      CallInfo &ci = f.fn->calls[in.a];
      uint32_t lp = f.fn->edges[ci.unwind].pc;
      LpadInfo &li = f.fn->lpads[f.fn->code[lp].a];
      int sel = -1; int64_t adj = 0;
      for (size_t k = 0; k < li.clauses.size(); k++) {
        if (li.filter[k]) continue;
        if (!li.clauses[k]) { sel = typeId(nullptr); break; }
        adj = 0;
        if (T && derives(T, li.clauses[k], adj)) { sel = typeId(li.clauses[k]); break; }
      }
      if (sel < 0 && li.cleanup) { sel = 0; adj = 0; }
      if (sel >= 0) {
        takeEdge(s, ci.unwind);
        Inst &l = s.st.back().fn->code[s.st.back().pc];
        Frame &f2 = s.st.back();
        f2.regs[l.d] = VC(obj); f2.regs[l.d + 1] = VC((uint64_t)(uint32_t)sel);
        // remember type and adjustment with the object header
        Obj *h = s.mem.getW((uint32_t)(obj >> 32));
        uint64_t a = (uint64_t)adj;
        if (sel > 0) memcpy(h->data + 8, &a, 8);
        f2.pc++;
        return;
      }
    }
    if (f.group) { Group *g = f.group; f.group = nullptr; g->lost = true; popFrame(s); if (--g->outstanding == (int)g->parked.size()) finishGroup(g); }
    else {
      if (s.st.size() == 1) {
        std::string what = "uncaught exception of type " + typeName(ti);
        fail(s, "uncaught-exception", what);
      }
      popFrame(s);
    }
    if (s.st.empty()) break;
  }
  throw PathEnd();
}
// exception objects: header of 32 bytes [typeinfo][adj][handlers][unused] followed by the object
uint64_t allocExc(State &s, uint64_t n) { uint32_t id = s.mem.alloc((uint32_t)n + 32, 0, 0); return ((uint64_t)id << 32) + 32; }
void throwExc(State &s, uint64_t objp, uint64_t ti) {
  uint64_t hdr = objp - 32;
  Obj *h = s.mem.getW((uint32_t)(hdr >> 32));
  memcpy(h->data, &ti, 8);
  memset(h->data + 8, 0, 8);
  unwind(s, hdr, ti);
}
uint64_t excTi(State &s, uint64_t hdr) { Obj *h = s.mem.get((uint32_t)(hdr >> 32)); uint64_t t = 0; if (h) memcpy(&t, h->data, 8); return t; }
// throw std::bad_alloc-like by calling a runtime function of the given name from the current call site
bool callByName(State &s, const char *name, const Val *a, size_t n) {
  Function *f = M->getFunction(name);
  if (!f || f->isDeclaration()) return false;
  pushFrame(s, fnOf(f), a, n);
  return true;
}

// ---- return & merging
// returns true when the state was parked (no longer runnable by the caller)
bool doReturn(State *sp, const Val *rv, size_t n) {
  State &s = *sp;
  Group *g = s.st.back().group;
  s.st.back().group = nullptr;
  popFrame(s);
  if (s.st.empty()) throw PathEnd();
  Frame &f = s.st.back();
  Inst &in = f.fn->code[f.pc];
  CallInfo &ci = f.fn->calls[in.a];
  for (size_t i = 0; i < n && i < ci.rw.size(); i++) f.regs[in.d + i] = rv[i];
  if (!g) {
    if (ci.invoke) takeEdge(s, ci.normal); else f.pc++;
    return false;
  }
  // leave the frame's pc at the call: finishGroup completes the step
  g->parked.push_back(sp);
  if (g->outstanding == (int)g->parked.size()) finishGroup(g);
  return true;
}
void completeCall(State &s) {
  Frame &f = s.st.back();
  Inst &in = f.fn->code[f.pc];
  CallInfo &ci = f.fn->calls[in.a];
  if (ci.invoke) takeEdge(s, ci.normal); else f.pc++;
}
static E conj(const std::vector<E> &v, size_t from) { E r = mkTrue(); for (size_t i = from; i < v.size(); i++) r = mkAnd(r, v[i]); return r; }
void finishGroup(Group *g) {
  std::vector<State *> ps; ps.swap(g->parked);
  if (ps.empty()) { delete g; return; }
  if (ps.size() == 1) { completeCall(*ps[0]); work.push_back(ps[0]); delete g; return; }
  State &first = *ps[0];
  bool ok = true;
  // object-level comparison
  std::vector<uint32_t> diff;
  uint32_t entryNext = g->mem.next;
  size_t maxch = 0;
  for (auto p : ps) maxch = std::max(maxch, p->mem.ch.size());
  size_t diffBytes = 0;
  for (auto p : ps) if (p->uf.size() != g->ufN || p->inputs.size() != g->inN || p->caught.size() != first.caught.size()) ok = false;
  if (ok) for (size_t k = 0; k < maxch && ok; k++) {
    Chunk *base = k < g->mem.ch.size() ? g->mem.ch[k] : nullptr;
    bool same = true;
    for (auto p : ps) { Chunk *c = k < p->mem.ch.size() ? p->mem.ch[k] : nullptr; if (c != base) { same = false; break; } }
    if (same) continue;
    for (int i = 0; i < 64 && ok; i++) {
      uint32_t id = k * 64 + i;
      bool dif = false;
      Obj *b0 = first.mem.get(id);
      if (id >= entryNext) { for (auto p : ps) if (p->mem.get(id)) { ok = false; break; } continue; }
      for (auto p : ps) if (p->mem.get(id) != b0) { dif = true; break; }
      if (!dif) continue;
      for (auto p : ps) { Obj *o = p->mem.get(id); if (!o || !b0 || o->size != b0->size) { ok = false; break; } }
      if (ok) {
        bool cdif = false;
        for (auto p : ps) { Obj *o = p->mem.get(id); if (memcmp(o->data, b0->data, b0->size) || o->sym || b0->sym) { cdif = true; break; } }
        if (!cdif) continue;
        diff.push_back(id); diffBytes += b0->size; if (diffBytes > 8192) ok = false;
      }
    }
  }
  size_t depth = first.st.size();
  for (auto p : ps) if (p->st.size() != depth) ok = false;
  if (!ok) {
    mergeFail++;
    for (auto p : ps) { completeCall(*p); work.push_back(p); }
    delete g; return;
  }
  merges++;
  std::vector<E> conds;
  for (auto p : ps) conds.push_back(conj(p->pc, g->pcLen));
  // return value
  Frame &f = first.st.back();
  Inst &in = f.fn->code[f.pc];
  CallInfo &ci = f.fn->calls[in.a];
  auto mergeVals = [&](const std::vector<Val> &vs, unsigned w) -> Val {
    // group equal values
    std::vector<std::pair<Val, std::vector<size_t>>> gr;
    for (size_t i = 0; i < vs.size(); i++) {
      bool f2 = false;
      for (auto &q : gr) if (q.first.e == vs[i].e && (vs[i].e || q.first.c == vs[i].c)) { q.second.push_back(i); f2 = true; break; }
      if (!f2) gr.push_back({vs[i], {i}});
    }
    if (gr.size() == 1) return gr[0].first;
    std::sort(gr.begin(), gr.end(), [](auto &x, auto &y) { return x.second.size() > y.second.size(); });
    E r = toE(gr[0].first, w);
    for (size_t k = 1; k < gr.size(); k++) {
      E c = mkFalse();
      for (size_t i : gr[k].second) c = mkOr(c, conds[i]);
      r = mkIte(c, toE(gr[k].first, w), r);
    }
    return toV(r);
  };
  for (size_t j = 0; j < ci.rw.size(); j++) {
    std::vector<Val> vs; for (auto p : ps) vs.push_back(p->st.back().regs[in.d + j]);
    f.regs[in.d + j] = mergeVals(vs, ci.rw[j]);
  }
  for (uint32_t id : diff) {
    std::vector<Obj *> os; for (auto p : ps) os.push_back(p->mem.get(id));
    uint32_t sz = os[0]->size;
    std::vector<std::pair<uint32_t, Val>> up;
    for (uint32_t b = 0; b < sz; b++) {
      bool same = true;
      for (auto o : os) if (o->data[b] != os[0]->data[b] || (o->sym ? o->sym[b] : nullptr) != (os[0]->sym ? os[0]->sym[b] : nullptr)) { same = false; break; }
      // concrete data under a symbolic byte is irrelevant
      if (!same) { bool s2 = os[0]->sym && os[0]->sym[b]; if (s2) for (auto o : os) if (!(o->sym && o->sym[b] == os[0]->sym[b])) s2 = false; if (s2) same = true; }
      if (same) continue;
      std::vector<Val> vs; for (auto o : os) vs.push_back(o->sym && o->sym[b] ? Val{0, o->sym[b]} : VC(o->data[b]));
      up.push_back({b, mergeVals(vs, 8)});
    }
    Obj *o = first.mem.getW(id);
    for (auto &u : up) writeByte(o, u.first, toE(u.second, 8));
  }
  first.pc.resize(g->pcLen);
  first.eq = g->eq;
  for (auto p : ps) { first.mem.next = std::max(first.mem.next, p->mem.next); first.steps = std::max(first.steps, p->steps); }
  if (g->lost) { E c = mkFalse(); for (E x : conds) c = mkOr(c, x); addPc(first, c); }
  for (size_t i = 1; i < ps.size(); i++) {
    // outer groups: the merged states leave as one member
    for (auto &fr : ps[i]->st) if (fr.group) fr.group->outstanding--;
    delete ps[i];
  }
  completeCall(first);
  work.push_back(ps[0]);
  delete g;
}

// ---- FP helpers
static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t c; memcpy(&c, &d, 8); return c; }

Val binop(State &s, uint16_t op, Val a, Val b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = MASK(w), x = a.c, y = b.c;
    switch (op) {
    case O_ADD: return VC((x + y) & m);
    case O_SUB: return VC((x - y) & m);
    case O_MUL: return VC((x * y) & m);
    case O_UDIV: if (!y) fail(s, "div-by-zero", "unsigned division by zero"); return VC(x / y);
    case O_UREM: if (!y) fail(s, "div-by-zero", "unsigned remainder by zero"); return VC(x % y);
    case O_SDIV: if (!y) fail(s, "div-by-zero", "signed division by zero"); if (SX(y, w) == -1) return VC((0 - x) & m); return VC((uint64_t)(SX(x, w) / SX(y, w)) & m);
    case O_SREM: if (!y) fail(s, "div-by-zero", "signed remainder by zero"); if (SX(y, w) == -1) return VC(0); return VC((uint64_t)(SX(x, w) % SX(y, w)) & m);
    case O_AND: return VC(x & y);
    case O_OR: return VC(x | y);
    case O_XOR: return VC(x ^ y);
    case O_SHL: return VC(y >= w ? 0 : (x << y) & m);
    case O_LSHR: return VC(y >= w ? 0 : x >> y);
    case O_ASHR: return VC(y >= w ? (SX(x, w) < 0 ? m : 0) : (uint64_t)(SX(x, w) >> y) & m);
    case O_EQ: return VC(x == y);
    case O_NE: return VC(x != y);
    case O_UGT: return VC(x > y);
    case O_UGE: return VC(x >= y);
    case O_ULT: return VC(x < y);
    case O_ULE: return VC(x <= y);
    case O_SGT: return VC(SX(x, w) > SX(y, w));
    case O_SGE: return VC(SX(x, w) >= SX(y, w));
    case O_SLT: return VC(SX(x, w) < SX(y, w));
    case O_SLE: return VC(SX(x, w) <= SX(y, w));
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (op) {
  case O_ADD: return toV(mkAdd(x, y));
  case O_SUB: return toV(mkSub(x, y));
  case O_MUL: return toV(mkBin(Op::MUL, x, y));
  case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
    if (decide(s, mkEq(y, mkConst(0, w)))) fail(s, "div-by-zero", "division by zero");
    static const Op t[] = {Op::UDIV, Op::SDIV, Op::UREM, Op::SREM};
    return toV(mkBin(t[op - O_UDIV], x, y));
  }
  case O_AND: return toV(mkAnd(x, y));
  case O_OR: return toV(mkOr(x, y));
  case O_XOR: return toV(mkBin(Op::XOR, x, y));
  case O_SHL: return toV(mkBin(Op::SHL, x, y));
  case O_LSHR: return toV(mkBin(Op::LSHR, x, y));
  case O_ASHR: return toV(mkBin(Op::ASHR, x, y));
  case O_EQ: return toV(mkEq(x, y));
  case O_NE: return toV(mkNot(mkEq(x, y)));
  case O_UGT: return toV(mkUlt(y, x));
  case O_UGE: return toV(mkUle(y, x));
  case O_ULT: return toV(mkUlt(x, y));
  case O_ULE: return toV(mkUle(x, y));
  case O_SGT: return toV(mkSlt(y, x));
  case O_SGE: return toV(mkSle(y, x));
  case O_SLT: return toV(mkSlt(x, y));
  case O_SLE: return toV(mkSle(x, y));
  }
  return VC(0);
}
Val norm(State &s, Val v) { if (v.e) { auto it = s.eq.find(v.e); if (it != s.eq.end()) return VC(it->second); } return v; }

// runs a state until it ends or is parked
void runState(State *sp) {
  State &s = *sp;
  try {
    for (;;) {
      Frame &f = s.st.back();
      Inst &in = f.fn->code[f.pc];
      s.steps++; steps++;
      if ((steps & 0xfff) == 0) {
        if (now() > deadline || (slots && slots[3] && time(nullptr) > slots[3])) { incompl["time limit"]++; throw PathEnd(); }
        // another entry of this check has found a violation: the verdict is settled, a short grace period is enough
        if (slots && slots[2] && time(nullptr) > slots[2] + 20) { incompl["time limit"]++; throw PathEnd(); }
        if (s.fuel && s.steps > s.fuel) fail(s, "terminates", "still running after the instructions the harness allowed");
        if (s.steps > stepLimit) giveUp(s, "step limit");
      }
      switch (in.op) {
      case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
      case O_EQ: case O_NE: case O_UGT: case O_UGE: case O_ULT: case O_ULE: case O_SGT: case O_SGE: case O_SLT: case O_SLE: {
        Val r = binop(s, in.op, get(s, in.a), get(s, in.b), in.w);
        f.regs[in.d] = r; f.pc++; break;
      }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: case O_FCMP: case O_FNEG: {
        Val a = norm(s, get(s, in.a)), b = in.op == O_FNEG ? VC(0) : norm(s, get(s, in.b));
        if (a.e || b.e || in.w > 64) giveUp(s, "symbolic floating point");
        double x = asD(a.c, in.w), y = asD(b.c, in.w);
        Val r = VC(0);
        switch (in.op) {
        case O_FADD: r = VC(fromD(in.w == 32 ? (float)x + (float)y : x + y, in.w)); break;
        case O_FSUB: r = VC(fromD(in.w == 32 ? (float)x - (float)y : x - y, in.w)); break;
        case O_FMUL: r = VC(fromD(in.w == 32 ? (float)x * (float)y : x * y, in.w)); break;
        case O_FDIV: r = VC(fromD(in.w == 32 ? (float)x / (float)y : x / y, in.w)); break;
        case O_FREM: r = VC(fromD(fmod(x, y), in.w)); break;
        case O_FNEG: r = VC(fromD(-x, in.w)); break;
        case O_FCMP: {
          bool un = std::isnan(x) || std::isnan(y);
          unsigned p = in.imm; bool res = false;
          if (p & 8) res |= un;
          if (!un) { if ((p & 1) && x == y) res = true; if ((p & 2) && x > y) res = true; if ((p & 4) && x < y) res = true; }
          r = VC(res); break;
        }
        }
        f.regs[in.d] = r; f.pc++; break;
      }
      case O_FPTOUI: case O_FPTOSI: case O_UITOFP: case O_SITOFP: case O_FPCAST: {
        Val a = norm(s, get(s, in.a));
        if (a.e || in.w > 64 || in.w2 > 64) giveUp(s, "symbolic floating point conversion");
        Val r = VC(0);
        if (in.op == O_FPTOUI) r = VC((uint64_t)asD(a.c, in.w2) & MASK(in.w));
        else if (in.op == O_FPTOSI) r = VC((uint64_t)(int64_t)asD(a.c, in.w2) & MASK(in.w));
        else if (in.op == O_UITOFP) r = VC(fromD((double)a.c, in.w));
        else if (in.op == O_SITOFP) r = VC(fromD((double)SX(a.c, in.w2), in.w));
        else r = VC(fromD(asD(a.c, in.w2), in.w));
        f.regs[in.d] = r; f.pc++; break;
      }
      case O_TRUNC: { Val a = get(s, in.a); f.regs[in.d] = a.e ? toV(mkExtract(a.e, 0, in.w)) : VC(a.c & MASK(in.w)); f.pc++; break; }
      case O_ZEXT: { Val a = get(s, in.a); f.regs[in.d] = a.e ? toV(mkZExt(a.e, in.w)) : in.w > 64 ? Val{0, mkConst(APInt(in.w, a.c))} : a; f.pc++; break; }
      case O_SEXT: { Val a = get(s, in.a); f.regs[in.d] = a.e ? toV(mkSExt(a.e, in.w)) : in.w > 64 ? Val{0, mkConst(APInt(in.w2, a.c).sext(in.w))} : VC((uint64_t)SX(a.c, in.w2) & MASK(in.w)); f.pc++; break; }
      case O_MOV: {
        if (in.imm == 1) { // bit cast between different shapes
          int nsrc = in.b; E whole = nullptr;
          for (int j = 0; j < nsrc; j++) { E e = toE(get(s, slot(in.a, j)), in.w2); whole = whole ? mkConcat(e, whole) : e; }
          for (int j = 0; j < in.n; j++) f.regs[in.d + j] = toV(mkExtract(whole, j * in.w, in.w));
        } else if (in.n == 1) f.regs[in.d] = get(s, in.a);
        else { for (int j = 0; j < in.n; j++) f.regs[in.d + j] = get(s, slot(in.a, j)); }
        f.pc++; break;
      }
      case O_SELECT: {
        Val c = norm(s, get(s, in.a));
        if (!c.e) f.regs[in.d] = get(s, c.c & 1 ? in.b : in.c);
        else {
          Val t = get(s, in.b), e = get(s, in.c);
          f.regs[in.d] = toV(mkIte(c.e, toE(t, in.w), toE(e, in.w)));
        }
        f.pc++; break;
      }
      case O_LOAD: {
        Val p = get(s, in.a);
        if (in.imm) p = p.e ? toV(mkAdd(p.e, mkConst(in.imm, 64))) : VC(p.c + in.imm);
        f.regs[in.d] = load(s, p, in.w); f.pc++; break;
      }
      case O_STORE: {
        Val p = get(s, in.a);
        if (in.imm) p = p.e ? toV(mkAdd(p.e, mkConst(in.imm, 64))) : VC(p.c + in.imm);
        store(s, p, get(s, in.b), in.w); f.pc++; break;
      }
      case O_ALLOCA: {
        uint64_t n = concretize(s, get(s, in.a), 64, "alloca");
        uint32_t id = s.mem.alloc((uint32_t)(n * in.imm), 1, 0xAA);
        f.allocas.push_back(id);
        f.regs[in.d] = VC((uint64_t)id << 32); f.pc++; break;
      }
      case O_GEPC: { Val a = get(s, in.a); f.regs[in.d] = a.e ? toV(mkAdd(a.e, mkConst(in.imm, 64))) : VC(a.c + in.imm); f.pc++; break; }
      case O_GEPS: {
        Val a = get(s, in.a), b = norm(s, get(s, in.b));
        if (!b.e) {
          uint64_t k = (uint64_t)SX(b.c, in.w2) * in.imm;
          f.regs[in.d] = a.e ? toV(mkAdd(a.e, mkConst(k, 64))) : VC(a.c + k);
        } else {
          E ix = mkSExt(b.e, 64);
          f.regs[in.d] = toV(mkAdd(toE(a, 64), mkBin(Op::MUL, ix, mkConst(in.imm, 64))));
        }
        f.pc++; break;
      }
      case O_BR: takeEdge(s, in.a); break;
      case O_CONDBR: {
        Val c = get(s, in.a);
        bool t = c.e ? decide(s, c.e) : (c.c & 1);
        takeEdge(s, t ? in.b : in.c); break;
      }
      case O_SWITCH: {
        auto &sw = f.fn->switches[in.b];
        Val v = norm(s, get(s, in.a));
        int e = sw.second;
        if (!v.e) { for (auto &c : sw.first) if (c.first == v.c) { e = c.second; break; } }
        else {
          // group the cases by target
          std::vector<std::pair<int, E>> tg;
          for (auto &c : sw.first) {
            E q = mkEq(v.e, mkConst(c.first));
            bool f2 = false;
            for (auto &t : tg) if (t.first == c.second) { t.second = mkOr(t.second, q); f2 = true; break; }
            if (!f2) tg.push_back({c.second, q});
          }
          for (auto &t : tg) { if (t.first == sw.second) continue; if (decide(s, t.second)) { e = t.first; break; } }
        }
        takeEdge(s, e); break;
      }
      case O_RET: {
        Val rv[16]; std::vector<Val> big; Val *r = rv;
        if (in.n > 16) { big.resize(in.n); r = big.data(); }
        for (int j = 0; j < in.n; j++) r[j] = get(s, slot(in.a, j));
        if (doReturn(sp, r, in.n)) return;
        break;
      }
      case O_CALL: if (doCall(sp, in)) return; break;
      case O_RESUME: {
        uint64_t hdr = get(s, in.a).c;
        // leave this frame and continue unwinding in the caller
        Group *g = s.st.back().group; s.st.back().group = nullptr;
        popFrame(s);
        if (g) { g->lost = true; if (--g->outstanding == (int)g->parked.size()) finishGroup(g); }
        if (s.st.empty()) { throw PathEnd(); }
        unwind(s, hdr, excTi(s, hdr));
        break;
      }
      case O_UNREACH: fail(s, "unreachable", "reached code the compiler considers unreachable (undefined behaviour or noreturn)");
      case O_RMW: {
        Val p = get(s, in.a), v = get(s, in.b);
        Val o = load(s, p, in.w), n = v;
        switch (in.imm) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = binop(s, O_ADD, o, v, in.w); break;
        case AtomicRMWInst::Sub: n = binop(s, O_SUB, o, v, in.w); break;
        case AtomicRMWInst::And: n = binop(s, O_AND, o, v, in.w); break;
        case AtomicRMWInst::Or: n = binop(s, O_OR, o, v, in.w); break;
        case AtomicRMWInst::Xor: n = binop(s, O_XOR, o, v, in.w); break;
        default: giveUp(s, "atomicrmw kind");
        }
        store(s, p, n, in.w);
        f.regs[in.d] = o; f.pc++; break;
      }
      case O_CMPXCHG: {
        Val p = get(s, in.a), c = get(s, in.b), n = get(s, in.c);
        Val o = load(s, p, in.w);
        Val q = binop(s, O_EQ, o, c, in.w);
        bool t = q.e ? decide(s, q.e) : q.c;
        if (t) store(s, p, n, in.w);
        f.regs[in.d] = o; f.regs[in.d + 1] = VC(t); f.pc++; break;
      }
      case O_LPAD: giveUp(s, "landing pad reached by normal control flow");
      default: {
        std::string str; raw_string_ostream os(str); if (in.src) in.src->print(os);
        giveUp(s, "unsupported instruction " + os.str().substr(0, 120));
      }
      }
    }
  } catch (PathEnd &) {
    paths++;
    kill(sp);
  }
}
bool doCall(State *sp, Inst &in) {
  State &s = *sp;
  CallInfo &ci = s.st.back().fn->calls[in.a];
  Fn *fn = ci.fn;
  if (ci.indirect) {
    uint64_t a = concretize(s, get(s, ci.target), 64, "function pointer");
    uint64_t id = a >> 32;
    if (id < 0x80000000ull || (a & 0xffffffff) || id - 0x80000000ull >= fns.size()) {
      char b[64]; snprintf(b, sizeof b, "call through invalid pointer %llx", (unsigned long long)a);
      fail(s, "memory", b);
    }
    fn = fns[id - 0x80000000ull];
  }
  Val av[24]; std::vector<Val> big; Val *a = av;
  size_t n = ci.args.size();
  if (n > 24) { big.resize(n); a = big.data(); }
  for (size_t i = 0; i < n; i++) a[i] = get(s, ci.args[i]);
  if (fn->bi) {
    fn->hits++;
    Ctx c; c.eng = this; c.s = &s; c.fn = fn; c.ci = &ci; c.args = a; c.n = n;
    for (auto &r : c.ret) r = VC(0);
    size_t depth = s.st.size();
    fn->bi(c);
    if (c.jumped) return false;
    (void)depth;
    Frame &f = s.st.back();
    for (size_t i = 0; i < ci.rw.size() && i < 4; i++) f.regs[in.d + i] = c.ret[i];
    if (ci.invoke) takeEdge(s, ci.normal); else f.pc++;
    return false;
  }
  if (fn->f->isDeclaration()) giveUp(s, "call to undefined function " + fn->demangled.substr(0, 160));
  bool mg = fn->merge && !(fn->condArg >= 0 && (size_t)fn->condArg < n && !a[fn->condArg].e);
  size_t pcLen = s.pc.size();
  if (trace) fprintf(stderr, "%*s%s\n", (int)s.st.size(), "", fn->demangled.substr(0, 120).c_str());
  if (mg) {
    Group *g = new Group(s.mem);
    g->fn = fn; g->pcLen = pcLen; g->eq = s.eq; g->depth = s.st.size(); g->ufN = s.uf.size(); g->inN = s.inputs.size();
    pushFrame(s, fn, a, n);
    s.st.back().group = g;
  } else pushFrame(s, fn, a, n);
  return false;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
