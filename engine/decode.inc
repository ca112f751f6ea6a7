// ---------------------------------------------------------------- decoding (inside struct Engine)
void decode(Fn *fn) {
  if (fn->decoded) return;
  fn->decoded = true;
  const Function &F = *fn->f;
  std::unordered_map<const Value *, int32_t> slots;
  uint32_t nr = 0;
  for (auto &a : F.args()) { slots[&a] = nr; nr += nslots(a.getType()); }
  fn->nargs = nr;
  for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) { slots[&I] = nr; nr += nslots(I.getType()); }
  flat(F.getReturnType(), fn->rw);
  std::unordered_map<const Constant *, int32_t> cslots;
  auto op = [&](const Value *v) -> int32_t {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslots.find(c);
      if (it != cslots.end()) return it->second;
      std::vector<Val> vs; constSlots(c, vs);
      int32_t r = -(int32_t)cpool.size() - 1;
      for (auto &x : vs) cpool.push_back(x);
      if (vs.empty()) cpool.push_back(VC(0));
      return cslots[c] = r;
    }
    auto it = slots.find(v);
    if (it == slots.end()) return -1;
    return it->second;
  };
  auto imm = [&](uint64_t k) { cpool.push_back(VC(k)); return -(int32_t)cpool.size(); };
  std::unordered_map<const BasicBlock *, uint32_t> bbPc;
  struct Fix { int edge; const BasicBlock *bb; };
  std::vector<Fix> fixes;
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = 0; e.n = 0;
    for (auto &ph : to->phis()) {
      const Value *v = ph.getIncomingValueForBlock(from);
      int32_t d = slots[&ph], s = op(v); int n = nslots(ph.getType());
      if (isa<UndefValue>(v)) { /* copy zero */ }
      for (int j = 0; j < n; j++) e.copies.push_back({d + j, slot(s, j)});
    }
    fn->edges.push_back(e);
    fixes.push_back({(int)fn->edges.size() - 1, to});
    return (int)fn->edges.size() - 1;
  };
  auto emit = [&](uint16_t o, unsigned w, int32_t d, int32_t a, int32_t b, int32_t c, uint64_t im, const Instruction *src) -> Inst & {
    Inst i; i.op = o; i.w = w; i.w2 = 0; i.n = 1; i.d = d; i.a = a; i.b = b; i.c = c; i.imm = im; i.src = src;
    fn->code.push_back(i); return fn->code.back();
  };
  for (auto &B : F) {
    bbPc[&B] = fn->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      int32_t d = I.getType()->isVoidTy() ? -1 : slots[&I];
      std::vector<uint16_t> rw; flat(I.getType(), rw);
      unsigned w = rw.empty() ? 0 : rw[0];
      auto unsup = [&](const char *) { emit(O_UNSUP, w, d, 0, 0, 0, 0, &I); };
      bool vec = I.getType()->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy());
      unsigned vn = 1;
      if (vec) { Type *t = I.getType()->isVectorTy() ? I.getType() : I.getOperand(0)->getType(); vn = isa<FixedVectorType>(t) ? cast<FixedVectorType>(t)->getNumElements() : 1; }
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        static const std::map<unsigned, uint16_t> m = {
          {Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV},
          {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR},
          {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR},
          {Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
        for (unsigned j = 0; j < vn; j++) emit(m.at(bo->getOpcode()), w, d + j, slot(op(I.getOperand(0)), j), slot(op(I.getOperand(1)), j), 0, 0, &I);
        continue;
      }
      switch (I.getOpcode()) {
      case Instruction::ICmp: {
        static const std::map<unsigned, uint16_t> m = {
          {CmpInst::ICMP_EQ, O_EQ}, {CmpInst::ICMP_NE, O_NE}, {CmpInst::ICMP_UGT, O_UGT}, {CmpInst::ICMP_UGE, O_UGE}, {CmpInst::ICMP_ULT, O_ULT}, {CmpInst::ICMP_ULE, O_ULE},
          {CmpInst::ICMP_SGT, O_SGT}, {CmpInst::ICMP_SGE, O_SGE}, {CmpInst::ICMP_SLT, O_SLT}, {CmpInst::ICMP_SLE, O_SLE}};
        std::vector<uint16_t> ow; flat(I.getOperand(0)->getType(), ow);
        for (unsigned j = 0; j < vn; j++) emit(m.at(cast<ICmpInst>(I).getPredicate()), ow[0], d + j, slot(op(I.getOperand(0)), j), slot(op(I.getOperand(1)), j), 0, 0, &I);
        break;
      }
      case Instruction::FCmp: {
        std::vector<uint16_t> ow; flat(I.getOperand(0)->getType(), ow);
        emit(O_FCMP, ow[0], d, op(I.getOperand(0)), op(I.getOperand(1)), 0, cast<FCmpInst>(I).getPredicate(), &I);
        break;
      }
      case Instruction::FNeg: emit(O_FNEG, w, d, op(I.getOperand(0)), 0, 0, 0, &I); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
      case Instruction::FPTrunc: case Instruction::FPExt: {
        static const std::map<unsigned, uint16_t> m = {{Instruction::Trunc, O_TRUNC}, {Instruction::ZExt, O_ZEXT}, {Instruction::SExt, O_SEXT}, {Instruction::FPToUI, O_FPTOUI},
          {Instruction::FPToSI, O_FPTOSI}, {Instruction::UIToFP, O_UITOFP}, {Instruction::SIToFP, O_SITOFP}, {Instruction::FPTrunc, O_FPCAST}, {Instruction::FPExt, O_FPCAST}};
        std::vector<uint16_t> ow; flat(I.getOperand(0)->getType(), ow);
        for (unsigned j = 0; j < vn; j++) { auto &x = emit(m.at(I.getOpcode()), w, d + j, slot(op(I.getOperand(0)), j), 0, 0, 0, &I); x.w2 = ow[0]; }
        break;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        std::vector<uint16_t> ow; flat(I.getOperand(0)->getType(), ow);
        if (ow[0] == w) emit(O_MOV, w, d, op(I.getOperand(0)), 0, 0, 0, &I);
        else { auto &x = emit(w < ow[0] ? O_TRUNC : O_ZEXT, w, d, op(I.getOperand(0)), 0, 0, 0, &I); x.w2 = ow[0]; }
        break;
      }
      case Instruction::BitCast: {
        std::vector<uint16_t> ow; flat(I.getOperand(0)->getType(), ow);
        if (ow.size() == 1 && rw.size() == 1) emit(O_MOV, w, d, op(I.getOperand(0)), 0, 0, 0, &I);
        else if (ow == rw) { auto &x = emit(O_MOV, w, d, op(I.getOperand(0)), 0, 0, 0, &I); x.n = rw.size(); }
        else { auto &x = emit(O_MOV, w, d, op(I.getOperand(0)), 0, 0, 1, &I); x.n = rw.size(); x.w2 = ow[0]; x.b = (int32_t)ow.size(); }
        break;
      }
      case Instruction::AddrSpaceCast: case Instruction::Freeze: { auto &x = emit(O_MOV, w, d, op(I.getOperand(0)), 0, 0, 0, &I); x.n = rw.size(); break; }
      case Instruction::Select: {
        if (I.getOperand(0)->getType()->isVectorTy()) {
          for (unsigned j = 0; j < rw.size(); j++) emit(O_SELECT, w, d + j, slot(op(I.getOperand(0)), j), slot(op(I.getOperand(1)), j), slot(op(I.getOperand(2)), j), 0, &I);
        } else for (unsigned j = 0; j < rw.size(); j++) emit(O_SELECT, rw[j], d + j, op(I.getOperand(0)), slot(op(I.getOperand(1)), j), slot(op(I.getOperand(2)), j), 0, &I);
        break;
      }
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        emit(O_ALLOCA, 64, d, op(A.getArraySize()), 0, 0, DL->getTypeAllocSize(A.getAllocatedType()), &I);
        break;
      }
      case Instruction::Load: {
        std::vector<std::pair<uint64_t, uint16_t>> fo; flatOff(I.getType(), 0, fo);
        int32_t p = op(I.getOperand(0));
        for (size_t j = 0; j < fo.size(); j++) emit(O_LOAD, fo[j].second, d + j, p, 0, 0, fo[j].first, &I);
        break;
      }
      case Instruction::Store: {
        std::vector<std::pair<uint64_t, uint16_t>> fo; flatOff(I.getOperand(0)->getType(), 0, fo);
        int32_t v = op(I.getOperand(0)), p = op(I.getOperand(1));
        for (size_t j = 0; j < fo.size(); j++) emit(O_STORE, fo[j].second, -1, p, slot(v, j), 0, fo[j].first, &I);
        break;
      }
      case Instruction::GetElementPtr: {
        if (I.getType()->isVectorTy()) { unsup("vgep"); break; }
        int64_t c = 0; int32_t cur = op(I.getOperand(0));
        std::vector<std::pair<const Value *, uint64_t>> var;
        for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
          const Value *ix = gi.getOperand();
          if (auto *st = gi.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) c += ci->getSExtValue() * (int64_t)sz;
          else var.push_back({ix, sz});
        }
        if (var.empty()) { emit(O_GEPC, 64, d, cur, 0, 0, (uint64_t)c, &I); break; }
        for (size_t j = 0; j < var.size(); j++) {
          std::vector<uint16_t> ow; flat(var[j].first->getType(), ow);
          auto &x = emit(O_GEPS, 64, d, j == 0 ? cur : d, op(var[j].first), 0, var[j].second, &I); x.w2 = ow[0];
        }
        if (c) emit(O_GEPC, 64, d, d, 0, 0, (uint64_t)c, &I);
        break;
      }
      case Instruction::Br: {
        auto &br = cast<BranchInst>(I);
        if (br.isUnconditional()) { int e = mkEdge(&B, br.getSuccessor(0)); emit(O_BR, 0, -1, e, 0, 0, 0, &I); }
        else { int32_t c = op(br.getCondition()); int e1 = mkEdge(&B, br.getSuccessor(0)), e2 = mkEdge(&B, br.getSuccessor(1)); emit(O_CONDBR, 1, -1, c, e1, e2, 0, &I); }
        break;
      }
      case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(I);
        std::vector<std::pair<APInt, int>> cs;
        std::map<const BasicBlock *, int> em;
        for (auto &c : sw.cases()) {
          auto it = em.find(c.getCaseSuccessor());
          int e = it == em.end() ? (em[c.getCaseSuccessor()] = mkEdge(&B, c.getCaseSuccessor())) : it->second;
          cs.push_back({c.getCaseValue()->getValue(), e});
        }
        int de = em.count(sw.getDefaultDest()) ? em[sw.getDefaultDest()] : mkEdge(&B, sw.getDefaultDest());
        fn->switches.push_back({cs, de});
        std::vector<uint16_t> ow; flat(sw.getCondition()->getType(), ow);
        emit(O_SWITCH, ow[0], -1, op(sw.getCondition()), (int)fn->switches.size() - 1, 0, 0, &I);
        break;
      }
      case Instruction::Ret: {
        const Value *rv = cast<ReturnInst>(I).getReturnValue();
        auto &x = emit(O_RET, 0, -1, rv ? op(rv) : 0, 0, 0, 0, &I);
        x.n = rv ? nslots(rv->getType()) : 0;
        break;
      }
      case Instruction::Unreachable: emit(O_UNREACH, 0, -1, 0, 0, 0, 0, &I); break;
      case Instruction::ExtractValue: case Instruction::InsertValue: {
        Type *t = I.getOperand(0)->getType();
        ArrayRef<unsigned> idx = I.getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
        int off = 0;
        for (unsigned ix : idx) {
          if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); }
          else { auto *at = cast<ArrayType>(t); off += ix * nslots(at->getElementType()); t = at->getElementType(); }
        }
        int n = nslots(t);
        int32_t a = op(I.getOperand(0));
        if (I.getOpcode() == Instruction::ExtractValue) { auto &x = emit(O_MOV, w, d, slot(a, off), 0, 0, 0, &I); x.n = n; if (a < 0) { fn->code.pop_back(); for (int j = 0; j < n; j++) emit(O_MOV, rw[j], d + j, slot(a, off + j), 0, 0, 0, &I); } }
        else {
          int32_t v = op(I.getOperand(1));
          for (unsigned j = 0; j < rw.size(); j++) emit(O_MOV, rw[j], d + j, slot(a, j), 0, 0, 0, &I);
          for (int j = 0; j < n; j++) emit(O_MOV, rw[off + j], d + off + j, slot(v, j), 0, 0, 0, &I);
        }
        break;
      }
      case Instruction::ExtractElement: {
        auto *ci = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!ci) { unsup("extractelement"); break; }
        emit(O_MOV, w, d, slot(op(I.getOperand(0)), (int)ci->getZExtValue()), 0, 0, 0, &I);
        break;
      }
      case Instruction::InsertElement: {
        auto *ci = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!ci) { unsup("insertelement"); break; }
        int32_t a = op(I.getOperand(0)), v = op(I.getOperand(1));
        for (unsigned j = 0; j < rw.size(); j++) emit(O_MOV, rw[j], d + j, j == ci->getZExtValue() ? v : slot(a, j), 0, 0, 0, &I);
        break;
      }
      case Instruction::ShuffleVector: {
        auto &sv = cast<ShuffleVectorInst>(I);
        int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1));
        int n0 = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements();
        for (unsigned j = 0; j < rw.size(); j++) { int m = sv.getMaskValue(j); emit(O_MOV, rw[j], d + j, m < 0 ? imm(0) : m < n0 ? slot(a, m) : slot(b, m - n0), 0, 0, 0, &I); }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto &cb = cast<CallBase>(I);
        if (isa<DbgInfoIntrinsic>(I)) break;
        if (cb.isInlineAsm()) {
          // empty barriers only
          if (I.getType()->isVoidTy()) break;
          unsup("asm"); break;
        }
        CallInfo ci;
        const Value *cv = cb.getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) {
          if (cf->isIntrinsic()) {
            StringRef nm = cf->getName();
            if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") ||
                nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.stackrestore") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.var.annotation"))
              break;
            if (nm.starts_with("llvm.stacksave") || nm.starts_with("llvm.launder") || nm.starts_with("llvm.strip") || nm.starts_with("llvm.expect") || nm.starts_with("llvm.ptr.annotation")) {
              if (nm.starts_with("llvm.stacksave")) { emit(O_MOV, 64, d, imm(0), 0, 0, 0, &I); break; }
              emit(O_MOV, w, d, op(cb.getArgOperand(0)), 0, 0, 0, &I); break;
            }
            if (nm.starts_with("llvm.eh.typeid.for")) {
              const Value *tv = cb.getArgOperand(0)->stripPointerCasts();
              emit(O_MOV, 32, d, imm(typeId(isa<ConstantPointerNull>(tv) ? nullptr : tv)), 0, 0, 0, &I); break;
            }
            if (nm.starts_with("llvm.is.constant")) { emit(O_MOV, 1, d, imm(0), 0, 0, 0, &I); break; }
            if (nm.starts_with("llvm.objectsize")) { emit(O_MOV, w, d, imm(MASK(w)), 0, 0, 0, &I); break; }
          }
          ci.fn = fnOf(cf);
        } else { ci.indirect = true; ci.target = op(cv); }
        for (auto &arg : cb.args()) {
          std::vector<uint16_t> aw; flat(arg->getType(), aw);
          int32_t s = op(arg);
          for (size_t j = 0; j < aw.size(); j++) { ci.args.push_back(slot(s, j)); ci.aw.push_back(aw[j]); }
        }
        ci.rw = rw;
        bool vecIntr = ci.fn && ci.fn->f->isIntrinsic() && vec && vn > 1 && !ci.fn->name.find("llvm.") && rw.size() == vn;
        if (vecIntr) {
          // lane by lane
          size_t na = cb.arg_size();
          for (unsigned j = 0; j < vn; j++) {
            CallInfo c2; c2.fn = ci.fn; c2.rw = {rw[j]};
            for (size_t k = 0; k < na; k++) {
              Type *at = cb.getArgOperand(k)->getType();
              c2.args.push_back(slot(op(cb.getArgOperand(k)), at->isVectorTy() ? j : 0)); 
              std::vector<uint16_t> aw; flat(at, aw); c2.aw.push_back(aw[0]);
            }
            fn->calls.push_back(c2);
            emit(O_CALL, rw[j], d + j, (int)fn->calls.size() - 1, 0, 0, 0, &I);
          }
          break;
        }
        if (auto *inv = dyn_cast<InvokeInst>(&I)) {
          ci.invoke = true;
          ci.normal = mkEdge(&B, inv->getNormalDest());
          ci.unwind = mkEdge(&B, inv->getUnwindDest());
        }
        fn->calls.push_back(ci);
        auto &x = emit(O_CALL, w, d, (int)fn->calls.size() - 1, 0, 0, 0, &I);
        x.n = rw.size();
        break;
      }
      case Instruction::LandingPad: {
        auto &lp = cast<LandingPadInst>(I);
        LpadInfo li; li.cleanup = lp.isCleanup();
        for (unsigned k = 0; k < lp.getNumClauses(); k++) {
          if (lp.isCatch(k)) {
            auto *c = lp.getClause(k)->stripPointerCasts();
            li.clauses.push_back(isa<ConstantPointerNull>(c) ? nullptr : cast<GlobalVariable>(c));
            li.filter.push_back(false);
          } else { li.clauses.push_back(nullptr); li.filter.push_back(true); }
        }
        fn->lpads.push_back(li);
        emit(O_LPAD, 64, d, (int)fn->lpads.size() - 1, 0, 0, 0, &I);
        break;
      }
      case Instruction::Resume: emit(O_RESUME, 0, -1, op(I.getOperand(0)), 0, 0, 0, &I); break;
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: {
        auto &rm = cast<AtomicRMWInst>(I);
        emit(O_RMW, w, d, op(rm.getPointerOperand()), op(rm.getValOperand()), 0, rm.getOperation(), &I);
        break;
      }
      case Instruction::AtomicCmpXchg: {
        auto &cx = cast<AtomicCmpXchgInst>(I);
        auto &x = emit(O_CMPXCHG, w, d, op(cx.getPointerOperand()), op(cx.getCompareOperand()), op(cx.getNewValOperand()), 0, &I);
        x.n = 2;
        break;
      }
      default: unsup(I.getOpcodeName()); break;
      }
    }
  }
  for (auto &f : fixes) fn->edges[f.edge].pc = bbPc[f.bb];
  fn->nregs = nr;
}
