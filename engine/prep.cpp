// Links harness + stubs + the repository's bitcode (only what is needed) and optimises the result.
#include "llvm/IR/IRBuilder.h"
#include <llvm/Passes/StandardInstrumentations.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/CodeExtractor.h>
#include <regex>
#include <set>
#include <map>
#include <cstdio>
using namespace llvm;

static std::unique_ptr<Module> load(const std::string &f, LLVMContext &C) {
  SMDiagnostic err;
  auto m = parseIRFile(f, err, C);
  if (!m) { err.print("prep", errs()); exit(3); }
  return m;
}
static bool strongDef(const GlobalValue &g) {
  return !g.isDeclaration() && !g.hasLocalLinkage() && !g.hasAvailableExternallyLinkage();
}

// Short branch regions that only load, compute and store integers become functions of their own, so
// that the executor can merge their paths where the region ends.
static unsigned outlineRegions(Function &F) {
  unsigned done = 0;
  std::set<BasicBlock *> tried;
  for (;;) {
    DominatorTree DT(F); PostDominatorTree PDT(F);
    std::vector<BasicBlock *> region; BranchInst *br = nullptr;
    for (BasicBlock &B : F) {
      auto *bi = dyn_cast<BranchInst>(B.getTerminator());
      if (!bi || !bi->isConditional() || isa<Constant>(bi->getCondition()) || tried.count(&B)) continue;
      auto *n = PDT.getNode(&B); if (!n || !n->getIDom()) continue;
      BasicBlock *join = n->getIDom()->getBlock();
      if (!join || join == &B) continue;
      std::vector<BasicBlock *> r, wl(succ_begin(&B), succ_end(&B)); std::set<BasicBlock *> seen;
      bool ok = true, mem = false; size_t ninst = 0;
      while (ok && !wl.empty()) {
        BasicBlock *x = wl.back(); wl.pop_back();
        if (x == join || !seen.insert(x).second) continue;
        if (x == &B || !DT.dominates(&B, x) || seen.size() > 6) { ok = false; break; }
        r.push_back(x);
        for (Instruction &I : *x) {
          ninst++;
          if (auto *st = dyn_cast<StoreInst>(&I)) { mem = true; if (!st->getValueOperand()->getType()->isIntegerTy() || st->isVolatile()) ok = false; }
          else if (auto *ld = dyn_cast<LoadInst>(&I)) { mem = true; if (!ld->getType()->isIntegerTy() || ld->isVolatile()) ok = false; }
          else if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { if (ii->mayHaveSideEffects() && !ii->isAssumeLikeIntrinsic()) ok = false; }
          else if (isa<CallBase>(&I) || isa<AllocaInst>(&I) || isa<LandingPadInst>(&I) || isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I) || isa<FenceInst>(&I)) ok = false;
          else if (I.isTerminator() && !isa<BranchInst>(&I)) ok = false;
          else if (!I.getType()->isVoidTy() && !I.getType()->isIntegerTy() && !isa<GetElementPtrInst>(&I)) ok = false;
          if (!I.getType()->isVoidTy() && !I.getType()->isIntegerTy()) for (User *u : I.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!seen.count(ui->getParent()) && ui->getParent() != x && std::find(r.begin(), r.end(), ui->getParent()) == r.end()) ok = false;
        }
        for (BasicBlock *y : successors(x)) wl.push_back(y);
      }
      // acyclic: no region block may reach a block it is dominated by
      for (BasicBlock *x : r) for (BasicBlock *y : successors(x)) if (y != join && DT.dominates(y, x)) ok = false;
      // pointer joins are left alone
      if (ok) for (PHINode &p : join->phis()) if (!p.getType()->isIntegerTy()) { bool in = false; for (BasicBlock *x : r) if (p.getBasicBlockIndex(x) >= 0) in = true; if (in) ok = false; }
      if (ok && DT.dominates(join, &B)) { /* back edge to a loop header is fine */ }
      if (!ok || !mem || r.empty() || ninst > 40) continue;
      br = bi; region = r; break;
    }
    if (!br) return done;
    BasicBlock *B = br->getParent();
    Value *cond = br->getCondition();
    BasicBlock *H = SplitBlock(B, br);
    tried.insert(B); tried.insert(H);
    region.insert(region.begin(), H);
    CodeExtractorAnalysisCache CEAC(F);
    CodeExtractor CE(region);
    if (!CE.isEligible()) continue;
    Function *nf = CE.extractCodeRegion(CEAC);
    if (!nf) continue;
    done++;
    nf->removeFnAttr(Attribute::AlwaysInline); nf->addFnAttr(Attribute::NoInline); nf->addFnAttr("verif-merge");
    auto *nb = nf->getEntryBlock().getSingleSuccessor();
    BranchInst *b2 = dyn_cast<BranchInst>(nf->getEntryBlock().getTerminator());
    if (b2 && !b2->isConditional() && nb) b2 = dyn_cast<BranchInst>(nb->getTerminator());
    if (b2 && b2->isConditional()) for (auto &a : nf->args()) if (b2->getCondition() == &a) nf->addFnAttr("verif-cond", std::to_string(a.getArgNo()));
    (void)cond;
  }
}

int main_prep(int argc, char **argv) {
  std::vector<std::string> first, repo, rt;
  std::string outLinked, outPrep;
  std::vector<std::string> mergeRe, concRe, noRe;
  std::vector<std::string> *cur = &first;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--harness") cur = &first;
    else if (a == "--repo") cur = &repo;
    else if (a == "--rt") cur = &rt;
    else if (a == "--linked") outLinked = argv[++i];
    else if (a == "--out") outPrep = argv[++i];
    else if (a == "--merge") mergeRe.push_back(argv[++i]);
    else if (a == "--nomerge") noRe.push_back(argv[++i]);
    else if (a == "--concretize") concRe.push_back(argv[++i]);
    else if (a[0] == '@') {
      auto b = MemoryBuffer::getFile(a.substr(1));
      SmallVector<StringRef, 64> lines; (*b)->getBuffer().split(lines, '\n', -1, false);
      for (auto l : lines) cur->push_back(l.str());
    } else cur->push_back(a);
  }
  LLVMContext C;
  auto dest = load(first[0], C);
  Linker L(*dest);
  std::set<std::string> overrides;
  auto collect = [&](Module &m) { for (auto &g : m.global_values()) if (strongDef(g) && !g.hasLinkOnceLinkage() && !g.hasWeakLinkage()) overrides.insert(g.getName().str()); };
  collect(*dest);
  for (size_t i = 1; i < first.size(); i++) {
    auto m = load(first[i], C); collect(*m);
    if (L.linkInModule(std::move(m))) { errs() << "link failed " << first[i] << "\n"; return 3; }
  }
  // index the repository's symbols
  std::map<std::string, int> index;
  std::vector<std::unique_ptr<Module>> mods(repo.size());
  for (size_t i = 0; i < repo.size(); i++) {
    auto bufOr = MemoryBuffer::getFile(repo[i]);
    if (!bufOr) { errs() << "cannot read " << repo[i] << "\n"; return 3; }
    auto mo = getOwningLazyBitcodeModule(std::move(*bufOr), C);
    if (!mo) { errs() << "bad bitcode " << repo[i] << "\n"; return 3; }
    mods[i] = std::move(*mo);
    for (auto &g : mods[i]->global_values())
      if (!g.hasLocalLinkage() && !g.isDeclarationForLinker() && !g.hasLinkOnceLinkage() && !g.hasAvailableExternallyLinkage())
        index.emplace(g.getName().str(), (int)i);
  }
  auto needed = [&](std::set<std::string> &out) {
    for (auto &g : dest->global_values()) if (g.isDeclaration() && !g.use_empty() && g.hasName()) out.insert(g.getName().str());
  };
  std::set<int> linkedMods;
  auto stripOverrides = [&](Module &m) {
    for (auto &f : m) if (!f.isDeclaration() && !f.hasLocalLinkage() && overrides.count(f.getName().str())) { f.deleteBody(); f.setComdat(nullptr); }
    for (auto &g : m.globals()) if (!g.isDeclaration() && !g.hasLocalLinkage() && overrides.count(g.getName().str()) && !g.hasAppendingLinkage()) { g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); g.setComdat(nullptr); }
  };
  for (;;) {
    std::set<std::string> need; needed(need);
    int pick = -1;
    for (auto &n : need) { auto it = index.find(n); if (it != index.end() && !linkedMods.count(it->second)) { pick = it->second; break; } }
    if (pick < 0) {
      // a module may need to be linked again for symbols that were not needed the first time
      std::set<int> again;
      for (auto &n : need) { auto it = index.find(n); if (it != index.end()) again.insert(it->second); }
      bool progress = false;
      for (int i : again) {
        auto m = load(repo[i], C);
        stripOverrides(*m);
        // drop constructors: already linked
        if (auto *gc = m->getNamedGlobal("llvm.global_ctors")) gc->eraseFromParent();
        std::set<std::string> before; needed(before);
        if (L.linkInModule(std::move(m), Linker::Flags::LinkOnlyNeeded)) { errs() << "link failed " << repo[i] << "\n"; return 3; }
        std::set<std::string> after; needed(after);
        if (before != after) { progress = true; break; }
      }
      if (!progress) break;
      continue;
    }
    linkedMods.insert(pick);
    auto m = load(repo[pick], C);
    stripOverrides(*m);
    if (L.linkInModule(std::move(m), Linker::Flags::LinkOnlyNeeded)) { errs() << "link failed " << repo[pick] << "\n"; return 3; }
  }
  for (int i : linkedMods) fprintf(stderr, "linked %s\n", repo[i].c_str());
  if (!outLinked.empty()) {
    std::error_code ec; raw_fd_ostream os(outLinked, ec); WriteBitcodeToFile(*dest, os);
  }
  for (auto &f : *dest) if (f.hasAvailableExternallyLinkage()) f.setLinkage(GlobalValue::LinkOnceODRLinkage);
  for (auto &g : dest->globals()) if (g.hasAvailableExternallyLinkage()) g.setLinkage(GlobalValue::LinkOnceODRLinkage);
  for (auto &f : rt) {
    auto m = load(f, C);
    if (L.linkInModule(std::move(m), Linker::Flags::LinkOnlyNeeded)) { errs() << "link failed " << f << "\n"; return 3; }
  }
  // keep only harness entry points (functions whose name begins with "H_")
  internalizeModule(*dest, [](const GlobalValue &g) { return g.getName().starts_with("H_") || g.getName() == "llvm.global_ctors"; });
  std::vector<std::regex> mres; for (auto &s : mergeRe) mres.emplace_back(s);
  std::vector<std::regex> nres; for (auto &s : noRe) nres.emplace_back(s);
  std::vector<std::regex> cres; for (auto &s : concRe) cres.emplace_back(s);
  static const std::regex defMerge("^((?!std::|__gnu_cxx::|bool std::|fs::|ghc::).)*::operator(==|!=|<|>|<=|>=)\\(.*");
  for (auto &f : *dest) {
    if (f.isDeclaration()) continue;
    std::string d = demangle(f.getName().str());
    bool mg = f.getName().starts_with("merge_");
    if (!mg && d.find("operator") != std::string::npos) {
      // name part only
      size_t p = d.find('(');
      std::string nm = d.substr(0, d.find("operator") == std::string::npos ? p : d.size());
      if (std::regex_match(nm, defMerge)) mg = true;
    }
    for (auto &r : mres) if (std::regex_search(d, r)) mg = true;
    // the value such a function returns is enumerated: every feasible value is explored on its own path
    for (auto &r : cres) if (std::regex_search(d, r) && f.getReturnType()->isIntegerTy() && f.getReturnType()->getIntegerBitWidth() <= 64) {
      Type *i64 = Type::getInt64Ty(C); auto vc = dest->getOrInsertFunction("verif_concretize", i64, i64);
      std::vector<ReturnInst *> rs; for (auto &b : f) if (auto *ri = dyn_cast<ReturnInst>(b.getTerminator())) rs.push_back(ri);
      for (auto *ri : rs) { IRBuilder<> ib(ri); Value *v = ib.CreateZExt(ri->getReturnValue(), i64); auto *call = ib.CreateCall(vc, {v}); if (auto dl = ri->getDebugLoc()) call->setDebugLoc(dl); ri->setOperand(0, ib.CreateTrunc(call, f.getReturnType())); }
      f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline);
    }
    if (mg) { f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline); f.addFnAttr("verif-merge"); }
    f.removeFnAttr(Attribute::OptimizeNone);
    // kept as written, so that its branches stay branches and are explored one by one
    for (auto &r : nres) if (std::regex_search(d, r)) { f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline); f.addFnAttr(Attribute::OptimizeNone); }
  }
  PipelineTuningOptions pto;
  pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.MergeFunctions = false;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassInstrumentationCallbacks PIC; OptNoneInstrumentation onone(false); onone.registerCallbacks(PIC);
  PassBuilder PB(nullptr, pto, std::nullopt, &PIC);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM0; MPM0.addPass(GlobalDCEPass()); MPM0.run(*dest, MAM);
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
  MPM.run(*dest, MAM);
  ModulePassManager MPM2; MPM2.addPass(GlobalDCEPass()); MPM2.run(*dest, MAM);
  { std::vector<Function *> fs; for (auto &f : *dest) if (!f.isDeclaration() && !f.getName().starts_with("H_")) if (std::none_of(nres.begin(), nres.end(), [&](auto &r) { return std::regex_search(demangle(f.getName().str()), r); })) fs.push_back(&f);
    unsigned n = 0; for (auto f : fs) n += outlineRegions(*f); fprintf(stderr, "outlined %u regions\n", n); }
  if (verifyModule(*dest, &errs())) { errs() << "broken module\n"; return 3; }
  std::error_code ec; raw_fd_ostream os(outPrep, ec); WriteBitcodeToFile(*dest, os);
  return 0;
}
