static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch; }
  return r + "\"";
}
static void writeResults(Engine &e, const std::string &file, double wall) {
  FILE *fp = fopen(file.c_str(), "w");
  if (!fp) { perror(file.c_str()); _exit(3); }
  fprintf(fp, "{\"entry\":%s,\"wall\":%.2f,\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"merges\":%llu,\"mergeFail\":%llu,\"checks\":%llu,\"decisions\":%llu,", jstr(e.entry).c_str(), wall,
          (unsigned long long)e.paths, (unsigned long long)e.forks, (unsigned long long)e.steps, (unsigned long long)e.merges, (unsigned long long)e.mergeFail, (unsigned long long)e.checks, (unsigned long long)e.transitions);
  fprintf(fp, "\"queries\":%llu,\"cacheHits\":%llu,\"modelHits\":%llu,\"solverTime\":%.2f,\"maxQuery\":%.2f,", (unsigned long long)g_solver.queries, (unsigned long long)g_solver.cacheHits, (unsigned long long)g_solver.modelHits, g_solver.time, g_solver.maxTime);
  fprintf(fp, "\"violations\":[");
  for (size_t i = 0; i < e.viols.size(); i++) fprintf(fp, "%s{\"label\":%s,\"detail\":%s,\"where\":%s,\"model\":%s}", i ? "," : "", jstr(e.viols[i].label).c_str(), jstr(e.viols[i].detail).c_str(), jstr(e.viols[i].where).c_str(), jstr(e.viols[i].modelFile).c_str());
  fprintf(fp, "],\"incomplete\":[");
  bool first = true;
  for (auto &p : e.incompl) { fprintf(fp, "%s%s", first ? "" : ",", jstr(p.first + " x" + std::to_string(p.second)).c_str()); first = false; }
  auto set = [&](const char *n, const std::set<std::string> &st) { fprintf(fp, "],\"%s\":[", n); bool f = true; for (auto &x : st) { fprintf(fp, "%s%s", f ? "" : ",", jstr(x).c_str()); f = false; } };
  set("reached", e.reached); set("checked", e.checked);
  std::set<std::string> fnset;
  for (auto *f : e.fns) if (f->hits && !f->srcFile.empty()) {
    for (const char *d : {"/repo/"}) if (f->srcFile.find(d) != std::string::npos) fnset.insert(f->demangled.substr(0, 160) + " [" + f->srcFile.substr(f->srcFile.find(d) + 6) + "]");
  }
  // functions inlined into executed ones are found through their debug locations
  std::set<const DISubprogram *> seen;
  for (auto *f : e.fns) if (f->hits) for (auto &in : f->code) if (in.src) {
    auto *dl = in.src->getDebugLoc().get();
    while (dl) {
      auto *sp = dl->getScope()->getSubprogram();
      if (sp && seen.insert(sp).second) {
        std::string fn = sp->getFilename().str();
        size_t p = fn.find("/repo/");
        if (p != std::string::npos && fn.find("/deps/") == std::string::npos) {
          std::string d = demangle(sp->getLinkageName().str());
          fnset.insert((d.empty() ? sp->getName().str() : d).substr(0, 160) + " [" + fn.substr(p + 6) + "]");
        }
      }
      dl = dl->getInlinedAt();
    }
  }
  set("functions", fnset);
  fprintf(fp, "],\"samples\":[");
  for (size_t i = 0; i < e.samples.size(); i++) fprintf(fp, "%s%s", i ? "," : "", jstr(e.samples[i]).c_str());
  fprintf(fp, "]}\n");
  fclose(fp);
}
static Engine *g_eng;
int main_exec(int argc, char **argv) {
  std::string bc, entry, out, mdir = "."; double tmo = 300; int tier = 0; int par = 1; std::string slotFile; bool trace = false, profile = false;
  unsigned qt = 120000;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--bc") bc = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--model-dir") mdir = argv[++i];
    else if (a == "--timeout") tmo = atof(argv[++i]); else if (a == "--tier") tier = !strcmp(argv[++i], "thorough"); else if (a == "--par") par = atoi(argv[++i]); else if (a == "--slots") slotFile = argv[++i];
    else if (a == "--trace") trace = true; else if (a == "--profile") profile = true; else if (a == "--query-timeout") qt = atoi(argv[++i]);
  }
  g_solverTimeoutMs = qt;
  LLVMContext C; SMDiagnostic err;
  auto t0 = Engine::now();
  Engine e; g_eng = &e;
  e.M = parseIRFile(bc, err, C);
  if (!e.M) { err.print("engine", errs()); return 3; }
  e.DL = &e.M->getDataLayout();
  e.modelDir = mdir; e.entry = entry; e.tier = tier; e.deadline = t0 + tmo; e.trace = trace; e.profile = profile; e.outFile = out;
  if (!slotFile.empty()) {
    int fd = open(slotFile.c_str(), O_RDWR);
    if (fd >= 0) {
      e.slots = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      // slots[0]: free cores, slots[1]: entries waiting for one
      __sync_fetch_and_add(&e.slots[1], 1);
      for (;;) { int v = e.slots[0]; if (v > 0 && __sync_bool_compare_and_swap(&e.slots[0], v, v - 1)) break; usleep(2000); }
      __sync_fetch_and_sub(&e.slots[1], 1);
      t0 = Engine::now(); e.deadline = t0 + tmo;
    }
  } else if (par > 1) { e.slots = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); e.slots[0] = par - 1; }
  registerBuiltins(e);
  State *s0 = new State();
  e.setupGlobals(*s0);
  s0->model = std::make_shared<Model>();
  Function *F = e.M->getFunction(entry);
  if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  // constructors run first: a small driver sequence of frames, executed concretely
  std::vector<Function *> ctors;
  if (auto *gc = e.M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function *>> v;
    for (auto &op : ca->operands()) {
      auto *cs = cast<ConstantStruct>(op);
      if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
    }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) ctors.push_back(p.second);
  }
  // synthetic caller
  Fn *drv = new Fn(); drv->name = drv->demangled = "<driver>"; drv->decoded = true; drv->f = F; drv->id = 0;
  ctors.push_back(F);
  for (auto *f : ctors) { CallInfo ci; ci.fn = e.fnOf(f); drv->calls.push_back(ci); Inst in; memset(&in, 0, sizeof in); in.op = O_CALL; in.a = (int)drv->calls.size() - 1; in.src = nullptr; drv->code.push_back(in); }
  { Inst in; memset(&in, 0, sizeof in); in.op = O_RET; in.src = nullptr; drv->code.push_back(in); }
  s0->st.emplace_back(); s0->st.back().fn = drv;
  e.work.push_back(s0);
  double lastRep = t0; const std::string baseFile = e.outFile;
  while (!e.work.empty()) {
    State *s = e.work.back(); e.work.pop_back();
    e.runState(s);
    if (e.incompl.count("time limit")) break;
    if (e.slots && e.work.size() >= 2 && e.slots[0] > 0 && e.slots[1] <= 0) {
      bool groups = false;
      for (auto *w : e.work) for (auto &f : w->st) if (f.group) groups = true;
      int sv = e.slots[0];
      if (!groups && sv > 0 && __sync_bool_compare_and_swap(&e.slots[0], sv, sv - 1)) {
        // split: the child takes every other state
        fflush(stdout); fflush(stderr);
        std::vector<State *> mine, theirs;
        for (size_t i = 0; i < e.work.size(); i++) (i & 1 ? mine : theirs).push_back(e.work[i]);
        int cn = e.childN++;
        pid_t p = fork();
        if (p == 0) {
          e.isChild = true; e.work = theirs; e.kids.clear(); e.outFile = baseFile + "." + std::to_string((int)getpid()) + "." + std::to_string(cn); e.childN = 0;
          e.viols.clear(); e.paths = e.forks = e.steps = e.merges = e.mergeFail = e.checks = e.transitions = 0; e.incompl.clear(); g_solver = SolverStats(); e.samples.clear();
          t0 = Engine::now();
        } else if (p > 0) { e.work = mine; e.kids.push_back(p); }
        else __sync_fetch_and_add(&e.slots[0], 1);
      }
    }
    double n = Engine::now();
    if (n - lastRep > 20) { lastRep = n; fprintf(stderr, "[%s %d] %.0fs paths=%llu work=%zu steps=%llu queries=%llu solver=%.1fs\n", entry.c_str(), (int)getpid(), n - t0, (unsigned long long)e.paths, e.work.size(), (unsigned long long)e.steps, (unsigned long long)g_solver.queries, g_solver.time); }
  }
  writeResults(e, e.outFile, Engine::now() - t0);
  if (e.isChild || e.slots) __sync_fetch_and_add(&e.slots[0], 1);
  int rc = 0;
  for (pid_t k : e.kids) { int st = 0; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) rc = 4; }
  if (profile) {
    std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : e.forkFns) v.push_back({p.second, p.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "fork %llu %s\n", (unsigned long long)v[i].first, v[i].second.substr(0, 150).c_str());
    std::vector<std::pair<uint64_t, const Instruction *>> u; for (auto &p : e.forkSites) u.push_back({p.second, p.first});
    std::sort(u.begin(), u.end(), [](auto &a, auto &b) { return a.first > b.first; });
    for (size_t i = 0; i < u.size() && i < 25; i++) {
      std::string l; auto *dl = u[i].second ? u[i].second->getDebugLoc().get() : nullptr;
      while (dl) { l += dl->getFilename().str().substr(dl->getFilename().rfind('/') + 1) + ":" + std::to_string(dl->getLine()) + " "; dl = dl->getInlinedAt(); }
      fprintf(stderr, "site %llu %s\n", (unsigned long long)u[i].first, l.c_str());
    }
  }
  fflush(stderr);
  _exit(rc);
}
