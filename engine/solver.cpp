#include "solver.h"
#include <z3.h>
#include <llvm/ADT/SmallString.h>
#include <chrono>
#include <algorithm>
#include <map>
#include <list>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

SolverStats g_solver;
unsigned g_solverTimeoutMs = 120000;

static Z3_context ctx;
static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}
static void initZ3() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onErr);
  Z3_set_ast_print_mode(ctx, Z3_PRINT_SMTLIB2_COMPLIANT);
}
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_sort bv(unsigned w) {
  static std::map<unsigned, Z3_sort> m;
  auto &s = m[w];
  if (!s) { s = Z3_mk_bv_sort(ctx, w);  }
  return s;
}
// width-1 expressions are represented as Bool
static Z3_ast conv(E e);
static Z3_ast asBv(E e) {
  Z3_ast a = conv(e);
  if (e->w != 1) return a;
  static Z3_ast one, zero;
  if (!one) { one = keep(Z3_mk_unsigned_int64(ctx, 1, bv(1))); zero = keep(Z3_mk_unsigned_int64(ctx, 0, bv(1))); }
  return Z3_mk_ite(ctx, a, one, zero);
}
static Z3_ast conv1(E e) {
  auto bin = [&](auto f) { return f(ctx, asBv(e->a), asBv(e->b)); };
  switch (e->op) {
  case Op::CONST: {
    if (e->w == 1) return e->k == 1 ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    if (e->w <= 64) return Z3_mk_unsigned_int64(ctx, e->k.getZExtValue(), bv(e->w));
    llvm::SmallString<64> s; e->k.toString(s, 10, false, false);
    return Z3_mk_numeral(ctx, s.c_str(), bv(e->w));
  }
  case Op::VAR: {
    std::string n = "v" + std::to_string(e->off);
    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(ctx) : bv(e->w));
  }
  case Op::ADD: return bin(Z3_mk_bvadd);
  case Op::SUB: return bin(Z3_mk_bvsub);
  case Op::MUL: return bin(Z3_mk_bvmul);
  case Op::UDIV: return bin(Z3_mk_bvudiv);
  case Op::SDIV: return bin(Z3_mk_bvsdiv);
  case Op::UREM: return bin(Z3_mk_bvurem);
  case Op::SREM: return bin(Z3_mk_bvsrem);
  case Op::AND:
    if (e->w == 1) { Z3_ast x[2] = {conv(e->a), conv(e->b)}; return Z3_mk_and(ctx, 2, x); }
    return bin(Z3_mk_bvand);
  case Op::OR:
    if (e->w == 1) { Z3_ast x[2] = {conv(e->a), conv(e->b)}; return Z3_mk_or(ctx, 2, x); }
    return bin(Z3_mk_bvor);
  case Op::XOR:
    if (e->w == 1) return Z3_mk_xor(ctx, conv(e->a), conv(e->b));
    return bin(Z3_mk_bvxor);
  case Op::SHL: return bin(Z3_mk_bvshl);
  case Op::LSHR: return bin(Z3_mk_bvlshr);
  case Op::ASHR: return bin(Z3_mk_bvashr);
  case Op::EQ:
    return Z3_mk_eq(ctx, conv(e->a), conv(e->b));
  case Op::ULT: return bin(Z3_mk_bvult);
  case Op::ULE: return bin(Z3_mk_bvule);
  case Op::SLT: return bin(Z3_mk_bvslt);
  case Op::SLE: return bin(Z3_mk_bvsle);
  case Op::SEXT: return Z3_mk_sign_ext(ctx, e->w - e->a->w, asBv(e->a));
  case Op::EXTRACT: {
    Z3_ast x = Z3_mk_extract(ctx, e->off + e->w - 1, e->off, asBv(e->a));
    if (e->w == 1) return Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, bv(1)));
    return x;
  }
  case Op::CONCAT: return bin(Z3_mk_concat);
  case Op::ITE: return Z3_mk_ite(ctx, conv(e->a), conv(e->b), conv(e->c));
  }
  return nullptr;
}
static Z3_ast conv(E root) {
  if (root->z3) return (Z3_ast)root->z3;
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back();
    if (x->z3) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && !k->z3) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    x->z3 = keep(conv1(x));
  }
  return (Z3_ast)root->z3;
}

// ---- relaxed encoding: wide multiplications and divisions become uninterpreted functions.
// Unsatisfiable when relaxed implies unsatisfiable.
static bool hardOp(E e) {
  switch (e->op) {
  case Op::UDIV: case Op::SDIV: case Op::UREM: case Op::SREM: return e->w >= 12 && !(e->b->isConst() && e->b->k.isPowerOf2());
  case Op::MUL: return e->w >= 12 && !e->a->isConst() && !e->b->isConst();
  default: return false;
  }
}
static std::unordered_map<E, bool> hardMemo;
static bool hasHard(E root) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back();
    if (hardMemo.count(x)) { st.pop_back(); continue; }
    if (hardOp(x)) { hardMemo[x] = true; st.pop_back(); continue; }
    bool ready = true, h = false;
    for (E k : {x->a, x->b, x->c}) if (k) { auto it = hardMemo.find(k); if (it == hardMemo.end()) { st.push_back(k); ready = false; } else h |= it->second; }
    if (!ready) continue;
    hardMemo[x] = h; st.pop_back();
  }
  return hardMemo[root];
}
static std::unordered_map<E, Z3_ast> relMemo;
static std::unordered_map<E, std::vector<E>> constDivs; // constant divisions below a constraint
static void collectConstDivs(E root, std::unordered_set<E> &seen, std::vector<E> &out) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!hasHard(x) || !seen.insert(x).second) continue;
    if (hardOp(x) && x->op == Op::UDIV && x->b->isConst() && !x->b->k.isZero()) out.push_back(x);
    for (E k : {x->a, x->b, x->c}) if (k) st.push_back(k);
  }
}
static Z3_ast conv1r(E e);
static Z3_ast convR(E root) {
  if (!hasHard(root)) return conv(root);
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back();
    if (relMemo.count(x)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && !relMemo.count(k)) { if (!hasHard(k)) relMemo[k] = conv(k); else { st.push_back(k); ready = false; } }
    if (!ready) continue;
    st.pop_back();
    relMemo[x] = conv1r(x);
  }
  return relMemo[root];
}
static Z3_ast conv1r(E e) {
  auto sub = [&](E x) -> Z3_ast { Z3_ast a = relMemo[x]; if (x->w != 1) return a; return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); };
  auto bin = [&](auto f) { return f(ctx, sub(e->a), sub(e->b)); };
  if (hardOp(e)) {
    Z3_ast a = Z3_simplify(ctx, sub(e->a)), b = Z3_simplify(ctx, sub(e->b));
    if (e->op == Op::MUL && Z3_get_ast_id(ctx, a) > Z3_get_ast_id(ctx, b)) std::swap(a, b);
    static std::map<std::pair<int, unsigned>, Z3_func_decl> decls;
    auto &d = decls[{(int)e->op, e->w}];
    if (!d) {
      std::string n = "uf" + std::to_string((int)e->op) + "_" + std::to_string(e->w);
      Z3_sort s = bv(e->w), dom[2] = {s, s};
      d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, n.c_str()), 2, dom, s);
    }
    Z3_ast args[2] = {a, b};
    return Z3_mk_app(ctx, d, 2, args);
  }
  switch (e->op) {
  case Op::CONST: case Op::VAR: return conv(e);
  case Op::ADD: return bin(Z3_mk_bvadd);
  case Op::SUB: return bin(Z3_mk_bvsub);
  case Op::MUL: return bin(Z3_mk_bvmul);
  case Op::UDIV: return bin(Z3_mk_bvudiv);
  case Op::SDIV: return bin(Z3_mk_bvsdiv);
  case Op::UREM: return bin(Z3_mk_bvurem);
  case Op::SREM: return bin(Z3_mk_bvsrem);
  case Op::AND: if (e->w == 1) { Z3_ast x[2] = {relMemo[e->a], relMemo[e->b]}; return Z3_mk_and(ctx, 2, x); } return bin(Z3_mk_bvand);
  case Op::OR: if (e->w == 1) { Z3_ast x[2] = {relMemo[e->a], relMemo[e->b]}; return Z3_mk_or(ctx, 2, x); } return bin(Z3_mk_bvor);
  case Op::XOR: if (e->w == 1) return Z3_mk_xor(ctx, relMemo[e->a], relMemo[e->b]); return bin(Z3_mk_bvxor);
  case Op::SHL: return bin(Z3_mk_bvshl);
  case Op::LSHR: return bin(Z3_mk_bvlshr);
  case Op::ASHR: return bin(Z3_mk_bvashr);
  case Op::EQ: return Z3_mk_eq(ctx, relMemo[e->a], relMemo[e->b]);
  case Op::ULT: return bin(Z3_mk_bvult);
  case Op::ULE: return bin(Z3_mk_bvule);
  case Op::SLT: return bin(Z3_mk_bvslt);
  case Op::SLE: return bin(Z3_mk_bvsle);
  case Op::SEXT: return Z3_mk_sign_ext(ctx, e->w - e->a->w, sub(e->a));
  case Op::EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->off + e->w - 1, e->off, sub(e->a)); return e->w == 1 ? Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, bv(1))) : x; }
  case Op::CONCAT: return bin(Z3_mk_concat);
  case Op::ITE: return Z3_mk_ite(ctx, relMemo[e->a], relMemo[e->b], relMemo[e->c]);
  }
  return nullptr;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, APInt>> vals; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 7; for (auto x : v) h = h * 1000003u + x; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;

static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
}
static int dumpN = 0;
static Res runSolver(Z3_solver s, const std::vector<E> &cs, const std::vector<uint32_t> &vars, CacheEnt &ent, unsigned ms, int relaxed = 0) {
  setTimeout(s, ms);
  if (relaxed == 2) {
    // a constant division is exactly: q <= max/k, q*k <= x, x - q*k < k
    std::unordered_set<E> seen; std::vector<E> divs;
    for (E c : cs) collectConstDivs(c, seen, divs);
    for (E d : divs) {
      Z3_ast q = convR(d), x = convR(d->a); APInt k = d->b->k; unsigned w = d->w;
      auto num = [&](const APInt &v) { llvm::SmallString<64> t; v.toString(t, 10, false, false); return Z3_mk_numeral(ctx, t.c_str(), bv(w)); };
      Z3_ast qk = Z3_mk_bvmul(ctx, q, num(k));
      Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, q, num(APInt::getAllOnes(w).udiv(k))));
      Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, qk, x));
      Z3_solver_assert(ctx, s, Z3_mk_bvult(ctx, Z3_mk_bvsub(ctx, x, qk), num(k)));
    }
  }
  for (E c : cs) Z3_solver_assert(ctx, s, relaxed ? Z3_simplify(ctx, convR(c)) : conv(c));
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (r == Z3_L_FALSE) return Res::UNSAT;
  if (r == Z3_L_UNDEF) return Res::UNKNOWN;
  Z3_model m = Z3_solver_get_model(ctx, s);
  Z3_model_inc_ref(ctx, m);
  Res out = Res::SAT;
  for (uint32_t v : vars) {
    E ve = nullptr;
    std::string n = "v" + std::to_string(v);
    Z3_ast x = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), g_vars[v].w == 1 ? Z3_mk_bool_sort(ctx) : bv(g_vars[v].w));
    (void)ve;

    Z3_ast val = nullptr;
    Z3_model_eval(ctx, m, x, true, &val);
    APInt k(g_vars[v].w, 0);
    if (val) {

      if (g_vars[v].w == 1) k = APInt(1, Z3_get_bool_value(ctx, val) == Z3_L_TRUE);
      else {
        const char *str = Z3_get_numeral_string(ctx, val);
        if (str && *str) k = APInt(std::max<unsigned>(g_vars[v].w, (unsigned)(strlen(str) * 10 / 3 + 8)), str, 10).trunc(g_vars[v].w);
        else out = Res::UNKNOWN;
      }

    }

    ent.vals.push_back({v, k});
  }
  Z3_model_dec_ref(ctx, m);
  return out;
}

static Z3_solver inc;
static Res solve(const std::vector<E> &cs, CacheEnt &ent) {
  initZ3();
  std::vector<uint32_t> vars;
  {
    std::unordered_set<uint32_t> seen;
    for (E c : cs) for (uint32_t v : varsOf(c)->v) if (seen.insert(v).second) vars.push_back(v);
  }
  g_solver.queries++;
  auto t0 = std::chrono::steady_clock::now();
  bool hard = false; for (E c : cs) if (hasHard(c)) hard = true;
  Res r = Res::UNKNOWN;
  if (hard) {
    for (int stage = 1; stage <= 2 && r == Res::UNKNOWN; stage++) {
    ent.vals.clear();
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV")); Z3_solver_inc_ref(ctx, s);
    r = runSolver(s, cs, vars, ent, stage == 1 ? 4000 : 15000, stage);
    if (getenv("VERIF_DUMPR")) { static int n = 0; std::string f = std::string(getenv("VERIF_DUMPR")) + std::to_string(n++) + "_" + std::to_string((int)r) + ".smt2"; FILE *fp = fopen(f.c_str(), "w"); fputs(Z3_solver_to_string(ctx, s), fp); fputs("(check-sat)\n", fp); fclose(fp); }
    Z3_solver_dec_ref(ctx, s);
    if (r == Res::SAT) {
      Model m; m.vals.resize(g_vars.size(), APInt(1, 0)); for (auto &p : ent.vals) m.vals[p.first] = p.second;
      for (E c : cs) if (evalExpr(c, m) != 1) { r = Res::UNKNOWN; break; }
    }
    }
    if (r == Res::UNKNOWN) ent.vals.clear();
  }
  if (r == Res::UNKNOWN) {
  if (!inc) { inc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc); }
  Z3_solver_push(ctx, inc);
  r = runSolver(inc, cs, vars, ent, 2000);
  Z3_solver_pop(ctx, inc, 1);
  }
  if (r == Res::UNKNOWN) {
    ent.vals.clear();
    if (inc) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; }
    static Z3_tactic tac;
    if (!tac) {
      auto t = [&](const char *n) { Z3_tactic x = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, x); return x; };
      auto then = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic x = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, x); return x; };
      tac = then(t("simplify"), then(t("propagate-values"), then(t("solve-eqs"), then(t("elim-uncnstr"), then(t("simplify"), then(t("bit-blast"), then(t("simplify"), then(t("aig"), t("sat")))))))));
    }
    Z3_solver s = Z3_mk_solver_from_tactic(ctx, tac);
    Z3_solver_inc_ref(ctx, s);
    r = runSolver(s, cs, vars, ent, g_solverTimeoutMs);
    Z3_solver_dec_ref(ctx, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_solver.time += dt;
  if (dt > g_solver.maxTime) g_solver.maxTime = dt;
  if (getenv("VERIF_SLOWQ") && dt > atof(getenv("VERIF_SLOWQ"))) {
    fprintf(stderr, "slow query %.1fs res=%d constraints=%zu\n", dt, (int)r, cs.size());
    for (size_t i = 0; i < cs.size() && i < 12; i++) fprintf(stderr, "   %s\n", exprStr(cs[cs.size() - 1 - i], 7).substr(0, 600).c_str());
    if (getenv("VERIF_DUMPQ")) {
      Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
      for (E c : cs) Z3_solver_assert(ctx, s, conv(c));
      std::string f = std::string(getenv("VERIF_DUMPQ")) + std::to_string(dumpN++) + ".smt2";
      FILE *fp = fopen(f.c_str(), "w"); fputs(Z3_solver_to_string(ctx, s), fp); fputs("(check-sat)\n", fp); fclose(fp);
      Z3_solver_dec_ref(ctx, s);
    }
  }
  if (r == Res::UNKNOWN) g_solver.unknown++;
  return r;
}

static std::list<ModelPtr> recent;

static void splitAnd(E e, std::vector<E> &out) {
  if (e->w == 1 && e->op == Op::AND) { splitAnd(e->a, out); splitAnd(e->b, out); }
  else out.push_back(e);
}

static bool evalAll(const std::vector<E> &cs, const Model &m) {
  for (E c : cs) if (evalExpr(c, m) != 1) return false;
  return true;
}

Res solverCheck(const std::vector<E> &pc, E q, const ModelPtr &base, ModelPtr &out) {
  if (q->isConst()) { out = base; return isTrue(q) ? Res::SAT : Res::UNSAT; }
  if (evalExpr(q, *base) == 1) { out = base; g_solver.modelHits++; return Res::SAT; }
  // independence slice
  std::vector<E> slice;
  {
    static std::vector<uint32_t> mark; static uint32_t epoch = 0;
    epoch++;
    if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 64, 0);
    std::unordered_set<const VarSet *> inSets;
    auto addSet = [&](const VarSet *s) { if (inSets.insert(s).second) for (uint32_t v : s->v) mark[v] = epoch; };
    addSet(varsOf(q));
    std::vector<char> used(pc.size(), 0);
    bool changed = true;
    while (changed) {
      changed = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        const VarSet *s = varsOf(pc[i]);
        bool hit = inSets.count(s);
        if (!hit) for (uint32_t v : s->v) if (mark[v] == epoch) { hit = true; break; }
        if (hit) { used[i] = 1; addSet(s); changed = true; }
      }
    }
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) slice.push_back(pc[i]);
  }
  std::vector<E> all = slice;
  splitAnd(q, all);
  std::vector<uint32_t> key;
  for (E c : all) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto mkOut = [&](const CacheEnt &ent) {
    auto m = std::make_shared<Model>(*base);
    if (m->vals.size() < g_vars.size()) m->vals.resize(g_vars.size(), APInt(1, 0));
    for (auto &p : ent.vals) m->vals[p.first] = p.second;
    out = m;
  };
  auto it = cache.find(key);
  if (it != cache.end()) {
    g_solver.cacheHits++;
    if (it->second.r == Res::SAT) mkOut(it->second);
    return it->second.r;
  }
  // try recent models on the slice
  int tries = 0;
  for (auto i = recent.begin(); i != recent.end() && tries < 6; ++i, ++tries) {
    if (evalExpr(q, **i) == 1 && evalAll(slice, **i)) {
      CacheEnt ent; ent.r = Res::SAT;
      std::unordered_set<uint32_t> seen;
      for (E c : all) for (uint32_t v : varsOf(c)->v) if (seen.insert(v).second) ent.vals.push_back({v, (*i)->get(v)});
      mkOut(ent);
      g_solver.modelHits++;
      return Res::SAT;
    }
  }
  CacheEnt ent;
  ent.r = solve(all, ent);
  if (ent.r == Res::SAT) {
    mkOut(ent);
    if (!evalAll(all, *out)) { fprintf(stderr, "engine: model from solver does not satisfy the query (encoding error)\n"); abort(); }
    recent.push_front(out);
    if (recent.size() > 12) recent.pop_back();
  }
  Res r = ent.r;
  cache.emplace(std::move(key), std::move(ent));
  return r;
}

Res solverCheckAll(const std::vector<E> &cs, ModelPtr &out) {
  auto base = std::make_shared<Model>();
  CacheEnt ent;
  ent.r = solve(cs, ent);
  if (ent.r == Res::SAT) {
    base->vals.resize(g_vars.size(), APInt(1, 0));
    for (auto &p : ent.vals) base->vals[p.first] = p.second;
    out = base;
  }
  return ent.r;
}
