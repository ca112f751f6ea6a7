// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>

using llvm::APInt;

enum class Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, SEXT, EXTRACT, CONCAT, ITE
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Op op;
  uint32_t w;
  uint32_t off;          // EXTRACT offset / VAR id
  uint32_t id;
  const Expr *a, *b, *c;
  uint64_t lo, hi;       // unsigned range, valid when w <= 64
  APInt k;               // CONST
  mutable const VarSet *vars = nullptr;
  mutable void *z3 = nullptr;
  Expr() : k(1, 0) {}
  bool isConst() const { return op == Op::CONST; }
};
typedef const Expr *E;

struct VarInfo { std::string name; uint32_t w; };
extern std::vector<VarInfo> g_vars;
extern size_t g_exprCount;

E mkConst(const APInt &v);
E mkConst(uint64_t v, uint32_t w);
E mkVar(const std::string &name, uint32_t w);
E mkBin(Op op, E a, E b);
inline E mkAdd(E a, E b) { return mkBin(Op::ADD, a, b); }
inline E mkSub(E a, E b) { return mkBin(Op::SUB, a, b); }
inline E mkAnd(E a, E b) { return mkBin(Op::AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::OR, a, b); }
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkNot(E a);            // 1-bit
E mkZExt(E a, uint32_t w);
E mkSExt(E a, uint32_t w);
E mkExtract(E a, uint32_t off, uint32_t w);
E mkConcat(E hi, E lo);
E mkIte(E c, E t, E f);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isTrue(E e) { return e->isConst() && e->w == 1 && e->k == 1; }
inline bool isFalse(E e) { return e->isConst() && e->w == 1 && e->k == 0; }

const VarSet *varsOf(E e);

struct Model {
  uint64_t id;
  std::vector<APInt> vals;   // by var id; missing -> 0
  Model();
  Model(const Model &o);
  APInt get(uint32_t var) const;
};
typedef std::shared_ptr<const Model> ModelPtr;
APInt evalExpr(E e, const Model &m);
std::string exprStr(E e, int depth = 6);
