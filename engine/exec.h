// Symbolic executor over LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <cstring>
#include <functional>

struct Val { uint64_t c; E e; };
static inline Val VC(uint64_t c) { return Val{c, nullptr}; }

// ---------------------------------------------------------------- memory
struct Obj {
  uint32_t rc = 1, size = 0;
  uint8_t kind = 0;            // 0 heap 1 stack 2 global 3 constant 4 special
  bool freedOk = true;
  uint8_t *data = nullptr;
  E *sym = nullptr;            // per byte, or null
  ~Obj() { free(data); free(sym); }
};
struct Chunk { uint32_t rc = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } };
struct Mem {
  std::vector<Chunk *> ch;
  uint32_t next = 16;          // next object id
  Mem() {}
  Mem(const Mem &o) : ch(o.ch), next(o.next) { for (auto c : ch) if (c) c->rc++; }
  Mem &operator=(const Mem &o) { if (this != &o) { Mem t(o); std::swap(ch, t.ch); std::swap(next, t.next); } return *this; }
  ~Mem() { for (auto c : ch) drop(c); }
  static void dropObj(Obj *o) { if (o && --o->rc == 0) delete o; }
  static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) dropObj(o); delete c; } }
  Obj *get(uint32_t id) const { uint32_t k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
  Chunk *chunkW(uint32_t k) {
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) ch[k] = new Chunk();
    else if (ch[k]->rc > 1) {
      Chunk *n = new Chunk();
      for (int i = 0; i < 64; i++) { n->o[i] = ch[k]->o[i]; if (n->o[i]) n->o[i]->rc++; }
      ch[k]->rc--; ch[k] = n;
    }
    return ch[k];
  }
  Obj *getW(uint32_t id) {
    Chunk *c = chunkW(id >> 6);
    Obj *&o = c->o[id & 63];
    if (o && o->rc > 1) {
      Obj *n = new Obj();
      n->size = o->size; n->kind = o->kind;
      n->data = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
      if (o->sym) { n->sym = (E *)malloc(sizeof(E) * (o->size ? o->size : 1)); memcpy(n->sym, o->sym, sizeof(E) * o->size); }
      o->rc--; o = n;
    }
    return o;
  }
  uint32_t alloc(uint32_t size, uint8_t kind, uint8_t fill) {
    uint32_t id = next++;
    Obj *n = new Obj(); n->size = size; n->kind = kind;
    n->data = (uint8_t *)malloc(size ? size : 1); memset(n->data, fill, size);
    chunkW(id >> 6)->o[id & 63] = n;
    return id;
  }
  void release(uint32_t id) { Chunk *c = chunkW(id >> 6); dropObj(c->o[id & 63]); c->o[id & 63] = nullptr; }
};

// ---------------------------------------------------------------- code
enum OpC : uint16_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_UGT, O_UGE, O_ULT, O_ULE, O_SGT, O_SGE, O_SLT, O_SLE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP, O_FPCAST,
  O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEPC, O_GEPS,
  O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_LPAD, O_RESUME, O_UNREACH, O_UNSUP, O_RMW, O_CMPXCHG
};
struct Inst {
  uint16_t op; uint16_t w; uint16_t w2; uint16_t n;
  int32_t d, a, b, c;
  uint64_t imm;
  const llvm::Instruction *src;
};
struct Edge { uint32_t pc; uint32_t n; std::vector<std::pair<int32_t, int32_t>> copies; }; // dst,src
struct Fn;
struct CallInfo {
  Fn *fn = nullptr; int32_t target = 0; bool indirect = false;
  std::vector<int32_t> args; std::vector<uint16_t> aw;
  std::vector<uint16_t> rw;
  bool invoke = false; int normal = -1, unwind = -1;  // edges
};
struct LpadInfo { bool cleanup; std::vector<const llvm::GlobalVariable *> clauses; std::vector<bool> filter; bool catchAll = false; };
struct State;
struct Engine;
typedef void (*Builtin)(struct Ctx &);
struct Fn {
  const llvm::Function *f = nullptr;
  std::string name, demangled;
  bool decoded = false, merge = false; int condArg = -1;
  Builtin bi = nullptr;
  uint32_t id = 0;
  uint32_t nregs = 0, nargs = 0;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls;
  std::vector<LpadInfo> lpads;
  std::vector<std::pair<std::vector<std::pair<APInt, int>>, int>> switches; // cases (value, edge), default edge
  std::vector<uint16_t> rw;
  uint64_t hits = 0;
  std::string srcFile;
};
struct Group;
struct Frame {
  Fn *fn; uint32_t pc = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  Group *group = nullptr;
};
struct UfApp { uint32_t id; E in; uint32_t inlen; E out; uint32_t outlen; bool conc; };
struct ExcRec { uint64_t obj; uint64_t tinfo; int handlers; };
struct InputRec { std::string name; std::vector<E> parts; uint32_t bytes; };
struct State {
  std::vector<Frame> st;
  Mem mem;
  std::vector<E> pc;
  std::unordered_map<E, uint64_t> eq;
  ModelPtr model;
  std::vector<InputRec> inputs;
  std::map<std::string, uint32_t> inputCount;
  std::vector<UfApp> uf;
  std::vector<ExcRec> caught;          // active handlers
  std::vector<uint64_t> notes;
  uint64_t steps = 0;
  uint32_t forks = 0; uint64_t allocLimit = 0, fuel = 0;
  bool dead = false;
};
struct Group {
  Fn *fn; size_t pcLen; Mem mem; std::unordered_map<E, uint64_t> eq; size_t depth; size_t ufN, inN;
  int outstanding = 1; bool lost = false;
  std::vector<State *> parked;
  Group(const Mem &m) : mem(m) {}
};
