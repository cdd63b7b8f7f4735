// Hash-consed expression DAG over bit-vectors, with floating-point operator nodes.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>
#include <llvm/ADT/APInt.h>

enum Op : uint8_t {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FNEG, E_FABS, E_FSQRT,
  E_FEXT, E_FTRUNC, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI,
  E_FOEQ, E_FOLT, E_FOLE, E_FUNO,
  E_FROUND,   // imm: 0 floor 1 ceil 2 trunc 3 rint(nearest even) 4 round(away)
  E_FUF       // uninterpreted function, imm = function id, 1..2 args
};

struct Expr {
  Op op; uint8_t nops; uint16_t width; uint32_t id;
  const Expr* a; const Expr* b; const Expr* c;
  uint64_t imm;              // const value (<=64 bits), extract low bit, sym id, uf id
  const llvm::APInt* wide;   // const value when width > 64
  bool isConst() const { return op == E_CONST; }
};
typedef const Expr* ER;

extern bool g_tolEq;   // probes in real mode compare ordered equality with a tolerance
extern bool g_real;              // algebraic (real-number) reading of FP operators
struct SymInfo { std::string name; unsigned width; int kind; /*0 int,1 f32,2 f64,3 uninit*/ ER e; };
extern std::vector<SymInfo> g_syms;
extern std::vector<std::string> g_ufs;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m);
}
static inline float b2f(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static inline double b2d(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static inline uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static inline uint64_t d2b(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

ER mkConst(uint64_t v, unsigned w);
ER mkConstW(const llvm::APInt& v);
ER mkSym(const std::string& name, unsigned w, int kind);
ER mk(Op op, unsigned w, ER a, ER b = nullptr, ER c = nullptr, uint64_t imm = 0);
ER mkBin(Op op, ER a, ER b);
ER mkExtract(ER a, unsigned lo, unsigned w);
ER mkConcat(ER hi, ER lo);
ER mkZext(ER a, unsigned w);
ER mkSext(ER a, unsigned w);
ER mkEq(ER a, ER b);
ER mkNot(ER a);   // width 1
ER mkAnd1(ER a, ER b);
ER mkOr1(ER a, ER b);
ER mkIte(ER c, ER a, ER b);
ER mkFP(Op op, unsigned w, ER a, ER b = nullptr, uint64_t imm = 0);
uint64_t numExprs();
bool isFPop(ER e);
std::string exprStr(ER e, int depth = 4);

// concrete semantics of an operator on <=64-bit operands
uint64_t evalOp(Op op, unsigned w, uint64_t imm, unsigned wa, uint64_t a, unsigned wb, uint64_t b, uint64_t c, bool& ok);

struct Model { std::unordered_map<uint64_t, uint64_t> v; };  // sym id -> bits (<=64)
// evaluate under a model; symbols without a value count as 0
struct Evaluator {
  const Model& m; std::unordered_map<ER, llvm::APInt> memoW; std::unordered_map<ER, uint64_t> memo; bool ok = true;
  Evaluator(const Model& m_) : m(m_) {}
  llvm::APInt evalW(ER e);
  uint64_t eval(ER e);
};
