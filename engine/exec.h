#pragma once
#include "solve.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <memory>
#include <atomic>
#include <unordered_map>

struct Val { ER e; uint64_t c; };
static inline Val CV(uint64_t c) { return Val{nullptr, c}; }

// ---- memory ---------------------------------------------------------------
enum { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC, OK_EXTERN };
struct SymB { ER e; uint32_t idx; };
struct MemObj {
  uint64_t addr, size; uint8_t kind; bool ro = false; bool alive = true; uint32_t id; uint8_t allocKind = 0; // 1 malloc 2 new 3 new[]
  int refs = 1;
  uint8_t* data = nullptr; uint8_t* st = nullptr; SymB* sy = nullptr;  // st: 0 concrete 1 symbolic 2 uninit
  const char* what = "";
  MemObj(uint64_t a, uint64_t s, int k, bool uninit);
  MemObj(const MemObj& o);
  ~MemObj();
};
struct ObjRef { MemObj* p = nullptr; ObjRef() {} explicit ObjRef(MemObj* q) : p(q) {} ObjRef(const ObjRef& o) : p(o.p) { if (p) p->refs++; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(const ObjRef& o) { if (o.p) o.p->refs++; rel(); p = o.p; return *this; }
  ObjRef& operator=(ObjRef&& o) noexcept { std::swap(p, o.p); return *this; }
  void rel() { if (p && --p->refs == 0) delete p; p = nullptr; } ~ObjRef() { rel(); } };

// ---- compiled code --------------------------------------------------------
struct Opnd { bool k; uint32_t i; };   // constant? ; index into consts or register slot
struct PhiCopy { uint32_t dst; Opnd src; uint32_t n; };
struct Edge { uint32_t block; std::vector<PhiCopy> copies; };
struct FnCode; struct FnInfo;
struct CInst {
  const llvm::Instruction* I; unsigned op; uint32_t dst = 0; uint32_t n = 0; uint32_t w = 0;  // lanes & lane width
  std::vector<Opnd> ops; std::vector<Edge> edges; std::vector<uint32_t> aux; std::vector<uint64_t> aux64;
  FnInfo* callee = nullptr; int iid = 0; std::vector<uint32_t> argn;
};
struct FnInfo { const llvm::Function* F; std::string name; int builtin = 0; FnCode* code = nullptr; uint64_t addr = 0; uint64_t calls = 0; uint64_t instrs = 0; };
struct FnCode {
  FnInfo* info; uint32_t nslots = 0; std::vector<Val> consts; std::vector<std::vector<CInst>> blocks; std::vector<std::pair<uint32_t, uint32_t>> args;
};
struct Frame { FnCode* fn; uint32_t base; uint32_t block, ip; size_t stackMark; uint64_t stackTop; std::vector<Val> va; };

// an OpenMP parallel region: its threads run one at a time, switched at barriers and at their end
struct ThreadCtx { std::vector<Frame> frames; std::vector<Val> regs; std::vector<ObjRef> stack; uint64_t stackTop = 0; uint64_t excPtr = 0, excType = 0; std::vector<std::pair<uint64_t, uint64_t>> caught; int status = 0; uint64_t lock = 0; };  // status 0 ready, 1 at the barrier, 2 finished
struct Acc { uint32_t w = 0, r = 0, lw = 0, lr = 0; uint64_t lock = 0; };   // threads that wrote/read the byte outside and inside critical sections since the last barrier
struct Par { bool active = false; int T = 0, cur = 0; std::vector<int> order; std::vector<ThreadCtx> th; ThreadCtx outer; std::unordered_map<uint64_t, Acc> log; int atomic = 0; uint64_t lock = 0; uint64_t lockOf() const { return lock; } };

struct State {
  Par par;
  std::vector<Frame> frames; std::vector<Val> regs;
  std::vector<ObjRef> heap, stack, glob; uint64_t heapTop, stackTop;
  std::vector<ER> pc; Model model; bool modelOk = true; bool maybeInfeasible = false;
  std::vector<uint64_t> symOrder;              // symbols requested by the harness, in order
  std::vector<std::pair<std::string, Val>> observed; std::vector<int> observedKind;
  std::set<std::string> covers;
  uint64_t excPtr = 0, excType = 0; std::vector<std::pair<uint64_t, uint64_t>> caught;
  uint64_t steps = 0; int allowAbort = 0; uint64_t depth = 0;
  std::vector<uint64_t> atexitFns;
};
