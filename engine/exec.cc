#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <unistd.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const uint64_t FUNC_BASE = 0x1000, GLOB_BASE = 0x10000000ull, HEAP_BASE = 0x100000000000ull, STACK_BASE = 0x700000000000ull;

static uint32_t g_objid = 0;
MemObj::MemObj(uint64_t a, uint64_t s, int k, bool uninit) : addr(a), size(s), kind(k), id(g_objid++) {
  if (k != OK_FUNC && k != OK_EXTERN) { data = (uint8_t*)calloc(1, s ? s : 1); if (uninit && s) { st = (uint8_t*)malloc(s); memset(st, 2, s); } }
}
MemObj::MemObj(const MemObj& o) : addr(o.addr), size(o.size), kind(o.kind), ro(o.ro), alive(o.alive), id(o.id), allocKind(o.allocKind), refs(1), what(o.what) {
  if (o.data) { data = (uint8_t*)malloc(size ? size : 1); memcpy(data, o.data, size); }
  if (o.st) { st = (uint8_t*)malloc(size); memcpy(st, o.st, size); }
  if (o.sy) { sy = (SymB*)malloc(size * sizeof(SymB)); memcpy(sy, o.sy, size * sizeof(SymB)); }
}
MemObj::~MemObj() { free(data); free(st); free(sy); }

// ---------------------------------------------------------------------------
enum Builtin { B_NONE = 0, B_UNSUPPORTED, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DELETE, B_DELETEA, B_MEMALIGN, B_POSIX_MEMALIGN,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_EXIT, B_RET0, B_RETARG0, B_VOID, B_ASSERTFAIL,
  B_THROW, B_RETHROW, B_BEGIN_CATCH, B_END_CATCH, B_ALLOC_EXC, B_FREE_EXC, B_STDTHROW, B_OSTREAM,
  B_SYM_INT, B_SYM_F32, B_SYM_F64, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_FEQ32, B_SYM_FEQ64, B_SYM_CHOOSE, B_SYM_COVER, B_SYM_PARAM, B_SYM_OBSERVE, B_SYM_OBSERVEF,
  B_SYM_ALLOW_ABORT, B_SYM_CONCRETE, B_SYM_FAIL, B_SYM_ISSYM, B_SYM_END, B_SYM_ALLOC_AT, B_SYM_TRACE, B_MATH1, B_MATH2, B_STRTOX, B_TYPEID, B_OMP };

struct Stop { std::string why; };         // engine cannot continue this path (inconclusive)
struct PathEnd { };                       // path finished
struct Violation { std::string kind, msg, where; Model model; std::vector<uint64_t> order; bool maybe; };

struct Engine {
  Module* M; const DataLayout* DL; Solver* S; Mode mode;
  std::map<std::string, long> params; std::string traceDir; int maxTraces = 1; double deadline; uint64_t maxSteps = ~0ull; size_t maxPaths = 1000000;
  std::unordered_map<const Function*, FnInfo*> fns; std::unordered_map<uint64_t, FnInfo*> fnByAddr; std::unordered_map<const GlobalValue*, uint64_t> gaddr;
  std::vector<State*> work; State* cur = nullptr;
  std::vector<Violation> viols; std::set<std::string> violKeys; std::vector<std::string> stops; std::map<std::string, uint64_t> covers;
  uint64_t totalSteps = 0, paths = 0, stopped = 0, forks = 0, assertsFolded = 0, assertsSolved = 0, assertsUnknown = 0, aborted = 0, infeasible = 0; std::map<std::string, uint64_t> assertSites;
  std::vector<std::string> traces; int maxViol = 4; uint64_t symReads = 0, ompRegions = 0; bool noRace = false;
  State* initState = nullptr; std::set<std::string> allowMissing;

  // ---- types ----
  unsigned scalarW(Type* T) {
    if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80; if (T->isHalfTy()) return 16; if (T->isFP128Ty()) return 128; return 0;
  }
  struct Leaf { uint32_t w; uint64_t off; uint32_t bytes; };
  std::unordered_map<Type*, std::vector<Leaf>> leafCache;
  const std::vector<Leaf>& leaves(Type* T) {
    auto it = leafCache.find(T); if (it != leafCache.end()) return it->second;
    std::vector<Leaf> v; build(T, 0, v); return leafCache[T] = v;
  }
  void build(Type* T, uint64_t off, std::vector<Leaf>& v) {
    if (unsigned w = scalarW(T)) { v.push_back({w, off, (uint32_t)DL->getTypeStoreSize(T)}); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) build(A->getElementType(), off + i * s, v); return; }
    if (auto* A = dyn_cast<FixedVectorType>(T)) { uint64_t s = DL->getTypeStoreSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) build(A->getElementType(), off + i * s, v); return; }
    if (auto* A = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(A); for (unsigned i = 0; i < A->getNumElements(); i++) build(A->getElementType(i), off + L->getElementOffset(i), v); return; }
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return;
    std::string s; raw_string_ostream o(s); T->print(o); throw Stop{"unsupported type " + s};
  }
  uint32_t nleaves(Type* T) { return leaves(T).size(); }

  // ---- values ----
  static ER toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  static Val fromE(ER e) { if (e->isConst() && e->width <= 64) return Val{nullptr, e->imm}; return Val{e, 0}; }

  // ---- constants ----
  void constVals(const Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (isa<UndefValue>(C)) { for (auto& l : leaves(T)) out.push_back(l.w > 64 ? Val{mkConst(0, l.w), 0} : CV(0)); return; }
    if (auto* CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) out.push_back(Val{mkConstW(CI->getValue()), 0}); else out.push_back(CV(CI->getZExtValue())); return; }
    if (auto* CF = dyn_cast<ConstantFP>(C)) { APInt b = CF->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) out.push_back(Val{mkConstW(b), 0}); else out.push_back(CV(b.getZExtValue())); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back(CV(0)); return; }
    if (isa<ConstantAggregateZero>(C)) { for (auto& l : leaves(T)) out.push_back(l.w > 64 ? Val{mkConst(0, l.w), 0} : CV(0)); return; }
    if (auto* CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) constVals(cast<Constant>(CA->getOperand(i)), out); return; }
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constVals(CD->getElementAsConstant(i), out); return; }
    if (auto* GA = dyn_cast<GlobalAlias>(C)) { constVals(GA->getAliasee(), out); return; }
    if (auto* GV = dyn_cast<GlobalValue>(C)) { out.push_back(CV(addrOf(GV))); return; }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
      if (auto* G = dyn_cast<GEPOperator>(CE)) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) throw Stop{"const gep"}; std::vector<Val> b; constVals(cast<Constant>(G->getPointerOperand()), b); out.push_back(CV(b[0].c + off.getZExtValue())); return; }
      std::vector<Val> a, b; constVals(CE->getOperand(0), a); if (CE->getNumOperands() > 1) constVals(CE->getOperand(1), b);
      unsigned w = scalarW(T);
      switch (CE->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: out.push_back(CV(a[0].c & maskw(w))); return;
        case Instruction::ZExt: out.push_back(a[0]); return;
        case Instruction::Sub: out.push_back(CV((a[0].c - b[0].c) & maskw(w))); return;
        case Instruction::Add: out.push_back(CV((a[0].c + b[0].c) & maskw(w))); return;
        default: throw Stop{std::string("const expr ") + CE->getOpcodeName()};
      }
    }
    throw Stop{"const kind"};
  }
  uint64_t addrOf(const GlobalValue* GV) {
    auto it = gaddr.find(GV); if (it != gaddr.end()) return it->second;
    throw Stop{"no address for " + GV->getName().str()};
  }

  // ---- setup ----
  std::map<std::string, int> bi;
  void initBuiltins();
  int builtinFor(const std::string& n, bool hasBody);
  FnInfo* info(const Function* F) {
    auto it = fns.find(F); if (it != fns.end()) return it->second;
    FnInfo* f = new FnInfo; f->F = F; f->name = F->getName().str(); f->builtin = builtinFor(f->name, !F->isDeclaration()); fns[F] = f; return f;
  }
  FnCode* compile(FnInfo* f);
  void setupGlobals(State* s) {
    uint64_t a = FUNC_BASE;
    for (auto& F : *M) { gaddr[&F] = a; FnInfo* fi = info(&F); fi->addr = a; fnByAddr[a] = fi; a += 16; }
    uint64_t g = GLOB_BASE;
    std::vector<std::pair<GlobalVariable*, MemObj*>> inits;
    for (auto& G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; uint64_t al = std::max<uint64_t>(64, G.getAlign().valueOrOne().value());
      if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 1024);
      g = (g + al - 1) / al * al; gaddr[&G] = g;
      MemObj* o = new MemObj(g, sz, OK_GLOBAL, false); o->ro = G.isConstant() && G.hasInitializer(); o->what = strdup(G.getName().str().c_str());
      s->glob.push_back(ObjRef(o)); g += sz + 64;
      if (G.hasInitializer()) inits.push_back({&G, o});
    }
    for (auto& A : M->aliases()) { std::vector<Val> v; try { constVals(A.getAliasee(), v); gaddr[&A] = v[0].c; } catch (Stop&) {} 
      if (auto* F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) { gaddr[&A] = gaddr[F]; } }
    for (auto& p : inits) { std::vector<Val> v; constVals(p.first->getInitializer(), v); auto& ls = leaves(p.first->getValueType());
      for (size_t i = 0; i < ls.size(); i++) { if (v[i].e && v[i].e->width > 64) { APInt x = *v[i].e->wide; for (unsigned k = 0; k < ls[i].bytes; k++) p.second->data[ls[i].off + k] = x.extractBitsAsZExtValue(8, std::min<unsigned>(8 * k, x.getBitWidth() - 8)); }
        else memcpy(p.second->data + ls[i].off, &v[i].c, ls[i].bytes); } }
  }

  // ---- OpenMP threads (exec_impl.h) ----
  static constexpr uint64_t THR_STACK = 1ull << 36;   // address space of one thread's stack; the outer program has region 0, thread k region k + 1
  std::vector<ObjRef>* stackOf(State* s, uint64_t a) {
    if (!s->par.active) return &s->stack; size_t reg = (a - STACK_BASE) / THR_STACK;
    if (reg == 0) return &s->par.outer.stack; if (reg == (size_t)s->par.cur + 1 || reg > s->par.th.size()) return &s->stack; return &s->par.th[reg - 1].stack;
  }
  void race(State* s, uint64_t a, uint64_t n, bool write) {
    Par& P = s->par; size_t reg = a >= STACK_BASE ? (a - STACK_BASE) / THR_STACK : 0; if (a >= STACK_BASE && reg == (size_t)P.cur + 1) return;
    uint64_t lock = P.atomic ? 1 : P.lockOf(); uint32_t me = 1u << P.cur;
    for (uint64_t i = 0; i < n; i++) { Acc& c = P.log[a + i]; bool sameLock = lock && (c.lock == lock || !c.lock);
      uint32_t others = c.w | (write ? c.r : 0) | (sameLock ? 0 : c.lw | (write ? c.lr : 0));
      if (others & ~me) { if (getenv("SYMX_DBG")) fprintf(stderr, "race at %lx size %lu cur %d w%x r%x lw%x lr%x T%d\n", (unsigned long)(a + i), (unsigned long)n, P.cur, c.w, c.r, c.lw, c.lr, P.T); const char* k = "global"; if (a >= STACK_BASE) k = "stack"; else if (a >= HEAP_BASE) k = "heap"; char b[200]; snprintf(b, 200, "data race: two threads access the same %s memory and at least one of them writes", k); violate("race", b); }
      if (lock) { c.lock = lock; (write ? c.lw : c.lr) |= me; } else (write ? c.w : c.r) |= me; }
  }
  bool ompCall(State* s, CInst& ci, FnInfo* f, std::vector<Val>& a, Val* ret);
  void ompSwitch(State* s, int to); bool ompSchedule(State* s);

  // ---- memory access ----
  ObjRef* find(State* s, uint64_t a) {
    std::vector<ObjRef>* v = a >= STACK_BASE ? stackOf(s, a) : a >= HEAP_BASE ? &s->heap : &s->glob;
    size_t lo = 0, hi = v->size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m].p->addr <= a) lo = m + 1; else hi = m; }
    if (lo == 0) return nullptr; return &(*v)[lo - 1];
  }
  [[noreturn]] void violate(const std::string& kind, const std::string& msg) { report(kind, msg); throw PathEnd(); }
  std::string where() {
    std::string w; int n = 0;
    for (int i = (int)cur->frames.size() - 1; i >= 0 && n < 6; i--) { std::string d = llvm::demangle(cur->frames[i].fn->info->name); size_t p = d.find('('); if (p != std::string::npos && p > 4) d = d.substr(0, p); if (d.size() > 100) d = d.substr(0, 100) + "..."; w += (n ? " < " : "") + d; n++; }
    return w;
  }
  void report(const std::string& kind, const std::string& msg) {
    std::string key = kind + "|" + msg; 
    if (violKeys.count(key)) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where(); v.model = cur->model; v.order = cur->symOrder; v.maybe = cur->maybeInfeasible;
    if (!cur->modelOk) { Model m; Res r = solvePC(&m); if (r == R_UNSAT) { infeasible++; return; } if (r == R_SAT) v.model = m; else v.maybe = true; }
    violKeys.insert(key); viols.push_back(v);
    fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
  }
  Res solvePC(Model* m) {  // model for all path constraints (slice by slice)
    Model tot; std::set<uint64_t> done;
    for (ER c : cur->pc) { // one check per connected group of constraints
      const std::vector<uint64_t>& sy = S->symbols(c); if (!sy.empty() && done.count(sy[0])) continue;
      Model mm; Res r = S->check(cur->pc, c, &mm); if (r != R_SAT) return r;
      std::set<uint64_t> live(sy.begin(), sy.end()); bool ch = true; while (ch) { ch = false; for (ER d : cur->pc) { const auto& ds = S->symbols(d); bool hit = false, all = true; for (uint64_t q : ds) { if (live.count(q)) hit = true; else all = false; } if (hit && !all) { live.insert(ds.begin(), ds.end()); ch = true; } } }
      done.insert(live.begin(), live.end());
      for (auto& p : mm.v) tot.v[p.first] = p.second; }
    *m = tot; return R_SAT;
  }
  MemObj* access(State* s, uint64_t a, uint64_t n, bool write) {
    ObjRef* r = a >= GLOB_BASE ? find(s, a) : nullptr;
    if (!r || a + n > r->p->addr + r->p->size || a < r->p->addr) {
      char b[200]; snprintf(b, 200, "%s of %lu bytes %s", write ? "write" : "read", (unsigned long)n, a < 4096 ? "through a null pointer" : "outside any live object");
      if (r && a >= r->p->addr && a < r->p->addr + r->p->size + 64) snprintf(b, 200, "%s of %lu bytes beyond the end of a %lu-byte %s object", write ? "write" : "read", (unsigned long)n, (unsigned long)r->p->size, r->p->kind == OK_HEAP ? "heap" : r->p->kind == OK_STACK ? "stack" : "global");
      violate("memory", b);
    }
    if (!r->p->alive) violate("memory", write ? "write to freed memory" : "read of freed memory");
    if (s->par.active && !noRace && !r->p->ro) race(s, a, n, write);
    if (write) {
      if (r->p->ro) violate("memory", "write to read-only memory");
      if (r->p->refs > 1) { MemObj* c = new MemObj(*r->p); *r = ObjRef(c); }
    }
    return r->p;
  }
  Val readObj(MemObj* o, uint64_t off, unsigned w, unsigned n) {  // n bytes, width w bits
    bool conc = true;
    if (o->st) for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; }
    if (conc) {
      if (w <= 64) { uint64_t x = 0; memcpy(&x, o->data + off, n); return CV(x & maskw(w)); }
      std::vector<uint64_t> ws((n + 7) / 8, 0); memcpy(ws.data(), o->data + off, n); return Val{mkConstW(APInt(8 * n, ws).trunc(w)), 0};
    }
    symReads++;
    bool anyun = false; for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 2) anyun = true;
    if (anyun) {  // arbitrary contents: give the bytes fresh symbols (kept, so re-reads agree)
      bool all = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 2) all = false;
      if (!o->sy) { o->sy = (SymB*)calloc(o->size, sizeof(SymB)); }
      char b[64]; snprintf(b, 64, "uninit_o%u_%lu", o->id, (unsigned long)off);
      if (all) { ER e = mkSym(b, 8 * n, 3); for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->sy[off + i] = {e, i}; } }
      else for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 2) { ER e = mkSym(b, 8, 3); o->st[off + i] = 1; o->sy[off + i] = {e, 0}; }
    }
    auto byteE = [&](unsigned i) -> ER { if (o->st[off + i] == 1) { SymB& b = o->sy[off + i]; return mkExtract(b.e, 8 * b.idx, 8); } return mkConst(o->data[off + i], 8); };
    // group runs
    ER r = nullptr; unsigned i = 0;
    while (i < n) {
      ER piece; unsigned j = i + 1;
      if (o->st[off + i] == 1) { SymB b = o->sy[off + i]; while (j < n && o->st[off + j] == 1 && o->sy[off + j].e == b.e && o->sy[off + j].idx == b.idx + (j - i)) j++; 
        unsigned lo = 8 * b.idx, len = 8 * (j - i); if (lo + len > b.e->width) { ER z = mkZext(b.e, lo + len); piece = mkExtract(z, lo, len); } else piece = mkExtract(b.e, lo, len); }
      else { while (j < n && o->st[off + j] == 0) j++; std::vector<uint64_t> ws((j - i + 7) / 8, 0); memcpy(ws.data(), o->data + off + i, j - i); piece = mkConstW(APInt(8 * (j - i), ws)); }
      r = r ? mkConcat(piece, r) : piece; i = j;
    }
    if (r->width > w) r = mkExtract(r, 0, w);
    return fromE(r);
  }
  void writeObj(MemObj* o, uint64_t off, unsigned w, unsigned n, Val v) {
    if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->st) memset(o->st + off, 0, n); return; }
    if (v.e->isConst()) { APInt x = v.e->width > 64 ? *v.e->wide : APInt(v.e->width, v.e->imm); x = x.zext(std::max(8 * n, x.getBitWidth())); for (unsigned i = 0; i < n; i++) o->data[off + i] = x.extractBitsAsZExtValue(8, 8 * i); if (o->st) memset(o->st + off, 0, n); return; }
    ER e = v.e; if (e->width < 8 * n) e = mkZext(e, 8 * n);
    if (!o->st) { o->st = (uint8_t*)calloc(1, o->size); }
    if (!o->sy) { o->sy = (SymB*)calloc(o->size, sizeof(SymB)); }
    if (e->op == E_CONCAT || (e->op == E_ZEXT && w >= 16)) { // store pieces so that later partial reads stay simple
      for (unsigned i = 0; i < n; i++) { ER b = mkExtract(e, 8 * i, 8);
        if (b->isConst()) { o->st[off + i] = 0; o->data[off + i] = b->imm; }
        else if (b->op == E_EXTRACT && b->imm % 8 == 0) { o->st[off + i] = 1; o->sy[off + i] = {b->a, (uint32_t)(b->imm / 8)}; }
        else { o->st[off + i] = 1; o->sy[off + i] = {b, 0}; } }
      return;
    }
    for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->sy[off + i] = {e, i}; }
  }
  // symbolic address -> object and candidate offsets
  static uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
  uint64_t stride(ER e, int depth = 0) {
    if (depth > 40) return 1;
    switch (e->op) {
      case E_CONST: return e->width <= 64 ? (uint64_t)std::llabs((long long)sextw(e->imm, e->width)) : 1;
      case E_ADD: case E_SUB: return gcd(stride(e->a, depth + 1), stride(e->b, depth + 1));
      case E_MUL: { uint64_t a = stride(e->a, depth + 1), b = stride(e->b, depth + 1); if (!a) a = 1; if (!b) b = 1; if (a > 1u << 20 || b > 1u << 20) return std::max(a, b); return a * b; }
      case E_CONCAT: { if (e->b->isConst() && e->b->imm == 0 && e->b->width < 32) { uint64_t s = stride(e->a, depth + 1); return (s ? s : 1) << e->b->width; } return 1; }
      case E_ZEXT: case E_SEXT: return stride(e->a, depth + 1);
      case E_ITE: return gcd(stride(e->b, depth + 1), stride(e->c, depth + 1));
      case E_EXTRACT: if (e->imm == 0) return stride(e->a, depth + 1) & -stride(e->a, depth + 1) ; return 1;
      default: return 1;
    }
  }
  struct SymAddr { ObjRef* ref; std::vector<uint64_t> offs; ER off; };
  SymAddr resolve(State* s, ER addr, unsigned n, bool write) {
    // pick an object from a model
    Model m; ER tru = mkConst(1, 1);
    uint64_t a0;
    { ensureModel(s); Evaluator ev(s->model); a0 = ev.eval(addr); if (!s->modelOk || !ev.ok) { concretizeVia(addr, a0); } }
    ObjRef* r = a0 >= GLOB_BASE ? find(s, a0) : nullptr;
    if (!r || !r->p->alive || a0 < r->p->addr || a0 + n > r->p->addr + r->p->size) { // this address is invalid: constrain to it and report
      constrain(s, mkEq(addr, mkConst(a0, 64))); access(s, a0, n, write); violate("memory", "invalid symbolic address"); }
    uint64_t base = r->p->addr, size = r->p->size;
    ER off = mkBin(E_SUB, addr, mkConst(base, 64));
    ER inb = mk(E_ULE, 1, off, mkConst(size - n, 64));
    bool bounded = false; uint64_t nlo = 0, nhi = 0;
    { auto& nn = S->norm.node(off); if (nn.hi <= size - n) { bounded = true; nlo = (uint64_t)nn.lo; nhi = (uint64_t)nn.hi; } }
    Res q = bounded ? R_UNSAT : S->check(s->pc, mkNot(inb), &m);
    if (q != R_UNSAT) { State* t = clone(s); t->pc.push_back(mkNot(inb)); if (q == R_SAT) merge(t, m); else t->maybeInfeasible = true; work.push_back(t); forks++; s->pc.push_back(inb); }
    SymAddr R; R.ref = r; R.off = off;
    // range
    uint64_t lo = bounded ? nlo : 0, hi = bounded ? nhi : size - n;
    uint64_t st = stride(off); if (!st) st = 1;
    if (bounded && (st & (st - 1)) == 0) { uint64_t o0 = a0 - base; // structurally a multiple of a power of two
      if (lo % st == o0 % st && (hi - lo) / st <= 1024) { for (uint64_t o = lo; o <= hi; o += st) R.offs.push_back(o); return R; } }
    { Evaluator ev(s->model); uint64_t o0 = a0 - base; 
      if (S->check(s->pc, mkNot(mkEq(mkBin(E_UREM, off, mkConst(st, 64)), mkConst(o0 % st, 64))), nullptr) != R_UNSAT) st = 1;
      if ((hi - lo) / st > 48) { // narrow by bisection
        uint64_t l = lo, h = o0; while (l < h) { uint64_t mid = l + (h - l) / 2; Res x = S->check(s->pc, mk(E_ULE, 1, off, mkConst(mid, 64)), nullptr); if (x == R_UNSAT) l = mid + 1; else h = mid; } lo = l;
        l = o0; h = hi; while (l < h) { uint64_t mid = l + (h - l + 1) / 2; Res x = S->check(s->pc, mk(E_ULE, 1, mkConst(mid, 64), off), nullptr); if (x == R_UNSAT) h = mid - 1; else l = mid; } hi = l;
      }
      if ((hi - lo) / st > 8192) throw Stop{"symbolic address with too many candidates"};
      for (uint64_t o = o0 % st; o <= hi; o += st) if (o >= lo) R.offs.push_back(o);
    }
    return R;
  }
  void concretizeVia(ER addr, uint64_t& a0) {
    Model m; Res r = S->check(cur->pc, mkOr1(mkEq(addr, mkConst(0, addr->width)), mkNot(mkEq(addr, mkConst(0, addr->width)))), &m);
    // obtain any value: ask for addr == addr through an equality with a fresh symbol
    ER f = mkSym("pick", addr->width, 3); r = S->check(cur->pc, mkEq(addr, f), &m);
    if (r == R_UNSAT) { infeasible++; cur->maybeInfeasible = true; throw PathEnd(); } if (r != R_SAT) throw Stop{"cannot pick an address"};
    a0 = m.v[f->imm]; 
  }
  Val load(State* s, Val p, unsigned w, unsigned n) {
    if (!p.e) { MemObj* o = access(s, p.c, n, false); if (o->kind >= OK_FUNC) throw Stop{"load from function"}; return readObj(o, p.c - o->addr, w, n); }
    SymAddr R = resolve(s, p.e, n, false); MemObj* o = R.ref->p;
    std::map<std::pair<ER, uint64_t>, std::vector<uint64_t>> groups; std::vector<std::pair<ER, uint64_t>> order;
    for (uint64_t x : R.offs) { Val v = readObj(o, x, w, n); auto k = std::make_pair(v.e, v.e ? 0 : v.c); if (!groups.count(k)) order.push_back(k); groups[k].push_back(x); }
    ER r = nullptr;
    { // a constant table that is affine over GF(2) in the bits of its index: a xor of selected columns
      size_t N = R.offs.size(); uint64_t st = N > 1 ? R.offs[1] - R.offs[0] : 0;
      if (N >= 16 && (N & (N - 1)) == 0 && w <= 64 && R.offs[0] == 0 && st && (st & (st - 1)) == 0 && R.offs[N - 1] == st * (N - 1)) { bool lin = true; std::vector<uint64_t> t(N);
        for (size_t i = 0; i < N && lin; i++) { Val v = readObj(o, R.offs[i], w, n); if (v.e) lin = false; else t[i] = v.c & maskw(w); }
        for (size_t i = 1; i < N && lin; i++) { size_t b = i & -i; if ((t[i] ^ t[i ^ b]) != (t[b] ^ t[0])) lin = false; }
        if (lin) { ER r = mkConst(t[0], w); for (size_t b = 1; b < N; b <<= 1) if (t[b] ^ t[0]) r = mkBin(E_XOR, mkIte(mkExtract(R.off, __builtin_ctzll(st) + __builtin_ctzll(b), 1), mkConst(t[b] ^ t[0], w), mkConst(0, w)), r); return fromE(r); } } }
    // the largest group is the default
    size_t bi2 = 0; for (size_t i = 0; i < order.size(); i++) if (groups[order[i]].size() > groups[order[bi2]].size()) bi2 = i;
    r = toE(Val{order[bi2].first, order[bi2].second}, w);
    for (size_t i = 0; i < order.size(); i++) if (i != bi2) { ER c = nullptr; for (uint64_t x : groups[order[i]]) { ER q = mkEq(R.off, mkConst(x, 64)); c = c ? mkOr1(c, q) : q; } r = mkIte(c, toE(Val{order[i].first, order[i].second}, w), r); }
    return fromE(r);
  }
  void store(State* s, Val p, unsigned w, unsigned n, Val v) {
    if (!p.e) { MemObj* o = access(s, p.c, n, true); writeObj(o, p.c - o->addr, w, n, v); return; }
    SymAddr R = resolve(s, p.e, n, true); noRace = true; MemObj* o = access(s, R.ref->p->addr, 1, true); noRace = false;
    if (R.offs.size() == 1) { writeObj(o, R.offs[0], w, n, v); return; }
    if (R.offs.size() > 1 && R.offs[1] - R.offs[0] < n) { // overlapping candidates: byte-wise update
      std::map<uint64_t, ER> upd; ER ve = toE(v, w); if (ve->width < 8 * n) ve = mkZext(ve, 8 * n);
      for (uint64_t x : R.offs) for (unsigned k = 0; k < n; k++) { ER old = upd.count(x + k) ? upd[x + k] : toE(readObj(o, x + k, 8, 1), 8); upd[x + k] = mkIte(mkEq(R.off, mkConst(x, 64)), mkExtract(ve, 8 * k, 8), old); }
      for (auto& u : upd) writeObj(o, u.first, 8, 1, fromE(u.second)); return; }
    for (uint64_t x : R.offs) { ER old = toE(readObj(o, x, w, n), w); writeObj(o, x, w, n, fromE(mkIte(mkEq(R.off, mkConst(x, 64)), toE(v, w), old))); }
  }
  void copyMem(State* s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    MemObj* so = access(s, src, n, false); ObjRef hold(so); so->refs++; // keep alive across COW
    MemObj* dn = access(s, d, n, true);
    so = access(s, src, n, false);  // may have been cloned when same object
    uint64_t a = src - so->addr, b = d - dn->addr;
    memmove(dn->data + b, so->data + a, n);
    if (so->st || dn->st) {
      if (!dn->st) dn->st = (uint8_t*)calloc(1, dn->size);
      bool sym = false;
      if (so->st) { memmove(dn->st + b, so->st + a, n); for (uint64_t i = 0; i < n; i++) if (dn->st[b + i] == 1) { sym = true; break; } } else memset(dn->st + b, 0, n);
      if (sym) { if (!dn->sy) dn->sy = (SymB*)calloc(dn->size, sizeof(SymB)); memmove(dn->sy + b, so->sy + a, n * sizeof(SymB)); }
    }
  }
  uint64_t allocHeap(State* s, uint64_t n, int ak, uint64_t align, bool zero) {
    uint64_t a = (s->heapTop + align - 1) / align * align;
    MemObj* o = new MemObj(a, n, OK_HEAP, !zero); o->allocKind = ak; s->heap.push_back(ObjRef(o)); s->heapTop = a + std::max<uint64_t>(n, 1) + 64; s->heapTop = (s->heapTop + 15) / 16 * 16; return a;
  }
  void freeHeap(State* s, uint64_t a, int ak) {
    if (!a) return;
    ObjRef* r = a >= HEAP_BASE && a < STACK_BASE ? find(s, a) : nullptr;
    if (!r || r->p->addr != a) violate("memory", "free of a pointer that is not the start of a heap block");
    if (!r->p->alive) violate("memory", "double free");
    if (ak != r->p->allocKind) violate("memory", "mismatched allocation and release functions");
    MemObj* t = new MemObj(a, 0, OK_EXTERN, false); t->kind = OK_HEAP; t->size = r->p->size; t->alive = false; *r = ObjRef(t);
    while (!s->heap.empty() && !s->heap.back().p->alive && s->heap.size() > 200000) break;
  }

  // ---- path control ----
  State* clone(State* s) { State* t = new State(*s); return t; }
  void merge(State* t, const Model& m) { for (auto& p : m.v) t->model.v[p.first] = p.second; verifyModel(t); }
  void verifyModel(State* t) { Evaluator ev(t->model); t->modelOk = true; for (ER c : t->pc) if (!(ev.eval(c) & 1) || !ev.ok) { t->modelOk = false; break; } }
  // repair the state's model from the solver
  void ensureModel(State* s) { if (s->modelOk) return; State* sv = cur; cur = s; Model m; Res r = solvePC(&m); cur = sv; if (r == R_UNSAT) { infeasible++; cur->maybeInfeasible = true; throw PathEnd(); } if (r == R_SAT) merge(s, m); if (getenv("SYMX_DBG")) fprintf(stderr, "ensureModel %d -> %d\n", (int)r, (int)s->modelOk); }
  void constrain(State* s, ER c) { s->pc.push_back(c); Evaluator ev(s->model); if (!(ev.eval(c) & 1) || !ev.ok) s->modelOk = false; }
  // decide a symbolic condition; forks. `redo`: the clone re-executes the current instruction
  bool branch(State* s, ER c, std::function<void(State*, bool)> other) {
    if (c->isConst()) return c->imm;
    bool v = true;
    Evaluator ev(s->model); bool trust = s->modelOk;
    uint64_t x = ev.eval(c); if (!ev.ok) trust = false;
    Model m1, m2;
    if (trust) { v = x & 1; }
    else { Res r = S->check(s->pc, c, &m1); if (r == R_UNSAT) { s->pc.push_back(mkNot(c)); return false; } v = true; if (r == R_SAT) { s->pc.push_back(c); merge(s, m1); s->pc.pop_back(); } else s->maybeInfeasible = true; }
    ER oc = v ? mkNot(c) : c;
    Res r = S->check(s->pc, oc, &m2);
    if (r != R_UNSAT) {
      State* t = clone(s); t->pc.push_back(oc); if (r == R_SAT) merge(t, m2); else { t->maybeInfeasible = true; t->modelOk = false; }
      forks++; if (getenv("SYMX_DBG")) fprintf(stderr, "fork at %s\n", where().c_str()); if (other) { State* sv = cur; cur = t; other(t, !v); cur = sv; } work.push_back(t);
      s->pc.push_back(v ? c : mkNot(c));
    }
    return v;
  }
  uint64_t concrete(State* s, const Val& v, unsigned w) {  // fork on the value; the clone re-executes the current instruction
    if (!v.e) return v.c;
    uint64_t x; ensureModel(s);
    if (s->modelOk) { Evaluator ev(s->model); x = ev.eval(v.e); if (!ev.ok) throw Stop{"concretise"}; }
    else { ER f = mkSym("pick", w, 3); Model m; Res r = S->check(s->pc, mkEq(v.e, f), &m); if (r == R_UNSAT) { infeasible++; cur->maybeInfeasible = true; throw PathEnd(); } if (r != R_SAT) throw Stop{"concretise unknown"}; x = m.v[f->imm]; }
    ER eq = mkEq(v.e, mkConst(x, w)); Model m;
    Res r = S->check(s->pc, mkNot(eq), &m);
    if (r != R_UNSAT) { State* t = clone(s); t->pc.push_back(mkNot(eq)); if (r == R_SAT) merge(t, m); else { t->maybeInfeasible = true; t->modelOk = false; } forks++; if (getenv("SYMX_DBG")) fprintf(stderr, "concretise fork at %s\n", where().c_str()); work.push_back(t); s->pc.push_back(eq); if (!s->modelOk) verifyModel(s); }
    return x;
  }
  void doAssert(State* s, ER c, const std::string& msg) {
    assertSites[msg]++;
    if (c->isConst() && c->imm) { assertsFolded++; return; }
    S->what = msg; Model m; Res r = S->check(s->pc, mkNot(c), &m); S->what.clear();
    if (r == R_UNSAT) { assertsSolved++; return; }
    if (r == R_UNKNOWN) { assertsUnknown++; if (stops.size() < 20) stops.push_back("assertion undecided: " + msg + " @ " + where()); return; }
    State* sv = cur; State* t = clone(s); t->pc.push_back(mkNot(c)); merge(t, m); t->modelOk = true; cur = t; report("assert", msg); cur = sv; delete t;
    if (c->isConst()) throw PathEnd();
    // continue under the assertion; a refuted equation between reals is left out, since assuming it makes every later query nonlinear
    { std::set<ER> seen; if (S->hasFP(c, seen)) return; }
    if (S->check(s->pc, c, &m) == R_UNSAT) throw PathEnd();
    s->pc.push_back(c); merge(s, m);
  }
  std::string cstr(State* s, uint64_t a) { std::string r; if (!a) return r; for (int i = 0; i < 4096; i++) { Val v = load(s, CV(a + i), 8, 1); if (v.e) { r += "?"; continue; } if (!v.c) break; r += (char)v.c; } return r; }
  void finishPath(State* s);
  void run(State* init);
  void step(State* s);
  void pushCall(State* s, FnInfo* f, const std::vector<Val>& args, const std::vector<Val>& va);
  bool callBuiltin(State* s, CInst& ci, FnInfo* f, std::vector<Val>& args, Val* ret, uint32_t nret);
  void doThrow(State* s);
  void takeEdge(State* s, Frame& f, const Edge& e);
  Val binop(State* s, unsigned opc, unsigned w, Val a, Val b);
  Val fpop(Op op, unsigned w, unsigned wa, Val a, Val b, uint64_t imm = 0, bool two = true);
  Val cast_(unsigned opc, Val a, unsigned ws, unsigned wd);
  bool intrinsic(State* s, CInst& ci, std::vector<Val>& args);
  void doReturn(State* s, std::vector<Val>& rv);
};
#include "exec_impl.h"

static std::string jesc(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
int main(int argc, char** argv) {
  std::string bc, out, mode = "real", entry = "harness_main", traceDir, replayDir; double timeout = 600; unsigned qto = 20000; std::map<std::string, long> params; int maxTraces = 1; std::string dump; int maxViol = 4; uint64_t seed = 1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--out") out = nx(); else if (a == "--mode") mode = nx(); else if (a == "--entry") entry = nx(); else if (a == "--timeout") timeout = atof(nx().c_str()); else if (a == "--qto") qto = atoi(nx().c_str());
    else if (a == "--trace-dir") traceDir = nx(); else if (a == "--replay-dir") replayDir = nx(); else if (a == "--max-traces") maxTraces = atoi(nx().c_str()); else if (a == "--dump") dump = nx(); else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "--seed") seed = atoll(nx().c_str());
    else if (a == "-p") { std::string kv = nx(); size_t e = kv.find('='); params[kv.substr(0, e)] = atol(kv.substr(e + 1).c_str()); } else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
  double t0 = now();
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(bc, err, ctx); if (!M) { err.print("symx", errs()); return 3; }
  Engine E; E.M = M.get(); DataLayout DL(M.get()); E.DL = &DL; E.mode = mode == "fpa" ? M_FPA : M_REAL; g_real = E.mode == M_REAL;
  Solver S(E.mode, qto); S.dumpDir = dump; S.seed = seed; E.S = &S; E.params = params; E.traceDir = traceDir; E.maxTraces = maxTraces; E.deadline = t0 + timeout; E.maxViol = maxViol;
  E.initBuiltins();
  State* s = new State; s->heapTop = HEAP_BASE; s->stackTop = STACK_BASE;
  std::string fatal;
  try {
    E.cur = s; E.setupGlobals(s);
    // global constructors, then the entry
    std::vector<std::pair<int, FnInfo*>> ctors;
    if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& O : CA->operands()) { auto* CS = cast<ConstantStruct>(O); ctors.push_back({(int)cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), E.info(cast<Function>(CS->getOperand(1)->stripPointerCasts()))}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) { s->allowAbort = 0; E.pushCall(s, c.second, {}, {}); try { while (!s->frames.empty()) E.step(s); } catch (PathEnd&) {} if (!s->frames.empty()) { fatal = "constructor did not finish"; } s->regs.clear(); s->stack.clear(); s->stackTop = STACK_BASE; }
    if (!E.work.empty()) fatal = "symbolic constructor";
    FnInfo* e = E.info(M->getFunction(entry)); E.pushCall(s, e, {}, {});
    E.run(s);
  } catch (Stop& e) { fatal = e.why + " @ " + E.where(); } catch (PathEnd&) { fatal = "setup ended"; }
  if (!fatal.empty()) E.stops.push_back(fatal);
  // report
  std::ofstream o(out); 
  o << "{\"paths\":" << E.paths << ",\"steps\":" << E.totalSteps << ",\"forks\":" << E.forks << ",\"asserts_folded\":" << E.assertsFolded << ",\"asserts_solved\":" << E.assertsSolved << ",\"asserts_unknown\":" << E.assertsUnknown
    << ",\"aborted\":" << E.aborted << ",\"infeasible\":" << E.infeasible << ",\"queries\":" << S.st.queries << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"unknown\":" << S.st.unknown << ",\"cached\":" << S.st.cached << ",\"by_simplifier\":" << S.st.simplified << ",\"by_modular\":" << S.st.modular << ",\"probes\":" << S.st.probes << ",\"by_integers\":" << S.st.linear << ",\"by_domain\":" << S.st.domain
    << ",\"solver_time\":" << S.st.time << ",\"solver_max\":" << S.st.maxTime << ",\"exprs\":" << numExprs() << ",\"symbols\":" << g_syms.size() << ",\"wall\":" << now() - t0;
  o << ",\"stops\":["; for (size_t i = 0; i < E.stops.size(); i++) o << (i ? "," : "") << jesc(E.stops[i]); o << "]";
  o << ",\"covers\":{"; { bool f = true; for (auto& c : E.covers) { o << (f ? "" : ",") << jesc(c.first) << ":" << c.second; f = false; } } o << "}";
  o << ",\"asserts\":{"; { bool f = true; for (auto& c : E.assertSites) { o << (f ? "" : ",") << jesc(c.first) << ":" << c.second; f = false; } } o << "}";
  o << ",\"functions\":["; { bool f = true; for (auto& p : E.fns) if (p.second->instrs) { std::string d = llvm::demangle(p.second->name); o << (f ? "" : ",") << "[" << jesc(d) << "," << p.second->instrs << "]"; f = false; } } o << "]";
  o << ",\"traces\":["; for (size_t i = 0; i < E.traces.size(); i++) o << (i ? "," : "") << jesc(E.traces[i]); o << "]";
  o << ",\"violations\":[";
  for (size_t i = 0; i < E.viols.size(); i++) { auto& v = E.viols[i]; std::string fn = replayDir.empty() ? "" : replayDir + "/cex" + std::to_string(i) + ".txt";
    if (!fn.empty()) { std::ofstream r(fn); r << "# " << v.kind << ": " << v.msg << "\n"; for (auto& p : params) r << "P " << p.first << " " << p.second << "\n"; for (uint64_t id : v.order) { char b[32]; snprintf(b, 32, "%lx", (unsigned long)(v.model.v.count(id) ? v.model.v[id] : 0)); r << "S " << g_syms[id].name << " " << g_syms[id].width << " " << b << "\n"; } }
    o << (i ? "," : "") << "{\"kind\":" << jesc(v.kind) << ",\"msg\":" << jesc(v.msg) << ",\"where\":" << jesc(v.where) << ",\"maybe\":" << (v.maybe ? "true" : "false") << ",\"replay\":" << jesc(fn) << "}"; }
  o << "]}\n"; o.close();
  fprintf(stderr, "paths %lu steps %lu forks %lu asserts folded %lu solved %lu unknown %lu queries %lu (%.1fs) viol %zu stops %zu wall %.1f\n", (unsigned long)E.paths, (unsigned long)E.totalSteps, (unsigned long)E.forks, (unsigned long)E.assertsFolded, (unsigned long)E.assertsSolved, (unsigned long)E.assertsUnknown, (unsigned long)S.st.queries, S.st.time, E.viols.size(), E.stops.size(), now() - t0);
  _exit(E.viols.size() ? 1 : E.stops.size() ? 2 : 0);
}
