#include "expr.h"
bool g_tolEq = false;
#include <deque>
using llvm::APInt;
bool g_real = true;
std::vector<SymInfo> g_syms;
std::vector<std::string> g_ufs;

struct Key { Op op; uint16_t w; ER a, b, c; uint64_t imm;
  bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && imm == o.imm; } };
struct KeyH { size_t operator()(const Key& k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); mix(k.imm); return h; } };
static std::unordered_map<Key, ER, KeyH>& tab() { static std::unordered_map<Key, ER, KeyH> t; return t; }
static std::deque<Expr> arena;
uint64_t numExprs() { return arena.size(); }
static ER intern(Op op, unsigned w, ER a, ER b, ER c, uint64_t imm) {
  Key k{op, (uint16_t)w, a, b, c, imm};
  auto it = tab().find(k); if (it != tab().end()) return it->second;
  arena.push_back(Expr{op, (uint8_t)((a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0)), (uint16_t)w, (uint32_t)arena.size(), a, b, c, imm, nullptr});
  ER e = &arena.back(); tab().emplace(k, e); return e;
}
ER mkConst(uint64_t v, unsigned w) {
  if (w > 64) return mkConstW(APInt(w, v));
  return intern(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w));
}
struct APKeyH { size_t operator()(const std::pair<unsigned, std::string>& p) const { return std::hash<std::string>()(p.second) ^ p.first; } };
static std::unordered_map<std::pair<unsigned, std::string>, ER, APKeyH>& wtab() { static std::unordered_map<std::pair<unsigned, std::string>, ER, APKeyH> t; return t; }
ER mkConstW(const APInt& v) {
  unsigned w = v.getBitWidth();
  if (w <= 64) return mkConst(v.getZExtValue(), w);
  std::string s((const char*)v.getRawData(), v.getNumWords() * 8);
  auto k = std::make_pair(w, s);
  auto it = wtab().find(k); if (it != wtab().end()) return it->second;
  arena.push_back(Expr{E_CONST, 0, (uint16_t)w, (uint32_t)arena.size(), nullptr, nullptr, nullptr, 0, new APInt(v)});
  ER e = &arena.back(); wtab().emplace(k, e); return e;
}
static APInt cval(ER e) { return e->width > 64 ? *e->wide : APInt(e->width, e->imm); }
ER mkSym(const std::string& name, unsigned w, int kind) {
  uint64_t id = g_syms.size();
  ER e = intern(E_SYM, w, nullptr, nullptr, nullptr, id);
  g_syms.push_back({name, w, kind, e}); return e;
}
bool isFPop(ER e) {
  switch (e->op) { case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM: case E_FNEG: case E_FABS: case E_FSQRT:
    case E_FEXT: case E_FTRUNC: case E_SITOFP: case E_UITOFP: case E_FROUND: case E_FUF: return true;
    case E_SYM: return g_syms[e->imm].kind == 1 || g_syms[e->imm].kind == 2;
    case E_ITE: return isFPop(e->b) || isFPop(e->c);
    default: return false; }
}
static bool isC(ER e, uint64_t v) { return e->op == E_CONST && e->width <= 64 && e->imm == (v & maskw(e->width)); }
static uint64_t one(unsigned w) { return w == 32 ? f2b(1.0f) : d2b(1.0); }
static bool isFzero(ER e) { return e->op == E_CONST && (e->width == 32 || e->width == 64) && (e->imm & (maskw(e->width) >> 1)) == 0; }

template <class F> static double fpd(unsigned w, uint64_t a, F) { return 0; }
uint64_t evalOp(Op op, unsigned w, uint64_t imm, unsigned wa, uint64_t a, unsigned wb, uint64_t b, uint64_t c, bool& ok) {
  uint64_t M = maskw(w);
  auto F2 = [&](auto f32, auto f64) -> uint64_t { return w == 32 ? f2b(f32(b2f(a), b2f(b))) : d2b(f64(b2d(a), b2d(b))); };
  auto C2 = [&](auto g) -> uint64_t { return wa == 32 ? g((double)b2f(a), (double)b2f(b)) : g(b2d(a), b2d(b)); };
  switch (op) {
    case E_ADD: return (a + b) & M; case E_SUB: return (a - b) & M; case E_MUL: return (a * b) & M;
    case E_UDIV: return b ? (a / b) & M : M; case E_UREM: return b ? (a % b) & M : a;
    case E_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x >= 0 ? M : 1; if (y == -1) return (0 - (uint64_t)x) & M; return (uint64_t)(x / y) & M; }
    case E_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & M; case E_LSHR: return b >= w ? 0 : (a & M) >> b;
    case E_ASHR: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & M;
    case E_ZEXT: return a & maskw(wa); case E_SEXT: return (uint64_t)sextw(a, wa) & M;
    case E_EXTRACT: return imm >= 64 ? 0 : (a >> imm) & M;
    case E_CONCAT: return wb >= 64 ? b : ((a << wb) | (b & maskw(wb))) & M;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sextw(a, wa) < sextw(b, wa); case E_SLE: return sextw(a, wa) <= sextw(b, wa);
    case E_ITE: return a ? b : c;
    case E_FADD: return F2([](float x, float y) { return x + y; }, [](double x, double y) { return x + y; });
    case E_FSUB: return F2([](float x, float y) { return x - y; }, [](double x, double y) { return x - y; });
    case E_FMUL: return F2([](float x, float y) { return x * y; }, [](double x, double y) { return x * y; });
    case E_FDIV: return F2([](float x, float y) { return x / y; }, [](double x, double y) { return x / y; });
    case E_FREM: return F2([](float x, float y) { return fmodf(x, y); }, [](double x, double y) { return fmod(x, y); });
    case E_FNEG: return a ^ (1ull << (w - 1));
    case E_FABS: return a & (M >> 1);
    case E_FSQRT: return w == 32 ? f2b(sqrtf(b2f(a))) : d2b(sqrt(b2d(a)));
    case E_FEXT: return wa == w ? a : d2b((double)b2f(a));
    case E_FTRUNC: return wa == w ? a : f2b((float)b2d(a));
    case E_SITOFP: { int64_t x = sextw(a, wa); return w == 32 ? f2b((float)x) : d2b((double)x); }
    case E_UITOFP: { uint64_t x = a & maskw(wa); return w == 32 ? f2b((float)x) : d2b((double)x); }
    case E_FPTOSI: { double x = wa == 32 ? b2f(a) : b2d(a); if (!(x > -9.3e18 && x < 9.2e18)) return (1ull << 63 >> (64 - w)) & M; return (uint64_t)(int64_t)x & M; }
    case E_FPTOUI: { double x = wa == 32 ? b2f(a) : b2d(a); if (!(x > -1 && x < 1.8e19)) return 0; return (uint64_t)x & M; }
    case E_FOEQ: return C2([](double x, double y) { return x == y || (g_tolEq && fabs(x - y) <= 1e-4 * (1 + fmax(fabs(x), fabs(y)))); });
    case E_FOLT: return C2([](double x, double y) { return x < y; });
    case E_FOLE: return C2([](double x, double y) { return x <= y; });
    case E_FUNO: return C2([](double x, double y) { return x != x || y != y; });
    case E_FROUND: { auto f = [&](double x) { switch (imm) { case 0: return floor(x); case 1: return ceil(x); case 2: return trunc(x); case 3: return nearbyint(x); default: return round(x); } };
      return w == 32 ? f2b((float)f(b2f(a))) : d2b(f(b2d(a))); }
    case E_FUF: {
      const std::string& n = g_ufs[imm]; double x = wa == 32 ? b2f(a) : b2d(a), y = wb == 32 ? b2f(b) : b2d(b), r;
      if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "exp") r = exp(x);
      else if (n == "log") r = log(x); else if (n == "log10") r = log10(x); else if (n == "asin") r = asin(x); else if (n == "acos") r = acos(x); else if (n == "atan") r = atan(x);
      else if (n == "sinh") r = sinh(x); else if (n == "cosh") r = cosh(x); else if (n == "tanh") r = tanh(x);
      else if (n == "pow") r = pow(x, y); else if (n == "atan2") r = atan2(x, y); else { ok = false; return 0; }
      return w == 32 ? f2b((float)r) : d2b(r); }
    default: ok = false; return 0;
  }
}

static bool isBinInt(Op op) { return op >= E_ADD && op <= E_ASHR; }
static APInt evalWide(Op op, const APInt& a, const APInt& b) {
  unsigned w = a.getBitWidth();
  switch (op) {
    case E_ADD: return a + b; case E_SUB: return a - b; case E_MUL: return a * b;
    case E_UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b); case E_UREM: return b.isZero() ? a : a.urem(b);
    case E_SDIV: return b.isZero() ? a : a.sdiv(b); case E_SREM: return b.isZero() ? a : a.srem(b);
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return a.shl(b); case E_LSHR: return a.lshr(b); case E_ASHR: return a.ashr(b);
    default: abort();
  }
}
static uint64_t cmpWide(Op op, const APInt& a, const APInt& b) {
  switch (op) { case E_EQ: return a == b; case E_ULT: return a.ult(b); case E_ULE: return a.ule(b); case E_SLT: return a.slt(b); case E_SLE: return a.sle(b); default: abort(); }
}

ER mkExtract(ER a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  switch (a->op) {
    case E_CONST: return a->width <= 64 ? mkConst(a->imm >> lo, w) : mkConstW(a->wide->extractBits(w, lo));
    case E_EXTRACT: return mkExtract(a->a, a->imm + lo, w);
    case E_CONCAT: { unsigned lw = a->b->width;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case E_ZEXT: { unsigned sw = a->a->width;
      if (lo >= sw) return mkConst(0, w);
      if (lo + w <= sw) return mkExtract(a->a, lo, w);
      return mkZext(mkExtract(a->a, lo, sw - lo), w); }
    case E_SEXT: if (lo + w <= a->a->width) return mkExtract(a->a, lo, w); break;
    case E_ITE: if (a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case E_AND: case E_OR: case E_XOR: if (a->a->isConst() || a->b->isConst() || w == 1) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case E_SHL: if (a->b->isConst() && a->b->width <= 64) { uint64_t s = a->b->imm; if (s < a->width) {
        if (lo >= s) return mkExtract(a->a, lo - s, w);
        if (lo + w <= s) return mkConst(0, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - s), mkConst(0, s - lo)); } } break;
    case E_LSHR: if (a->b->isConst() && a->b->width <= 64) { uint64_t s = a->b->imm;
        if (lo + w + s <= a->width) return mkExtract(a->a, lo + s, w);
        if (lo + s >= a->width) return mkConst(0, w);
        return mkZext(mkExtract(a->a, lo + s, a->width - lo - s), w); } break;
    default: break;
  }
  return intern(E_EXTRACT, w, a, nullptr, nullptr, lo);
}
ER mkConcat(ER hi, ER lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) {
    if (w <= 64) return mkConst((hi->imm << lo->width) | lo->imm, w);
    APInt r = cval(hi).zext(w).shl(lo->width) | cval(lo).zext(w); return mkConstW(r);
  }
  if (isC(hi, 0) && hi->width <= 64) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->width) return mkExtract(hi->a, lo->imm, w);
  if (hi->op == E_EXTRACT && hi->a == lo && hi->imm == lo->width) return mkExtract(lo, 0, w); // never (widths) but harmless
  // concat(hi, concat(mid, x)) with hi,mid adjacent extracts
  if (lo->op == E_CONCAT) { ER mid = lo->a;
    if (hi->op == E_EXTRACT && mid->op == E_EXTRACT && hi->a == mid->a && hi->imm == mid->imm + mid->width) return mkConcat(mkExtract(hi->a, mid->imm, hi->width + mid->width), lo->b);
    if (hi->isConst() && mid->isConst()) return mkConcat(mkConcat(hi, mid), lo->b); }
  if (hi->op == E_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));   // right-assoc normal form
  if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(E_CONCAT, w, hi, lo, nullptr, 0);
}
ER mkZext(ER a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkConstW(cval(a).zext(w));
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return intern(E_ZEXT, w, a, nullptr, nullptr, 0);
}
ER mkSext(ER a, unsigned w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkConstW(cval(a).sext(w));
  if (a->op == E_SEXT) return mkSext(a->a, w);
  if (a->op == E_ZEXT && a->a->width < a->width) return mkZext(a->a, w);
  if (a->op == E_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return intern(E_SEXT, w, a, nullptr, nullptr, 0);
}
ER mkNot(ER a) { return mkBin(E_XOR, a, mkConst(1, 1)); }
static bool isNot(ER a, ER& x) { if (a->width == 1 && a->op == E_XOR) { if (isC(a->b, 1)) { x = a->a; return true; } } return false; }
ER mkAnd1(ER a, ER b) { return mkBin(E_AND, a, b); }
ER mkOr1(ER a, ER b) { return mkBin(E_OR, a, b); }
ER mkIte(ER c, ER a, ER b) {
  if (c->isConst()) return c->imm ? a : b;
  if (a == b) return a;
  ER x; if (isNot(c, x)) return mkIte(x, b, a);
  if (a->width == 1) {
    if (a->isConst() && b->isConst()) return a->imm ? c : mkNot(c);
    if (isC(a, 1)) return mkOr1(c, b);
    if (isC(a, 0)) return mkAnd1(mkNot(c), b);
    if (isC(b, 0)) return mkAnd1(c, a);
    if (isC(b, 1)) return mkOr1(mkNot(c), a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(E_ITE, a->width, c, a, b, 0);
}
// knowledge: number of known-zero top bits
static unsigned topZeros(ER e) {
  if (e->op == E_ZEXT) return e->width - e->a->width + topZeros(e->a);
  if (e->op == E_CONST) return cval(e).countl_zero();
  if (e->op == E_AND) return std::max(topZeros(e->a), topZeros(e->b));
  if (e->op == E_LSHR && e->b->isConst() && e->b->imm < e->width) return std::min<unsigned>(e->width, e->b->imm + topZeros(e->a));
  if (e->op == E_ITE) return std::min(topZeros(e->b), topZeros(e->c));
  if (e->op == E_CONCAT && e->a->op == E_CONST) { unsigned z = cval(e->a).countl_zero(); return z == e->a->width ? z + topZeros(e->b) : z; }
  return 0;
}
ER mkEq(ER a, ER b) {
  if (a == b) return mkConst(1, 1);
  if (a->isConst() && b->isConst()) return mkConst(0, 1);
  if (a->isConst()) std::swap(a, b);
  if (a->width == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); return mkNot(mkBin(E_XOR, a, b)); }
  if (b->isConst()) {
    if (a->op == E_ZEXT) { APInt v = cval(b); unsigned sw = a->a->width; if (v.getActiveBits() > sw) return mkConst(0, 1); return mkEq(a->a, mkConstW(v.trunc(sw))); }
    if (a->op == E_SEXT) { APInt v = cval(b); unsigned sw = a->a->width; if (v.trunc(sw).sext(a->width) != v) return mkConst(0, 1); return mkEq(a->a, mkConstW(v.trunc(sw))); }
    if (a->op == E_CONCAT) return mkAnd1(mkEq(a->a, mkExtract(b, a->b->width, a->a->width)), mkEq(a->b, mkExtract(b, 0, a->b->width)));
    if (a->op == E_ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
    if (a->op == E_ADD && a->b->isConst()) return mkEq(a->a, mkBin(E_SUB, b, a->b));
    if (a->op == E_XOR && a->b->isConst()) return mkEq(a->a, mkBin(E_XOR, b, a->b));
  } else {
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->a->width == b->a->width) return mkAnd1(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
    if (a->op == E_ADD && b->op == E_ADD && a->b == b->b) return mkEq(a->a, b->a);
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(E_EQ, 1, a, b, nullptr, 0);
}
ER mkBin(Op op, ER a, ER b) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) {
    if (w <= 64) { bool ok = true; return mkConst(evalOp(op, w, 0, w, a->imm, w, b->imm, 0, ok), w); }
    return mkConstW(evalWide(op, cval(a), cval(b)));
  }
  switch (op) { case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR:
      if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); break; default: break; }
  bool bz = b->isConst() && cval(b).isZero(), bo = b->isConst() && cval(b).isOne(), bm = b->isConst() && cval(b).isAllOnes();
  switch (op) {
    case E_ADD:
      if (bz) return a;
      if (b->isConst() && a->op == E_ADD && a->b->isConst()) return mkBin(E_ADD, a->a, mkBin(E_ADD, a->b, b));
      if (!b->isConst() && a->op == E_ADD && a->b->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
      if (!b->isConst() && b->op == E_ADD && b->b->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
      break;
    case E_SUB:
      if (bz) return a; if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(E_ADD, a, mkConstW(-cval(b)));
      if (a->op == E_ADD && a->a == b) return a->b;
      if (a->op == E_ADD && a->b == b) return a->a;
      break;
    case E_MUL:
      if (bz) return b; if (bo) return a;
      if (b->isConst() && a->op == E_MUL && a->b->isConst()) return mkBin(E_MUL, a->a, mkBin(E_MUL, a->b, b));
      if (b->isConst() && a->op == E_ADD && a->b->isConst()) return mkBin(E_ADD, mkBin(E_MUL, a->a, b), mkBin(E_MUL, a->b, b));
      if (b->isConst() && a->op == E_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      break;
    case E_UDIV: case E_SDIV: if (bo && w > 1) return a; break;
    case E_UREM: if (bo) return mkConst(0, w); if (b->isConst() && cval(b).isPowerOf2()) { unsigned k = cval(b).logBase2(); return k == 0 ? mkConst(0, w) : mkZext(mkExtract(a, 0, k), w); } break;
    case E_AND:
      if (bz) return b; if (bm) return a; if (a == b) return a;
      if (w == 1) { ER x; if ((isNot(a, x) && x == b) || (isNot(b, x) && x == a)) return mkConst(0, 1); }
      if (b->isConst()) { APInt v = cval(b);
        if (a->op == E_AND && a->b->isConst()) return mkBin(E_AND, a->a, mkBin(E_AND, a->b, b));
        if (v.isMask()) { unsigned k = v.countr_one(); return mkZext(mkExtract(a, 0, k), w); }
        if (a->op == E_ZEXT) return mkZext(mkBin(E_AND, a->a, mkConstW(v.trunc(a->a->width))), w);
        if (a->op == E_CONCAT) return mkConcat(mkBin(E_AND, a->a, mkExtract(b, a->b->width, a->a->width)), mkBin(E_AND, a->b, mkExtract(b, 0, a->b->width)));
        if (v.isShiftedMask()) { unsigned lo = v.countr_zero(), n = v.popcount(); ER m = mkExtract(a, lo, n); return mkZext(lo ? mkConcat(m, mkConst(0, lo)) : m, w); }
        if (a->op == E_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      }
      break;
    case E_OR: {
      if (bz) return a; if (bm) return b; if (a == b) return a;
      if (w == 1) { ER x; if ((isNot(a, x) && x == b) || (isNot(b, x) && x == a)) return mkConst(1, 1); }
      if (b->isConst() && a->op == E_OR && a->b->isConst()) return mkBin(E_OR, a->a, mkBin(E_OR, a->b, b));
      // disjoint bit ranges: build a concat (zext(x) | (y << k))
      if (w > 1) {
        auto lowZeros = [](ER e) -> unsigned {
          if (e->op == E_SHL && e->b->isConst()) return (unsigned)std::min<uint64_t>(e->b->imm, e->width);
          if (e->op == E_ZEXT && e->a->op == E_CONCAT) e = e->a;
          if (e->op == E_CONST) return cval(e).countr_zero();
          while (e->op == E_CONCAT && !(isC(e->b, 0) && e->b->width <= 64)) e = e->b;   // lowest piece
          if (e->op == E_CONCAT && e->b->isConst()) return cval(e->b).countr_zero() == e->b->width ? e->b->width : 0;
          return 0; };
        for (int t = 0; t < 2; t++) {
          ER lo = t ? b : a, hi = t ? a : b; unsigned tz = topZeros(lo); unsigned lz = lowZeros(hi);
          if (tz && lz && lz >= w - tz && lz < w) return mkConcat(mkExtract(hi, lz, w - lz), mkExtract(lo, 0, lz));
        }
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->width == b->b->width) return mkConcat(mkBin(op, a->a, b->a), mkBin(op, a->b, b->b));
        // general case: pieces meet inside - split at the boundary of a zero run
        for (int t = 0; t < 2; t++) { ER x = t ? b : a, y = t ? a : b;
          ER cx = x->op == E_ZEXT ? nullptr : x;
          if (cx && cx->op == E_CONCAT && !y->isConst()) { unsigned lw = cx->b->width; ER yh = mkExtract(y, lw, w - lw), yl = mkExtract(y, 0, lw);
            if ((yh->isConst() || cx->a->isConst()) && (yl->isConst() || cx->b->isConst())) return mkConcat(mkBin(op, cx->a, yh), mkBin(op, cx->b, yl)); } }
        for (int t = 0; t < 2; t++) { ER x = t ? b : a, y = t ? a : b;
          if (x->op == E_ZEXT && y->op == E_ZEXT) { unsigned m = std::max(x->a->width, y->a->width); return mkZext(mkBin(op, mkZext(x->a, m), mkZext(y->a, m)), w); }
          if (x->op == E_ZEXT && y->op == E_CONCAT) { unsigned lw = y->b->width; return mkConcat(mkBin(op, mkExtract(x, lw, w - lw), y->a), mkBin(op, mkExtract(x, 0, lw), y->b)); } }
      }
      if (b->isConst() && w > 1 && a->op == E_CONCAT) return mkConcat(mkBin(op, a->a, mkExtract(b, a->b->width, a->a->width)), mkBin(op, a->b, mkExtract(b, 0, a->b->width)));
      break; }
    case E_XOR:
      if (bz) return a; if (a == b) return mkConst(0, w);
      if (b->isConst() && a->op == E_XOR && a->b->isConst()) return mkBin(E_XOR, a->a, mkBin(E_XOR, a->b, b));
      if (b->isConst() && (w == 32 || w == 64) && b->imm == (1ull << (w - 1)) && isFPop(a)) return mkFP(E_FNEG, w, a);
      if (b->isConst() && a->op == E_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      if (w > 1 && b->isConst() && a->op == E_CONCAT) return mkConcat(mkBin(op, a->a, mkExtract(b, a->b->width, a->a->width)), mkBin(op, a->b, mkExtract(b, 0, a->b->width)));
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (bz) return a;
      if (b->isConst()) { APInt sv = cval(b); if (sv.uge(w)) { if (op == E_ASHR) { return mkBin(op, a, mkConst(w - 1, w)); } return mkConst(0, w); }
        unsigned s = sv.getZExtValue();
        if (op == E_SHL) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        if (op == E_LSHR) return mkZext(mkExtract(a, s, w - s), w);
        if (op == E_ASHR) { if (topZeros(a) > 0) return mkZext(mkExtract(a, s, w - s), w); return mkSext(mkExtract(a, s, w - s), w); } }
      break;
    default: break;
  }
  return intern(op, w, a, b, nullptr, 0);
}
static ER mkCmp(Op op, ER a, ER b) {
  if (a->isConst() && b->isConst()) {
    if (a->width <= 64) { bool ok = true; return mkConst(evalOp(op, 1, 0, a->width, a->imm, b->width, b->imm, 0, ok), 1); }
    return mkConst(cmpWide(op, cval(a), cval(b)), 1);
  }
  if (op == E_EQ) return mkEq(a, b);
  if (a == b) return mkConst(op == E_ULE || op == E_SLE, 1);
  unsigned w = a->width;
  if (op == E_SLT || op == E_SLE) {
    if (topZeros(a) && topZeros(b)) return mkCmp(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (b->isConst() && cval(b).isZero() && op == E_SLT) return mkExtract(a, w - 1, 1);
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->width == b->a->width) return mkCmp(op, a->a, b->a);
  } else {
    if (b->isConst() && cval(b).isZero()) return op == E_ULT ? mkConst(0, 1) : mkEq(a, b);
    if (a->isConst() && cval(a).isZero() && op == E_ULE) return mkConst(1, 1);
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->a->width, b->a->width); if (m < w) return mkCmp(op, mkZext(a->a, m), mkZext(b->a, m)); }
    if (a->op == E_ZEXT && b->isConst()) { unsigned sw = a->a->width; if (cval(b).getActiveBits() > sw) return mkConst(1, 1); return mkCmp(op, a->a, mkConstW(cval(b).trunc(sw))); }
    if (b->op == E_ZEXT && a->isConst()) { unsigned sw = b->a->width; if (cval(a).getActiveBits() > sw) return mkConst(0, 1); return mkCmp(op, mkConstW(cval(a).trunc(sw)), b->a); }
  }
  return intern(op, 1, a, b, nullptr, 0);
}
ER mkFP(Op op, unsigned w, ER a, ER b, uint64_t imm) {
  if (a->isConst() && (!b || b->isConst())) { bool ok = true; uint64_t r = evalOp(op, w, imm, a->width, a->imm, b ? b->width : 0, b ? b->imm : 0, 0, ok); if (ok) return mkConst(r, w); }
  switch (op) {
    case E_FADD: if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
      if (g_real && isFzero(b)) return a;
      if (b->isConst() && b->imm == (1ull << (w - 1))) return a;   // x + -0.0
      break;
    case E_FSUB: if (isFzero(b) && (b->imm == 0 || g_real)) return a;
      if (g_real && isFzero(a)) return mkFP(E_FNEG, w, b);
      if (a->isConst() && a->imm == (1ull << (w - 1))) return mkFP(E_FNEG, w, b);  // -0 - x
      if (g_real && a == b) return mkConst(0, w);
      break;
    case E_FMUL: if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
      if (b->isConst() && b->imm == one(w)) return a;
      if (b->isConst() && b->imm == (one(w) | (1ull << (w - 1)))) return mkFP(E_FNEG, w, a);
      if (g_real && isFzero(b)) return mkConst(0, w);
      if (a->op == E_FNEG && b->op == E_FNEG) return mkFP(op, w, a->a, b->a);
      break;
    case E_FDIV: if (b->isConst() && b->imm == one(w)) return a; break;
    case E_FNEG: if (a->op == E_FNEG) return a->a; break;
    case E_FABS: if (a->op == E_FNEG || a->op == E_FABS) return mkFP(E_FABS, w, a->a); break;
    case E_FEXT: case E_FTRUNC: if (a->width == w) return a;
      if (op == E_FTRUNC && a->op == E_FEXT && a->a->width == w) return a->a;
      if (g_real && op == E_FEXT && a->op == E_FTRUNC && a->a->width == w) return a->a;
      if (a->op == E_FNEG) return mkFP(E_FNEG, w, mkFP(op, w, a->a));
      break;
    case E_FOEQ: if (a->id > b->id) std::swap(a, b); if (g_real && a == b) return mkConst(1, 1); break;
    case E_FUNO: if (g_real) return mkConst(0, 1); break;
    case E_FOLE: if (g_real && a == b) return mkConst(1, 1); break;
    case E_FOLT: if (a == b) return mkConst(0, 1); break;
    default: break;
  }
  return intern(op, w, a, b, nullptr, imm);
}
ER mk(Op op, unsigned w, ER a, ER b, ER c, uint64_t imm) {
  switch (op) {
    case E_ZEXT: return mkZext(a, w); case E_SEXT: return mkSext(a, w); case E_EXTRACT: return mkExtract(a, imm, w);
    case E_CONCAT: return mkConcat(a, b); case E_ITE: return mkIte(a, b, c);
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: return mkCmp(op, a, b);
    default: if (isBinInt(op)) return mkBin(op, a, b); return mkFP(op, w, a, b, imm);
  }
}
uint64_t Evaluator::eval(ER e) {
  if (e->op == E_CONST) { return e->width <= 64 ? e->imm : cval(e).trunc(64).getZExtValue(); }
  if (e->op == E_SYM) { auto it = m.v.find(e->imm); return it == m.v.end() ? 0 : it->second & maskw(e->width); }
  if (e->width > 64 || (e->a && e->a->width > 64)) return evalW(e).trunc(std::min(64u, (unsigned)e->width)).getZExtValue();
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  uint64_t r;
  if (e->op == E_ITE) r = eval(e->a) ? eval(e->b) : eval(e->c);
  else { uint64_t a = e->a ? eval(e->a) : 0, b = e->b ? eval(e->b) : 0;
    r = evalOp(e->op, e->width, e->imm, e->a ? e->a->width : 0, a, e->b ? e->b->width : 0, b, 0, ok); }
  memo[e] = r; return r;
}
APInt Evaluator::evalW(ER e) {
  if (e->op == E_CONST) return cval(e);
  if (e->width <= 64 && !(e->a && e->a->width > 64)) return APInt(e->width, eval(e));
  auto it = memoW.find(e); if (it != memoW.end()) return it->second;
  APInt r(e->width, 0);
  switch (e->op) {
    case E_SYM: ok = false; break;
    case E_ITE: r = eval(e->a) ? evalW(e->b) : evalW(e->c); break;
    case E_ZEXT: r = evalW(e->a).zext(e->width); break;
    case E_SEXT: r = evalW(e->a).sext(e->width); break;
    case E_EXTRACT: r = evalW(e->a).extractBits(e->width, e->imm); break;
    case E_CONCAT: r = evalW(e->a).zext(e->width).shl(e->b->width) | evalW(e->b).zext(e->width); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = APInt(1, cmpWide(e->op, evalW(e->a), evalW(e->b))); break;
    default: if (isBinInt(e->op)) r = evalWide(e->op, evalW(e->a), evalW(e->b)); else ok = false;
  }
  memoW.emplace(e, r); return r;
}
static const char* opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fext","ftrunc","sitofp","uitofp","fptosi","fptoui","foeq","folt","fole","funo","fround","fuf"};
std::string exprStr(ER e, int d) {
  if (e->op == E_CONST) return e->width <= 64 ? std::to_string(e->imm) + ":" + std::to_string(e->width) : "wide";
  if (e->op == E_SYM) return g_syms[e->imm].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op] + std::to_string(e->width); if (e->op == E_EXTRACT) s += "@" + std::to_string(e->imm);
  for (ER x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
