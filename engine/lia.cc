#include "lia.h"
#include <set>
typedef Lia::W W;
static W p2(unsigned k) { return (W)1 << k; }
z3::expr Lia::num(W v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u); if (n) s.insert(s.begin(), '-'); return ctx.int_val(s.c_str()); }
static const W LIM = (W)1 << 100;
Lia::I Lia::cap(const I& x) { if (x.lo < -LIM || x.hi > LIM) throw Fail(); return x; }
Lia::I Lia::keepU(const I& x, unsigned w) { if (w > 90) throw Fail(); if (x.lo >= 0 && x.hi < p2(w)) return x;
  if (x.lo >= -p2(w) && x.hi < p2(w)) return I{z3::ite(x.e < 0, x.e + num(p2(w)), x.e), 0, p2(w) - 1};
  return I{z3::mod(x.e, num(p2(w))), 0, p2(w) - 1}; }
Lia::I Lia::keepS(const I& x, unsigned w) { if (w > 90) throw Fail(); W h = p2(w - 1); if (x.lo >= -h && x.hi < h) return x;
  if (x.lo >= -h && x.hi < p2(w) + h) { if (x.lo >= -h && x.hi < p2(w)) return I{z3::ite(x.e >= num(h), x.e - num(p2(w)), x.e), -h, h - 1}; }
  I u = keepU(x, w); return I{z3::ite(u.e >= num(h), u.e - num(p2(w)), u.e), -h, h - 1}; }
Lia::I Lia::asU(ER e) { auto it = cu.find(e); if (it != cu.end()) return it->second; I r = keepU(val(e), e->width); cu.emplace(e, r); return r; }
Lia::I Lia::asS(ER e) { auto it = cs.find(e); if (it != cs.end()) return it->second; I r = keepS(val(e), e->width); cs.emplace(e, r); return r; }
Lia::I Lia::divc(const I& x, W c) { auto fl = [&](W a) { W q = a / c; if (a % c && a < 0) q--; return q; }; return I{c == 1 ? x.e : x.e / num(c), fl(x.lo), fl(x.hi)}; } // c > 0: z3's integer division is the floor
Lia::I Lia::modc(const I& x, W c, const I& q) { if (x.lo >= 0 && x.hi < c) return x; return I{x.e - q.e * num(c), 0, c - 1}; }
Lia::I Lia::mul(const I& a, const I& b) { if (a.lo != a.hi && b.lo != b.hi) throw Fail(); W m = (W)1 << 62; if (a.lo < -m || a.hi > m || b.lo < -m || b.hi > m) throw Fail();
  W c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; return I{a.e * b.e, *std::min_element(c, c + 4), *std::max_element(c, c + 4)}; }
Lia::I Lia::val(ER e) { auto it = ci.find(e); if (it != ci.end()) return it->second; I r = cap(raw(e)); ci.emplace(e, r); return r; }
static bool cst(ER e, uint64_t& v) { if (!e->isConst() || e->width > 64) return false; v = e->imm & maskw(e->width); return true; }
// any value at all: enough for unsatisfiability; a model is checked against the real expression afterwards
Lia::I Lia::opaque(ER e) { W h = p2(e->width - 1); z3::expr x = ctx.int_const(("o" + std::to_string(e->id)).c_str()); side.push_back(x >= num(-h) && x < num(h)); return I{x, -h, h - 1}; }
Lia::I Lia::raw(ER e) {
  unsigned w = e->width; uint64_t k;
  if (w == 1 && e->op != E_CONST && e->op != E_SYM) { z3::expr b = B(e); return I{z3::ite(b, ctx.int_val(1), ctx.int_val(0)), 0, 1}; }
  switch (e->op) {
    case E_CONST: if (w > 64) throw Fail(); { int64_t s = sextw(e->imm, w); return I{num(s), s, s}; }
    case E_SYM: { auto it = syms.find(e->imm); if (it == syms.end()) { z3::expr x = ctx.int_const(("i" + std::to_string(e->imm)).c_str()); it = syms.emplace(e->imm, x).first; if (w > 64) throw Fail(); side.push_back(x >= 0 && x <= num(p2(w) - 1)); } return I{it->second, 0, p2(w) - 1}; }
    case E_ADD: { I a = val(e->a), b = val(e->b); return I{a.e + b.e, a.lo + b.lo, a.hi + b.hi}; }
    case E_SUB: { I a = val(e->a), b = val(e->b); return I{a.e - b.e, a.lo - b.lo, a.hi - b.hi}; }
    case E_MUL: return mul(val(e->a), val(e->b));
    case E_UDIV: case E_UREM: case E_SDIV: case E_SREM: {
      ER b = e->b; if (b->op == E_ZEXT || b->op == E_SEXT) b = b->a; // a choice of divisors: divide in each branch
      if (b->op == E_ITE && b->width > 1) { auto br = [&](ER d) { if (e->b->op == E_ZEXT) d = mkZext(d, w); else if (e->b->op == E_SEXT) d = mkSext(d, w); return mkBin(e->op, e->a, d); }; I p = val(br(b->b)), q = val(br(b->c)); return I{z3::ite(B(b->a), p.e, q.e), std::min(p.lo, q.lo), std::max(p.hi, q.hi)}; }
      if (!cst(e->b, k)) return opaque(e);
      if (e->op == E_SDIV || e->op == E_SREM) goto sgn; if (!cst(e->b, k) || !k) throw Fail(); I a = asU(e->a), q = divc(a, k); return e->op == E_UDIV ? q : modc(a, k, q); }
    sgn: { if (!cst(e->b, k) || sextw(k, w) <= 0) throw Fail(); I a = asS(e->a); W c = (W)k; 
      I q = divc(a, c); if (a.lo < 0) { I n{-a.e, -a.hi, -a.lo}; I qn = divc(n, c); q = I{z3::ite(a.e >= 0, q.e, -qn.e), -(-a.lo / c), a.hi >= 0 ? a.hi / c : 0}; }
      return e->op == E_SDIV ? q : (a.lo >= 0 ? modc(a, c, q) : I{a.e - q.e * num(c), -(c - 1), c - 1}); }
    case E_ZEXT: return asU(e->a);
    case E_SEXT: return asS(e->a);
    case E_EXTRACT: if (e->imm == 0) return keepU(val(e->a), w); return keepU(divc(asU(e->a), p2((unsigned)e->imm)), w);
    case E_CONCAT: { I h = asU(e->a), l = asU(e->b); W s = p2(e->b->width); return I{h.e * num(s) + l.e, h.lo * s + l.lo, h.hi * s + l.hi}; }
    case E_SHL: { if (!cst(e->b, k) || k >= w) throw Fail(); I a = asU(e->a); W s = p2((unsigned)k); return I{a.e * num(s), a.lo * s, a.hi * s}; }
    case E_LSHR: { if (!cst(e->b, k) || k >= w) throw Fail(); return divc(asU(e->a), p2((unsigned)k)); }
    case E_ASHR: { if (!cst(e->b, k) || k >= w) throw Fail(); return divc(asS(e->a), p2((unsigned)k)); }
    case E_AND: { ER x = e->a, y = e->b; if (cst(x, k)) std::swap(x, y); if (!cst(y, k) || (k & (k + 1))) throw Fail(); unsigned n = k ? 64 - __builtin_clzll(k) : 0; if (!n) return I{ctx.int_val(0), 0, 0}; I a = asU(x); if (a.hi < p2(n)) return a; return I{z3::mod(a.e, num(p2(n))), 0, p2(n) - 1}; }
    case E_XOR: if (cst(e->b, k) && k == maskw(w)) { I a = asS(e->a); return I{-a.e - 1, -a.hi - 1, -a.lo - 1}; } throw Fail();
    case E_ITE: { I a = val(e->b), b = val(e->c); return I{z3::ite(B(e->a), a.e, b.e), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    case E_FPTOSI: { I a = fp(e->a); W h = p2(w - 1); if (a.lo < -h || a.hi >= h) throw Fail(); return a; }
    default: if (getenv("SYMX_DBG")) fprintf(stderr, "lia: op %d width %d\n", (int)e->op, (int)e->width); throw Fail();
  }
}
Lia::I Lia::fit(I x, unsigned w) { W m = p2(w == 32 ? 24 : 53); if (x.lo < -m || x.hi > m) throw Fail(); return x; }
Lia::I Lia::fp(ER e) { auto it = cf.find(e); if (it != cf.end()) return it->second; I r = fit(fpraw(e), e->width); cf.emplace(e, r); return r; }
Lia::I Lia::fpraw(ER e) {
  unsigned w = e->width; if (w != 32 && w != 64) throw Fail();
  switch (e->op) {
    case E_CONST: { double d = w == 32 ? b2f(e->imm) : b2d(e->imm); if (!(std::fabs(d) < 9e15) || d != std::floor(d)) throw Fail(); return I{num((W)(long long)d), (W)(long long)d, (W)(long long)d}; }
    case E_SITOFP: return asS(e->a);
    case E_UITOFP: return asU(e->a);
    case E_FADD: { I a = fp(e->a), b = fp(e->b); return I{a.e + b.e, a.lo + b.lo, a.hi + b.hi}; }
    case E_FSUB: { I a = fp(e->a), b = fp(e->b); return I{a.e - b.e, a.lo - b.lo, a.hi - b.hi}; }
    case E_FMUL: return mul(fp(e->a), fp(e->b));
    case E_FNEG: { I a = fp(e->a); return I{-a.e, -a.hi, -a.lo}; }
    case E_FEXT: case E_FTRUNC: return fp(e->a);
    case E_ITE: { I a = fp(e->b), b = fp(e->c); return I{z3::ite(B(e->a), a.e, b.e), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    default: if (getenv("SYMX_DBG")) fprintf(stderr, "lia: op %d width %d\n", (int)e->op, (int)e->width); throw Fail();
  }
}
z3::expr Lia::B(ER e) { auto it = cb.find(e); if (it != cb.end()) return it->second; z3::expr r = braw(e); cb.emplace(e, r); return r; }
z3::expr Lia::braw(ER e) {
  switch (e->op) {
    case E_CONST: return ctx.bool_val(e->imm & 1);
    case E_SYM: return val(e).e == 1;
    case E_AND: return B(e->a) && B(e->b);
    case E_OR: return B(e->a) || B(e->b);
    case E_XOR: return B(e->a) != B(e->b);
    case E_ADD: case E_SUB: return B(e->a) != B(e->b);
    case E_ITE: return z3::ite(B(e->a), B(e->b), B(e->c));
    case E_EQ: { if (e->a->width == 1) return B(e->a) == B(e->b); I a = val(e->a), b = val(e->b); W m = p2(e->a->width - 1);
      if (a.lo >= -m && b.lo >= -m && a.hi < m && b.hi < m) return a.e == b.e; return asU(e->a).e == asU(e->b).e; }
    case E_ULT: return asU(e->a).e < asU(e->b).e; case E_ULE: return asU(e->a).e <= asU(e->b).e;
    case E_SLT: return asS(e->a).e < asS(e->b).e; case E_SLE: return asS(e->a).e <= asS(e->b).e;
    case E_FOEQ: return fp(e->a).e == fp(e->b).e; case E_FOLT: return fp(e->a).e < fp(e->b).e; case E_FOLE: return fp(e->a).e <= fp(e->b).e;
    case E_FUNO: fp(e->a); fp(e->b); return ctx.bool_val(false);
    case E_EXTRACT: { I x = e->imm ? divc(asU(e->a), p2((unsigned)e->imm)) : asU(e->a); return z3::mod(x.e, ctx.int_val(2)) == 1; }
    default: if (getenv("SYMX_DBG")) fprintf(stderr, "lia: op %d width %d\n", (int)e->op, (int)e->width); throw Fail();
  }
}
bool wantsLia(const std::vector<ER>& cs, bool fpa) {
  std::set<ER> seen; std::vector<ER> st(cs.begin(), cs.end());
  while (!st.empty()) { ER x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if ((x->op == E_UDIV || x->op == E_SDIV || x->op == E_UREM || x->op == E_SREM) && x->width <= 64 && (x->b->isConst() ? (x->b->imm & (x->b->imm - 1)) != 0 : (x->b->op == E_ITE || (x->b->a && x->b->a->op == E_ITE)))) return true;
    if (fpa && (x->op == E_SITOFP || x->op == E_UITOFP) && x->a->width > 8) return true;
    if (seen.size() > 20000) return false;
    for (ER k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
  return false;
}
