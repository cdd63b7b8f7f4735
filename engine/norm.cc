// Normal form of bit-vector terms as exact integer polynomials. A w-bit term t is represented by a polynomial P over
// atoms (symbols, opaque terms, floors) whose integer value is t read as an unsigned number. Wrap-around, masks and
// right shifts become floors: t mod 2^k = P - 2^k*floor(P/2^k). floor(P/2^k) is an atom named by the coefficients of P
// modulo 2^k (the multiples are taken out) and floor((A + floor(B/2^j))/2^k) = floor((2^j*A + B)/2^(j+k)). Equal
// polynomials therefore mean equal terms; the converse need not hold.
#include "norm.h"
typedef __int128 I; typedef unsigned __int128 U;
struct Bail {};
static I mulx(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Bail(); return r; }
static I addx(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Bail(); return r; }
static void acc(Poly& p, const Mono& m, I c) { if (!c) return; auto it = p.find(m); if (it == p.end()) { p.emplace(m, c); if (p.size() > 3000) throw Bail(); } else { it->second = addx(it->second, c); if (!it->second) p.erase(it); } }
static Poly add(const Poly& a, const Poly& b, I k = 1) { Poly r = a; for (auto& t : b) acc(r, t.first, mulx(t.second, k)); return r; }
static Poly scale(const Poly& a, I k) { Poly r; if (k) for (auto& t : a) r.emplace(t.first, mulx(t.second, k)); return r; }
static Poly mul(const Poly& a, const Poly& b) { Poly r; if (a.size() * b.size() > 20000) throw Bail(); for (auto& x : a) for (auto& y : b) { Mono m(x.first); m.insert(m.end(), y.first.begin(), y.first.end()); if (m.size() > 8) throw Bail(); std::sort(m.begin(), m.end()); acc(r, m, mulx(x.second, y.second)); } return r; }
static Poly cst(I c) { Poly p; if (c) p.emplace(Mono(), c); return p; }
static Poly var(int a) { Poly p; p.emplace(Mono(1, a), 1); return p; }
static std::string ser(const Poly& p) { std::string s; for (auto& t : p) { s.append((const char*)&t.second, sizeof(I)); int n = t.first.size(); s.append((const char*)&n, 4); s.append((const char*)t.first.data(), n * 4); } return s; }
static I pw(unsigned k) { if (k > 120) throw Bail(); return (I)1 << k; }
int Norm::intern(const std::string& s) { auto it = ids.find(s); if (it != ids.end()) return it->second; int n = ids.size(); ids.emplace(s, n); return n; }
int Norm::atom(const std::string& name) { return intern("a" + name); }
// floor(P / 2^k)
Poly Norm::floorp(Poly p, unsigned k) {
  if (!k) return p;
  Poly out;
  for (;;) {
    I m = pw(k); Poly q, r; for (auto& t : p) { I c = t.second % m; if (c < 0) c += m; I d = (t.second - c) / m; if (c) r.emplace(t.first, c); if (d) q.emplace(t.first, d); }
    out = add(out, q); if (r.empty()) return out;
    if (r.size() == 1 && r.begin()->first.empty()) return out;      // a constant below 2^k
    const Mono* hit = nullptr; for (auto& t : r) if (t.first.size() == 1 && t.second == 1 && floors.count(t.first[0])) { hit = &t.first; break; }
    if (!hit) { p = r; break; }
    auto& f = floors[(*hit)[0]]; Poly rest = r; rest.erase(*hit); p = add(scale(rest, pw(f.second)), f.first); k += f.second;
  }
  int a = atom("F" + std::to_string(k) + ser(p)); floors.emplace(a, std::make_pair(p, k)); return add(out, var(a));
}
const Norm::N& Norm::node(ER e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  N n; unsigned w = e->width; U top = w < 120 ? ((U)1 << w) - 1 : ~(U)0; n.lo = 0; n.hi = top;
  if (e->op == E_CONST && w <= 64) { n.p = cst((I)(U)e->imm); n.lo = n.hi = e->imm; }
  else {
    bool done = false;
    if (w <= 64 && w > 1) try { done = arith(e, n); } catch (Bail&) { n.p.clear(); n.lo = 0; n.hi = top; }
    if (!done) {
      std::string s = "O"; s += (char)e->op; s += std::to_string(w) + "." + std::to_string(e->imm) + ".";
      if (e->op == E_CONST) s += "#" + std::to_string(e->id); else if (e->op == E_SYM) s += "$";
      if ((e->op == E_UITOFP || e->op == E_SITOFP) && e->a->width <= 64 && e->a->width > 1 && (e->op == E_UITOFP || !(node(e->a).hi >> (e->a->width - 1)))) s = "OU" + std::to_string(w) + ser(node(e->a).p); else {
      std::vector<int> ks; for (ER k : {e->a, e->b, e->c}) if (k) ks.push_back(node(k).key);
      if (ks.size() == 2 && (e->op == E_ADD || e->op == E_MUL || e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_EQ || e->op == E_FADD || e->op == E_FMUL)) std::sort(ks.begin(), ks.end());
      for (int k : ks) s += std::to_string(k) + ","; }
      n.p = var(atom(s)); if (e->op == E_ITE && w <= 64 && w > 1) { const N &b = node(e->b), &c = node(e->c); n.lo = std::min(b.lo, c.lo); n.hi = std::max(b.hi, c.hi); }
    }
  }
  n.key = intern("p" + std::to_string(w) + ":" + ser(n.p));
  return memo.emplace(e, n).first->second;
}
bool Norm::arith(ER e, N& n) {
  unsigned w = e->width; U top = ((U)1 << w) - 1;
  auto wrap = [&](Poly p, U lo, U hi) { if (lo >> w == hi >> w) { n.p = add(p, cst((I)(lo >> w << w)), -1); n.lo = lo & top; n.hi = hi & top; } else { n.p = add(p, floorp(p, w), -pw(w)); n.lo = 0; n.hi = top; } return true; };
  auto low = [&](const Poly& p, U lo, U hi, unsigned k) { if (lo >> k == hi >> k) { n.p = add(p, cst((I)(lo >> k << k)), -1); n.lo = lo & (((U)1 << k) - 1); n.hi = hi & (((U)1 << k) - 1); } else { n.p = add(p, floorp(p, k), -pw(k)); n.lo = 0; n.hi = ((U)1 << k) - 1; } return true; };
  auto shr = [&](const Poly& p, U lo, U hi, unsigned k) { n.lo = lo >> k; n.hi = hi >> k; n.p = n.lo == n.hi ? cst((I)n.lo) : floorp(p, k); return true; };
  switch (e->op) {
    case E_ADD: { const N a = node(e->a), b = node(e->b); return wrap(add(a.p, b.p), a.lo + b.lo, a.hi + b.hi); }
    case E_SUB: { const N a = node(e->a), b = node(e->b); if (a.lo >= b.hi) { n.p = add(a.p, b.p, -1); n.lo = a.lo - b.hi; n.hi = a.hi - b.lo; return true; } U off = (U)1 << w; return wrap(add(add(a.p, b.p, -1), cst((I)off)), a.lo + off - b.hi, a.hi + off - b.lo); }
    case E_MUL: { const N a = node(e->a), b = node(e->b); return wrap(mul(a.p, b.p), a.lo * b.lo, a.hi * b.hi); }
    case E_ZEXT: { if (e->a->width == 1) return false; const N& a = node(e->a); n.p = a.p; n.lo = a.lo; n.hi = a.hi; return true; }
    case E_SEXT: { if (e->a->width == 1) return false; const N a = node(e->a); unsigned v = e->a->width; if (a.hi >> (v - 1) == 0) { n.p = a.p; n.lo = a.lo; n.hi = a.hi; return true; }
      n.p = add(a.p, floorp(a.p, v - 1), (I)(((U)1 << w) - ((U)1 << v))); return true; }
    case E_SHL: { if (!e->b->isConst() || e->b->imm >= w) return false; const N a = node(e->a); unsigned k = e->b->imm; return wrap(scale(a.p, pw(k)), a.lo << k, a.hi << k); }
    case E_ASHR: if (node(e->a).hi >> (w - 1)) return false; // fallthrough
    case E_LSHR: { if (!e->b->isConst() || e->b->imm >= w) return false; const N a = node(e->a); return shr(a.p, a.lo, a.hi, e->b->imm); }
    case E_SDIV: case E_SREM: if (node(e->a).hi >> (w - 1)) return false; if (!e->b->isConst() || e->b->imm >> (w - 1)) return false; // fallthrough
    case E_UDIV: case E_UREM: { if (!e->b->isConst() || !e->b->imm || (e->b->imm & (e->b->imm - 1))) return false; unsigned k = __builtin_ctzll(e->b->imm); const N a = node(e->a); return e->op == E_UDIV || e->op == E_SDIV ? shr(a.p, a.lo, a.hi, k) : low(a.p, a.lo, a.hi, k); }
    case E_EXTRACT: { if (e->a->width > 64) return false; const N a = node(e->a); unsigned k = e->imm; N t; std::swap(t, n); shr(a.p, a.lo, a.hi, k); Poly p = n.p; U lo = n.lo, hi = n.hi; return low(p, lo, hi, w); }
    case E_CONCAT: { if (e->a->width == 1 && false) return false; const N a = node(e->a), b = node(e->b); if (e->a->width == 1 || e->b->width == 1) return false; unsigned k = e->b->width; n.p = add(scale(a.p, pw(k)), b.p); n.lo = (a.lo << k) + b.lo; n.hi = (a.hi << k) + b.hi; return true; }
    case E_AND: { ER x = e->a, y = e->b; if (x->isConst()) std::swap(x, y); if (!y->isConst()) return false; uint64_t m = y->imm; const N a = node(x); uint64_t inv = ~m & (uint64_t)top;
      if ((m & (m + 1)) == 0) { unsigned k = m ? 64 - __builtin_clzll(m) : 0; if (!k) { n.p.clear(); n.lo = n.hi = 0; return true; } if (k == w) { n = a; return true; } return low(a.p, a.lo, a.hi, k); }
      unsigned z = __builtin_ctzll(m); uint64_t sh = m >> z; if ((sh & (sh + 1)) == 0) { unsigned k = 64 - __builtin_clzll(sh); shr(a.p, a.lo, a.hi, z); Poly p = n.p; U lo = n.lo, hi = n.hi; low(p, lo, hi, k); n.p = scale(n.p, pw(z)); n.lo <<= z; n.hi <<= z; (void)inv; return true; }
      return false; }
    case E_OR: case E_XOR: { for (int sw = 0; sw < 2; sw++) { const N a = node(sw ? e->b : e->a), b = node(sw ? e->a : e->b); if (!b.hi) { n = a; return true; } unsigned k = 0; while (b.hi >> k) k++; bool div = true; for (auto& t : a.p) if (t.second % pw(k)) { div = false; break; }
        if (div) { n.p = add(a.p, b.p); n.lo = a.lo + b.lo; n.hi = a.hi + b.hi; if (n.hi > top) n.hi = top; return true; } }
      if (e->op == E_XOR && e->b->isConst() && e->b->imm == (uint64_t)top) { const N a = node(e->a); n.p = add(cst((I)top), a.p, -1); n.lo = top - a.hi; n.hi = top - a.lo; return true; }
      return false; }
    default: return false; }
}
// boolean terms: decided comparisons become constants
ER Norm::simp(ER e) {
  if (e->width != 1 || e->isConst()) return e;
  auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
  ER r = e; ER T = mkConst(1, 1), Fa = mkConst(0, 1);
  switch (e->op) {
    case E_AND: { ER a = simp(e->a); r = a->isConst() && !a->imm ? Fa : mkAnd1(a, simp(e->b)); break; }
    case E_OR: { ER a = simp(e->a); r = a->isConst() && a->imm ? T : mkOr1(a, simp(e->b)); break; }
    case E_XOR: if (e->b->isConst()) { ER a = simp(e->a); r = e->b->imm ? mkNot(a) : a; } break;
    case E_EQ: if (e->a->width == 1) break; { const N a = node(e->a), b = node(e->b); if (a.key == b.key) r = T; else if (a.hi < b.lo || b.hi < a.lo) r = Fa; else { int g = gf.equal(e->a, e->b); if (g == 1) r = T; else if (g == 0) r = Fa; } } break;
    case E_SLT: case E_SLE: { unsigned w = e->a->width; if (w > 64) break; if (node(e->a).hi >> (w - 1) || node(e->b).hi >> (w - 1)) break; } // fallthrough
    case E_ULT: case E_ULE: { if (e->a->width > 64 || e->a->width == 1) break; const N a = node(e->a), b = node(e->b); bool strict = e->op == E_SLT || e->op == E_ULT;
      if (strict) { if (a.hi < b.lo) r = T; else if (a.lo >= b.hi || a.key == b.key) r = Fa; } else { if (a.hi <= b.lo || a.key == b.key) r = T; else if (a.lo > b.hi) r = Fa; } break; }
    default: break; }
  return bmemo[e] = r;
}
