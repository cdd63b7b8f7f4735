#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include "solve.h"
#include "lia.h"
#include <chrono>
#include <cstdio>
#include <fstream>
#include <llvm/ADT/SmallString.h>
using z3::expr;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Solver::Solver(Mode m, unsigned to) : mode(m), timeoutMs(to) {}

static bool fpLike(ER e) { return isFPop(e) && (e->width == 32 || e->width == 64); }
static bool realConvertible(ER e) { // value has a meaningful reading as a real number
  if (fpLike(e)) return true;
  if (e->op == E_CONST && (e->width == 32 || e->width == 64)) { return true; }
  return false;
}

expr Solver::opaqueV(ER e) { auto it = cV.find(e); if (it != cV.end()) return expr(ctx, it->second);
  return put(cV, e, ctx.bv_const(("ov" + std::to_string(e->id)).c_str(), e->width)); }
expr Solver::opaqueR(ER e) { auto it = cR.find(e); if (it != cR.end()) return expr(ctx, it->second);
  return put(cR, e, ctx.real_const(("or" + std::to_string(e->id)).c_str())); }

expr Solver::B(ER e) {
  auto it = cB.find(e); if (it != cB.end()) return expr(ctx, it->second);
  switch (e->op) {
    case E_CONST: return put(cB, e, ctx.bool_val(e->imm != 0));
    case E_AND: return put(cB, e, B(e->a) && B(e->b));
    case E_OR: return put(cB, e, B(e->a) || B(e->b));
    case E_XOR: if (e->b->isConst()) return put(cB, e, e->b->imm ? !B(e->a) : B(e->a)); return put(cB, e, B(e->a) != B(e->b));
    case E_ITE: return put(cB, e, z3::ite(B(e->a), B(e->b), B(e->c)));
    case E_EQ:
      if (mode == M_REAL && (e->a->width == 32 || e->a->width == 64) && (fpLike(e->a) || fpLike(e->b)) && realConvertible(e->a) && realConvertible(e->b))
        return put(cB, e, R(e->a) == R(e->b));
      if (e->a->width == 1) return put(cB, e, B(e->a) == B(e->b));
      return put(cB, e, V(e->a) == V(e->b));
    case E_ULT: return put(cB, e, z3::ult(V(e->a), V(e->b)));
    case E_ULE: return put(cB, e, z3::ule(V(e->a), V(e->b)));
    case E_SLT: return put(cB, e, z3::slt(V(e->a), V(e->b)));
    case E_SLE: return put(cB, e, z3::sle(V(e->a), V(e->b)));
    case E_FOEQ: if (mode == M_REAL) return put(cB, e, R(e->a) == R(e->b)); return put(cB, e, expr(ctx, Z3_mk_fpa_eq(ctx, F(e->a), F(e->b))));
    case E_FOLT: if (mode == M_REAL) return put(cB, e, R(e->a) < R(e->b)); return put(cB, e, expr(ctx, Z3_mk_fpa_lt(ctx, F(e->a), F(e->b))));
    case E_FOLE: if (mode == M_REAL) return put(cB, e, R(e->a) <= R(e->b)); return put(cB, e, expr(ctx, Z3_mk_fpa_leq(ctx, F(e->a), F(e->b))));
    case E_FUNO: if (mode == M_REAL) return put(cB, e, ctx.bool_val(false));
      return put(cB, e, expr(ctx, Z3_mk_fpa_is_nan(ctx, F(e->a))) || expr(ctx, Z3_mk_fpa_is_nan(ctx, F(e->b))));
    default: return put(cB, e, V(e) == ctx.bv_val(1, 1));
  }
}
expr Solver::V(ER e) {
  auto it = cV.find(e); if (it != cV.end()) return expr(ctx, it->second);
  unsigned w = e->width;
  switch (e->op) {
    case E_CONST: if (w <= 64) return put(cV, e, ctx.bv_val((uint64_t)e->imm, w));
      { llvm::SmallString<64> s; e->wide->toString(s, 10, false); return put(cV, e, ctx.bv_val(s.c_str(), w)); }
    case E_SYM: { expr x = ctx.bv_const(("v" + std::to_string(e->imm)).c_str(), w); symV[e->imm] = x; return put(cV, e, x); }
    case E_ADD: return put(cV, e, V(e->a) + V(e->b));
    case E_SUB: return put(cV, e, V(e->a) - V(e->b));
    case E_MUL: return put(cV, e, V(e->a) * V(e->b));
    case E_UDIV: return put(cV, e, z3::udiv(V(e->a), V(e->b)));
    case E_SDIV: return put(cV, e, V(e->a) / V(e->b));
    case E_UREM: return put(cV, e, z3::urem(V(e->a), V(e->b)));
    case E_SREM: return put(cV, e, z3::srem(V(e->a), V(e->b)));
    case E_AND: if (w == 1) return put(cV, e, z3::ite(B(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1))); return put(cV, e, V(e->a) & V(e->b));
    case E_OR: if (w == 1) return put(cV, e, z3::ite(B(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1))); return put(cV, e, V(e->a) | V(e->b));
    case E_XOR: if (w == 1) return put(cV, e, z3::ite(B(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1))); return put(cV, e, V(e->a) ^ V(e->b));
    case E_SHL: return put(cV, e, z3::shl(V(e->a), V(e->b)));
    case E_LSHR: return put(cV, e, z3::lshr(V(e->a), V(e->b)));
    case E_ASHR: return put(cV, e, z3::ashr(V(e->a), V(e->b)));
    case E_ZEXT: if (e->a->width == 1) return put(cV, e, z3::ite(B(e->a), ctx.bv_val(1, w), ctx.bv_val(0, w))); return put(cV, e, z3::zext(V(e->a), w - e->a->width));
    case E_SEXT: return put(cV, e, z3::sext(V(e->a), w - e->a->width));
    case E_EXTRACT: return put(cV, e, V(e->a).extract(e->imm + w - 1, e->imm));
    case E_CONCAT: return put(cV, e, z3::concat(V(e->a), V(e->b)));
    case E_ITE: return put(cV, e, z3::ite(B(e->a), V(e->b), V(e->c)));
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FOEQ: case E_FOLT: case E_FOLE: case E_FUNO:
      return put(cV, e, z3::ite(B(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1)));
    case E_FPTOSI: if (mode == M_FPA) return put(cV, e, expr(ctx, Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_round_toward_zero(ctx), F(e->a), w))); return opaqueV(e);
    case E_FPTOUI: if (mode == M_FPA) return put(cV, e, expr(ctx, Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_round_toward_zero(ctx), F(e->a), w))); return opaqueV(e);
    default: // FP-valued
      if (mode == M_FPA) {
        if (e->op == E_FNEG) return put(cV, e, V(e->a) ^ ctx.bv_val((uint64_t)1 << (w - 1), w));
        if (e->op == E_FABS) return put(cV, e, V(e->a) & ctx.bv_val((uint64_t)(maskw(w) >> 1), w));
        return put(cV, e, expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, F(e))));
      }
      return opaqueV(e);
  }
}
expr Solver::Rconst(double d) {
  if (std::isnan(d) || std::isinf(d)) { return ctx.real_const(std::isnan(d) ? "c_nan" : d > 0 ? "c_pinf" : "c_ninf"); }
  int ex; double m = frexp(d, &ex); int64_t mi = (int64_t)ldexp(m, 53); ex -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; ex++; }
  if (mi == 0) return ctx.real_val(0);
  std::string s = std::to_string(mi); z3::expr r = ctx.real_val(s.c_str());
  auto p2 = [&](int k) { llvm::APInt x(1100, 1); x <<= k; llvm::SmallString<400> t; x.toString(t, 10, false); return std::string(t.c_str()); };
  if (ex >= 0) return r * ctx.real_val(p2(ex).c_str());
  return ctx.real_val((s + "/" + p2(-ex)).c_str());
}
expr Solver::R(ER e) {
  auto it = cR.find(e); if (it != cR.end()) return expr(ctx, it->second);
  unsigned w = e->width;
  switch (e->op) {
    case E_CONST: return put(cR, e, Rconst(w == 32 ? b2f(e->imm) : b2d(e->imm)).simplify());
    case E_SYM: { expr x = ctx.real_const(("r" + std::to_string(e->imm)).c_str()); symR[e->imm] = x; return put(cR, e, x); }
    case E_FADD: return put(cR, e, R(e->a) + R(e->b));
    case E_FSUB: return put(cR, e, R(e->a) - R(e->b));
    case E_FMUL: return put(cR, e, R(e->a) * R(e->b));
    case E_FDIV: return put(cR, e, R(e->a) / R(e->b));
    case E_FNEG: return put(cR, e, -R(e->a));
    case E_FABS: { expr x = R(e->a); return put(cR, e, z3::ite(x >= 0, x, -x)); }
    case E_FEXT: case E_FTRUNC: return put(cR, e, R(e->a));
    case E_ITE: return put(cR, e, z3::ite(B(e->a), R(e->b), R(e->c)));
    case E_FSQRT: { z3::func_decl f = z3::function("Sqrt", ctx.real_sort(), ctx.real_sort()); return put(cR, e, f(R(e->a))); }
    case E_FUF: { std::string n = "uf_" + g_ufs[e->imm];
      if (e->b) { z3::func_decl f = z3::function(n.c_str(), ctx.real_sort(), ctx.real_sort(), ctx.real_sort()); return put(cR, e, f(R(e->a), R(e->b))); }
      z3::func_decl f = z3::function(n.c_str(), ctx.real_sort(), ctx.real_sort()); return put(cR, e, f(R(e->a))); }
    case E_FROUND: { std::string n = "rnd_" + std::to_string(e->imm); z3::func_decl f = z3::function(n.c_str(), ctx.real_sort(), ctx.real_sort()); return put(cR, e, f(R(e->a))); }
    case E_SITOFP: case E_UITOFP: {
      ER x = e->a; bool sg = e->op == E_SITOFP;
      if (sg && x->op == E_ZEXT) sg = false;
      if (x->op == E_ITE && x->b->isConst() && x->c->isConst()) { bool ok = true;
        auto cv = [&](ER k) { return Rconst(b2d(evalOp(e->op, 64, 0, k->width, k->imm, 0, 0, 0, ok))); };
        return put(cR, e, z3::ite(B(x->a), cv(x->b), cv(x->c))); }
      if (x->width == 1 || (x->op == E_ZEXT && x->a->width == 1)) { ER y = x->width == 1 ? x : x->a; return put(cR, e, z3::ite(B(y), ctx.real_val(x->width == 1 && sg ? -1 : 1), ctx.real_val(0))); }
      expr i(ctx, Z3_mk_bv2int(ctx, V(x), sg)); return put(cR, e, expr(ctx, Z3_mk_int2real(ctx, i))); }
    case E_XOR: if (e->b->isConst() && e->b->imm == (1ull << (w - 1))) return put(cR, e, -R(e->a)); return opaqueR(e);
    case E_AND: case E_ZEXT: // sign bit cleared: |x|
      if (e->op == E_ZEXT && e->a->op == E_EXTRACT && e->a->imm == 0 && e->a->width == w - 1 && e->a->a->width == w && fpLike(e->a->a)) { expr x = R(e->a->a); return put(cR, e, z3::ite(x >= 0, x, -x)); }
      return opaqueR(e);
    default: return opaqueR(e);
  }
}
expr Solver::F(ER e) {
  auto it = cF.find(e); if (it != cF.end()) return expr(ctx, it->second);
  z3::sort s = e->width == 32 ? ctx.fpa_sort(8, 24) : ctx.fpa_sort(11, 53);
  auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast, Z3_ast)) { return expr(ctx, f(ctx, RNE(), F(e->a), F(e->b))); };
  switch (e->op) {
    case E_FADD: return put(cF, e, bin(Z3_mk_fpa_add));
    case E_FSUB: return put(cF, e, bin(Z3_mk_fpa_sub));
    case E_FMUL: return put(cF, e, bin(Z3_mk_fpa_mul));
    case E_FDIV: return put(cF, e, bin(Z3_mk_fpa_div));
    case E_FNEG: return put(cF, e, expr(ctx, Z3_mk_fpa_neg(ctx, F(e->a))));
    case E_FABS: return put(cF, e, expr(ctx, Z3_mk_fpa_abs(ctx, F(e->a))));
    case E_FSQRT: return put(cF, e, expr(ctx, Z3_mk_fpa_sqrt(ctx, RNE(), F(e->a))));
    case E_FEXT: case E_FTRUNC: return put(cF, e, expr(ctx, Z3_mk_fpa_to_fp_float(ctx, RNE(), F(e->a), s)));
    case E_SITOFP: return put(cF, e, expr(ctx, Z3_mk_fpa_to_fp_signed(ctx, RNE(), V(e->a), s)));
    case E_UITOFP: return put(cF, e, expr(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, RNE(), V(e->a), s)));
    case E_FROUND: { Z3_ast rm = e->imm == 0 ? Z3_mk_fpa_round_toward_negative(ctx) : e->imm == 1 ? Z3_mk_fpa_round_toward_positive(ctx) : e->imm == 2 ? Z3_mk_fpa_round_toward_zero(ctx) : e->imm == 3 ? Z3_mk_fpa_round_nearest_ties_to_even(ctx) : Z3_mk_fpa_round_nearest_ties_to_away(ctx);
      return put(cF, e, expr(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, F(e->a)))); }
    case E_ITE: return put(cF, e, z3::ite(B(e->a), F(e->b), F(e->c)));
    case E_FREM: case E_FUF: return put(cF, e, expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, opaqueV(e), s)));
    default: return put(cF, e, expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, V(e), s)));
  }
}
const std::vector<uint64_t>& Solver::symsOf(ER e) {
  auto it = symCache.find(e); if (it != symCache.end()) return it->second;
  std::set<uint64_t> out; std::unordered_map<ER, bool> seen; std::vector<ER> st{e};
  while (!st.empty()) { ER x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = true;
    if (x->op == E_SYM) out.insert(x->imm);
    for (ER k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
  return symCache[e] = std::vector<uint64_t>(out.begin(), out.end());
}
bool Solver::hasFP(ER e, std::set<ER>& seen) {
  std::vector<ER> st{e};
  while (!st.empty()) { ER x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->op >= E_FADD && x->op != E_FPTOSI && x->op != E_FPTOUI) return true;
    if (x->op >= E_FADD) return true;
    for (ER k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
  return false;
}
// Quick search for a satisfying assignment with small values; a hit is an exact model.
bool Solver::probe(const std::vector<ER>& cs, Model* m, int tries) {
  std::set<uint64_t> syms; for (ER c : cs) for (uint64_t s : symsOf(c)) syms.insert(s);
  for (int t = 0; t < tries; t++) {
    Model mm;
    for (uint64_t s : syms) {
      uint64_t v;
      if (g_syms[s].kind == 1) v = f2b((float)((int)(rnd() % 9) - 4)); else if (g_syms[s].kind == 2) v = d2b((double)((int)(rnd() % 9) - 4));
      else if (g_syms[s].kind == 3 && (g_syms[s].width == 32 || g_syms[s].width == 64)) v = g_syms[s].width == 32 ? f2b((float)((int)(rnd() % 9) - 4)) : d2b((double)((int)(rnd() % 9) - 4));
      else v = (t & 1 ? rnd() : rnd() % 5) & maskw(std::min(64u, g_syms[s].width));
      mm.v[s] = v;
    }
    Evaluator ev(mm); bool ok = true; struct Tol { Tol() { g_tolEq = true; } ~Tol() { g_tolEq = false; } } tol;
    for (ER c : cs) { if (!(ev.eval(c) & 1) || !ev.ok) { ok = false; break; } }
    if (ok && ev.ok) { st.probes++; if (m) *m = mm; return true; }
  }
  return false;
}
void Solver::getModel(z3::model& zm, const std::vector<ER>& cs, Model* m) {
  std::set<uint64_t> syms; for (ER c : cs) for (uint64_t s : symsOf(c)) syms.insert(s);
  for (uint64_t s : syms) {
    if (!symI.empty()) { auto ii = symI.find(s); if (ii != symI.end()) { expr v = zm.eval(ii->second, true); uint64_t x = 0; if (v.is_numeral() && Z3_get_numeral_uint64(ctx, v, &x)) m->v[s] = x; } continue; }
    auto iv = symV.find(s); auto ir = symR.find(s);
    bool done = false;
    if (ir != symR.end() && (g_syms[s].kind == 1 || g_syms[s].kind == 2 || iv == symV.end())) {
      expr v = zm.eval(expr(ctx, ir->second), false);
      if (v.is_numeral() || Z3_is_algebraic_number(ctx, v)) {
        double d; 
        if (v.is_numeral()) { d = strtod(Z3_get_numeral_decimal_string(ctx, v, 17), nullptr); }
        else { expr lo(ctx, Z3_get_algebraic_number_lower(ctx, v, 20)); d = strtod(Z3_get_numeral_decimal_string(ctx, lo, 17), nullptr); }
        m->v[s] = g_syms[s].width == 32 ? f2b((float)d) : d2b(d); done = true;
      }
    }
    if (!done && iv != symV.end()) { expr v = zm.eval(expr(ctx, iv->second), true); uint64_t x = 0; if (v.is_numeral() && g_syms[s].width <= 64 && Z3_get_numeral_uint64(ctx, v, &x)) m->v[s] = x; }
  }
}
// Small finite domains of integer symbols: the values 0..63 that satisfy the symbol's own constraints, once z3 has
// shown that no other value does.
const std::vector<uint32_t>* Solver::domain(uint64_t s, const std::vector<ER>& singles) {
  std::vector<uint32_t> key{(uint32_t)s}; for (ER c : singles) key.push_back(c->id);
  auto it = domCache.find(key); if (it != domCache.end()) return it->second.first ? &it->second.second : nullptr;
  std::vector<uint32_t> base; bool have = false; unsigned w = g_syms[s].width;
  if (singles.empty()) { if (w <= 6) { have = true; for (uint32_t v = 0; v < (1u << w); v++) base.push_back(v); } }
  else {
    std::vector<ER> pre(singles.begin(), singles.end() - 1); const std::vector<uint32_t>* d = domain(s, pre);
    std::vector<uint32_t> cand; if (d) cand = *d; else for (uint32_t v = 0; v < 64; v++) cand.push_back(v);
    have = d != nullptr;
    for (uint32_t v : cand) { Model m; m.v[s] = v; Evaluator ev(m); bool ok = true; if (d) ok = ev.eval(singles.back()) & 1; else for (ER c : singles) if (!(ev.eval(c) & 1)) { ok = false; break; } if (!ev.ok) return nullptr; if (ok) base.push_back(v); }
    if (!d && singles.size() <= 4 && w > 6 && !base.empty()) {
      z3::solver z = (z3::tactic(ctx, "simplify") & z3::tactic(ctx, "bit-blast") & z3::tactic(ctx, "sat")).mk_solver(); z3::params p(ctx); p.set("timeout", 2000u); z.set(p);
      for (ER c : singles) z.add(B(c)); z.add(B(mk(E_ULT, 1, mkConst(63, w), g_syms[s].e)));
      st.queries++; z3::check_result c = z.check(); if (c == z3::unsat) { have = true; st.unsat++; } else if (c == z3::sat) st.sat++; else st.unknown++;
    }
  }
  auto& r = domCache[key]; r.first = have; r.second = base; return have ? &r.second : nullptr;
}
bool Solver::byDomain(const std::vector<ER>& pc, ER cond, Model* m, Res* r) {
  const std::vector<uint64_t>& sy = symsOf(cond); size_t n = sy.size(); if (n == 0 || n > 24) return false;
  for (uint64_t s : sy) if (g_syms[s].kind != 0 || g_syms[s].width > 32) return false;
  std::vector<std::vector<ER>> singles(n); bool multi = false;
  for (ER c : pc) { const std::vector<uint64_t>& cs = symsOf(c);
    if (cs.size() == 1) { auto it = std::lower_bound(sy.begin(), sy.end(), cs[0]); if (it != sy.end() && *it == cs[0]) singles[it - sy.begin()].push_back(c); }
    else if (!multi) for (uint64_t s : cs) if (std::binary_search(sy.begin(), sy.end(), s)) { multi = true; break; } }
  std::vector<const std::vector<uint32_t>*> d(n); uint64_t prod = 1;
  for (size_t i = 0; i < n; i++) { d[i] = domain(sy[i], singles[i]); if (!d[i] || d[i]->empty()) return false; prod *= d[i]->size(); if (prod > 64) return false; }
  for (uint64_t k = 0; k < prod; k++) {
    Model mm; uint64_t q = k; for (size_t i = 0; i < n; i++) { mm.v[sy[i]] = (*d[i])[q % d[i]->size()]; q /= d[i]->size(); }
    Evaluator ev(mm); uint64_t x = ev.eval(cond) & 1; if (!ev.ok) return false;
    if (x) { if (multi && (prod > 1 || m)) return false; if (m) *m = mm; *r = R_SAT; st.domain++; return true; } }
  *r = R_UNSAT; st.domain++; return true;
}
// Integer-only queries: one incremental bit-blasting solver; each constraint is guarded by its own literal.
Res Solver::incremental(const std::vector<ER>& cs, Model* m) {
  if (!inc || incLit.size() > 300) { incLit.clear(); inc.reset(new z3::solver(ctx, Z3_mk_solver_for_logic(ctx, ctx.str_symbol("QF_FD")))); z3::params p(ctx); p.set("timeout", 5000u); inc->set(p); }
  z3::expr_vector as(ctx);
  for (ER c : cs) {
    auto it = incLit.find(c);
    if (it == incLit.end()) { expr l = ctx.bool_const(("g!" + std::to_string(c->id)).c_str()); inc->add(z3::implies(l, B(c))); it = incLit.emplace(c, l).first; }
    as.push_back(it->second);
  }
  z3::check_result c = inc->check(as);
  if (c == z3::sat) { z3::model zm = inc->get_model(); *m = Model(); getModel(zm, cs, m); return R_SAT; }
  return c == z3::unsat ? R_UNSAT : R_UNKNOWN;
}
// One satisfiability call in a child process, so that a time limit can be enforced from outside.
Res Solver::isolated(z3::solver& s, unsigned to, const std::vector<ER>& cs, Model* m) {
  int fd[2]; if (pipe(fd)) return R_UNKNOWN;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) { close(fd[0]); close(fd[1]); return R_UNKNOWN; }
  if (pid == 0) {
    close(fd[0]); signal(SIGALRM, SIG_DFL); alarm(to / 1000 + 1);
    std::vector<uint64_t> out; uint64_t code = 2;
    try { z3::check_result c = s.check();
      if (c == z3::sat) { Model mm; z3::model zm = s.get_model(); getModel(zm, cs, &mm); code = 1; for (auto& kv : mm.v) { out.push_back(kv.first); out.push_back(kv.second); } }
      else if (c == z3::unsat) code = 0; } catch (z3::exception&) {}
    out.insert(out.begin(), code); out.insert(out.begin(), out.size());
    const char* p = (const char*)out.data(); size_t n = out.size() * 8; while (n) { ssize_t k = write(fd[1], p, n); if (k <= 0) break; p += k; n -= k; }
    _exit(0);
  }
  close(fd[1]); std::vector<uint64_t> in; std::string buf; char tmp[65536]; ssize_t k;
  while ((k = read(fd[0], tmp, sizeof tmp)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) buf.append(tmp, k);
  close(fd[0]); int status; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  in.resize(buf.size() / 8); memcpy(in.data(), buf.data(), in.size() * 8);
  if (in.empty() || in.size() != in[0] + 1) return R_UNKNOWN;
  if (in[1] == 0) return R_UNSAT; if (in[1] != 1) return R_UNKNOWN;
  *m = Model(); for (size_t i = 2; i + 1 < in.size(); i += 2) m->v[in[i]] = in[i + 1];
  return R_SAT;
}
Res Solver::check(const std::vector<ER>& pc, ER cond, Model* model) {
  if (cond->isConst() && !cond->imm) return R_UNSAT;
  { Res r; if (byDomain(pc, cond, model, &r)) return r; }
  { std::set<ER> sn; if (!(mode == M_REAL && hasFP(cond, sn))) { cond = norm.simp(cond); if (cond->isConst() && !cond->imm) { st.modular++; return R_UNSAT; } } }
  // slice: constraints connected to cond through shared symbols
  std::vector<ER> cs{cond}; 
  { std::set<uint64_t> live(symsOf(cond).begin(), symsOf(cond).end()); std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (uint64_t s : symsOf(pc[i])) if (live.count(s)) { hit = true; break; }
        if (hit) { in[i] = 1; cs.push_back(pc[i]); ch = true; for (uint64_t s : symsOf(pc[i])) live.insert(s); } } } }
  std::vector<uint32_t> key; for (ER c : cs) key.push_back(c->id); std::sort(key.begin() + 1, key.end()); key.erase(std::unique(key.begin() + 1, key.end()), key.end());
  auto qi = qcache.find(key);
  if (qi != qcache.end()) { st.cached++; if (model && qi->second.first == R_SAT) *model = qi->second.second; return qi->second.first; }
  std::set<ER> seen; bool fp = false; for (ER c : cs) if (hasFP(c, seen)) { fp = true; break; }
  Model m; Res r = R_UNKNOWN;
  double t0 = now();
  st.queries++;
  bool realq = mode == M_REAL && fp;
  auto linear = [&]() -> Res { // integer reading, see lia.h
    try { Lia L(ctx); z3::solver s(ctx); for (ER c : cs) s.add(L.B(c)); for (unsigned i = 0; i < L.side.size(); i++) s.add(L.side[i]);
      symI.clear(); for (auto& kv : L.syms) symI.emplace(kv.first, kv.second); if (getenv("SYMX_DBG")) fprintf(stderr, "lia query:\n%s\n", s.to_smt2().c_str()); Res q = isolated(s, timeoutMs, cs, &m); symI.clear(); if (getenv("SYMX_DBG")) fprintf(stderr, "lia: %d\n", (int)q);
      if (q == R_SAT) { Evaluator ev(m); for (ER c : cs) if (!(ev.eval(c) & 1) || !ev.ok) return R_UNKNOWN; }
      if (q != R_UNKNOWN) st.linear++; return q; } catch (Lia::Fail&) { if (getenv("SYMX_DBG")) fprintf(stderr, "lia: outside the fragment\n"); return R_UNKNOWN; } catch (z3::exception&) { symI.clear(); return R_UNKNOWN; } };
  if (!realq && dumpDir.empty() && wantsLia(cs, mode == M_FPA) && (r = linear()) != R_UNKNOWN) {}
  else if (realq && probe(cs, &m)) { r = R_SAT; }
  else if (!fp && dumpDir.empty() && (r = incremental(cs, &m)) != R_UNKNOWN) {}
  else try {
    z3::expr_vector as(ctx); bool triv = false;
    z3::params sp(ctx); sp.set("som", true); sp.set("flat", true);
    for (ER c : cs) {
      expr x = B(c);
      if (realq) {
        // normalise (dis)equalities of reals: p = q  <->  som(p - q) = 0
        std::function<expr(ER)> nb = [&](ER k) -> expr {
          if (k->op == E_AND && k->width == 1) return nb(k->a) && nb(k->b);
          if (k->op == E_OR && k->width == 1) return nb(k->a) || nb(k->b);
          if (k->op == E_XOR && k->width == 1 && k->b->isConst()) return k->b->imm ? !nb(k->a) : nb(k->a);
          if (k->op == E_FOEQ || (k->op == E_EQ && (fpLike(k->a) || fpLike(k->b)) && realConvertible(k->a) && realConvertible(k->b))) { expr d = (R(k->a) - R(k->b)).simplify(sp); return d == ctx.real_val(0); }
          return B(k); };
        x = nb(c);
      }
      x = x.simplify();
      if (x.is_false()) triv = true;
      if (!x.is_true()) as.push_back(x);
    }
    if (triv) { r = R_UNSAT; st.simplified++; }
    else if (as.size() == 0) { r = R_SAT; }
    else if (realq && probe(cs, &m, 200)) r = R_SAT;
    else {
      auto attempt = [&](int kind, unsigned to) -> Res {
        z3::solver s = kind == 0 ? z3::solver(ctx) : kind == 1 ? (z3::tactic(ctx, "simplify") & z3::tactic(ctx, "solve-eqs") & z3::tactic(ctx, "bit-blast") & z3::tactic(ctx, "sat")).mk_solver()
                       : kind == 2 ? z3::tactic(ctx, "qfnra-nlsat").mk_solver() : z3::tactic(ctx, "qffp").mk_solver();
        for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
        if (!dumpDir.empty()) { std::ofstream f(dumpDir + "/q" + std::to_string(st.queries) + ".smt2"); f << s.to_smt2(); }
        return isolated(s, to, cs, &m); };
      if (!fp) { r = attempt(1, timeoutMs); if (r == R_UNKNOWN) r = attempt(0, timeoutMs); }
      else if (mode == M_FPA) { r = attempt(3, timeoutMs); if (r == R_UNKNOWN) r = attempt(0, timeoutMs); }
      else { r = attempt(0, timeoutMs); if (r == R_UNKNOWN) { try { r = attempt(2, timeoutMs); } catch (z3::exception&) {} } }
    }
  } catch (z3::exception& ex) { fprintf(stderr, "z3: %s\n", ex.msg()); r = R_UNKNOWN; }
  double dt = now() - t0; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
  if (r == R_SAT) st.sat++; else if (r == R_UNSAT) st.unsat++; else st.unknown++;
  if (dt > 5) fprintf(stderr, "slow query (%.1fs): %zu constraints%s\n", dt, cs.size(), what.empty() ? "" : (", at " + what).c_str());
  if (r == R_UNKNOWN) fprintf(stderr, "solver unknown (%.1fs)\n", dt);
  if (r != R_UNKNOWN) qcache[key] = {r, m};
  if (model && r == R_SAT) *model = m;
  return r;
}
