#include "gf2.h"
typedef Gf2::Lin Lin;
static Lin lx(const Lin& a, const Lin& b) { Lin r; r.reserve(a.size() + b.size()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
static inline bool cst(const Lin& a) { return a.empty() || (a.size() == 1 && a[0] == 0); }
static const Lin ONE{0};
bool Gf2::touches(ER e) {   // is there a xor of words anywhere below?
  if (e->op == E_CONST || e->op == E_SYM) return false;
  auto it = tmemo.find(e); if (it != tmemo.end()) return it->second;
  tmemo[e] = false; bool r = e->op == E_XOR && e->width > 1; if (!isFPop(e)) { if (!r && e->nops > 0) r = touches(e->a); if (!r && e->nops > 1) r = touches(e->b); if (!r && e->nops > 2) r = touches(e->c); }
  return tmemo[e] = r; }
const std::vector<Lin>& Gf2::bits(ER e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  unsigned w = e->width; std::vector<Lin> r(w);
  auto opaque = [&](unsigned i) { auto k = ((uint64_t)e->id << 16) | i; auto at = atoms.emplace(k, (uint32_t)atoms.size() + 1); return Lin{at.first->second}; };
  auto all = [&] { if (getenv("GF2_DBG")) fprintf(stderr, "opaque %s\n", exprStr(e, 3).c_str()); for (unsigned i = 0; i < w; i++) r[i] = opaque(i); };
  if (e->nops > 0 && !isFPop(e)) { bits(e->a); if (e->nops > 1) bits(e->b); if (e->nops > 2) bits(e->c); }
  switch (e->op) {
    case E_CONST: for (unsigned i = 0; i < w; i++) if (w > 64 ? (*e->wide)[i] : (e->imm >> i) & 1) r[i] = ONE; break;
    case E_XOR: { auto& a = bits(e->a); auto& b = bits(e->b); for (unsigned i = 0; i < w; i++) r[i] = lx(a[i], b[i]); break; }
    case E_AND: { auto& a = bits(e->a); auto& b = bits(e->b); for (unsigned i = 0; i < w; i++) { if (cst(b[i])) { if (!b[i].empty()) r[i] = a[i]; } else if (cst(a[i])) { if (!a[i].empty()) r[i] = b[i]; } else if (a[i] == b[i]) r[i] = a[i]; else r[i] = opaque(i); } break; }
    case E_OR: { auto& a = bits(e->a); auto& b = bits(e->b); for (unsigned i = 0; i < w; i++) { if (cst(b[i])) r[i] = b[i].empty() ? a[i] : ONE; else if (cst(a[i])) r[i] = a[i].empty() ? b[i] : ONE; else if (a[i] == b[i]) r[i] = a[i]; else r[i] = opaque(i); } break; }
    case E_ADD: { auto& a = bits(e->a); auto& b = bits(e->b); bool dis = true; for (unsigned i = 0; i < w; i++) if (!a[i].empty() && !b[i].empty()) dis = false; if (dis) for (unsigned i = 0; i < w; i++) r[i] = a[i].empty() ? b[i] : a[i]; else all(); break; }
    case E_SUB: { auto& a = bits(e->a); auto& b = bits(e->b); bool neg = true; for (unsigned i = 0; i < w; i++) if (!a[i].empty() || (i && !b[i].empty())) neg = false; if (neg) for (unsigned i = 0; i < w; i++) r[i] = b[0]; else all(); break; }
    case E_MUL: { if (!e->b->isConst() || w > 64 || !e->b->imm || (e->b->imm & (e->b->imm - 1))) { all(); break; } auto& a = bits(e->a); unsigned k = __builtin_ctzll(e->b->imm); for (unsigned i = k; i < w; i++) r[i] = a[i - k]; break; }
    case E_SHL: case E_LSHR: case E_ASHR: { auto& a = bits(e->a); if (!e->b->isConst() || e->b->width > 64 || e->b->imm >= w) { all(); break; } unsigned k = e->b->imm;
      for (unsigned i = 0; i < w; i++) { if (e->op == E_SHL) { if (i >= k) r[i] = a[i - k]; } else if (i + k < w) r[i] = a[i + k]; else if (e->op == E_ASHR) r[i] = a[w - 1]; } break; }
    case E_ZEXT: case E_SEXT: { auto& a = bits(e->a); for (unsigned i = 0; i < w; i++) if (i < a.size()) r[i] = a[i]; else if (e->op == E_SEXT) r[i] = a.back(); break; }
    case E_EXTRACT: { auto& a = bits(e->a); for (unsigned i = 0; i < w; i++) r[i] = a[i + e->imm]; break; }
    case E_CONCAT: { auto& a = bits(e->a); auto& b = bits(e->b); for (unsigned i = 0; i < w; i++) r[i] = i < b.size() ? b[i] : a[i - b.size()]; break; }
    case E_EQ: { auto& a = bits(e->a); auto& b = bits(e->b); int k = 0; Lin d; bool no = false; for (unsigned i = 0; i < a.size(); i++) { Lin x = lx(a[i], b[i]); if (x.empty()) continue; if (x == ONE) no = true; k++; d = x; } if (no) break; if (!k) r[0] = ONE; else if (k == 1) r[0] = lx(d, ONE); else all(); break; }
    case E_ITE: { auto& c = bits(e->a); auto& a = bits(e->b); auto& b = bits(e->c); for (unsigned i = 0; i < w; i++) { Lin d = lx(a[i], b[i]); if (d.empty()) r[i] = a[i]; else if (cst(c[0])) r[i] = c[0].empty() ? b[i] : a[i]; else if (cst(d)) r[i] = lx(b[i], c[0]); else r[i] = opaque(i); } break; }
    default: all(); }
  for (auto& l : r) work += l.size(); work += w;
  return memo[e] = std::move(r);
}
int Gf2::equal(ER a, ER b) {
  if (a->width != b->width || work > 200000000ull || !(touches(a) || touches(b))) return -1;
  auto x = bits(a), y = bits(b); bool never = false, same = true;
  for (unsigned i = 0; i < a->width; i++) { Lin d = lx(x[i], y[i]); if (!d.empty()) { same = false; if (cst(d)) never = true; } }
  return same ? 1 : never ? 0 : -1; }
