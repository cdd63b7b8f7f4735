// comparisons, logical operators, selections and masked copies, site by site
#include "qf.h"
#ifndef KIND
#define KIND 0
#endif
static LatticeBoolean *gm, *gm2; static Boolean* gt; static int N;
#define W(x, s) word(x.elem(s), 0)
#define WS(x) word(x.elem(), 0)
#define CMP1(A, B, OP, EA, EB) { LatticeBoolean m = A OP B; for (int s = 0; s < N; s++) sym_assert(W(m, s) == (EA OP EB), "per-site " #A " " #OP " " #B); }
#define CMP(A, B, EA, EB) CMP1(A, B, <, EA, EB) CMP1(A, B, <=, EA, EB) CMP1(A, B, >, EA, EB) CMP1(A, B, >=, EA, EB) CMP1(A, B, ==, EA, EB) CMP1(A, B, !=, EA, EB)
#define SCMP1(A, B, OP) { Boolean m = A OP B; sym_assert(WS(m) == (WS(A) OP WS(B)), "scalar " #A " " #OP " " #B); bool x = toBool(A OP B); sym_assert(x == (WS(A) OP WS(B)), "toBool(" #A " " #OP " " #B ")"); }
#define SCMP(A, B) SCMP1(A, B, <) SCMP1(A, B, <=) SCMP1(A, B, >) SCMP1(A, B, >=) SCMP1(A, B, ==) SCMP1(A, B, !=)
template<class L, class S, class L2> static void compares() {
  L a, b; S r, q; L2 c; symfill(a, "a"); symfill(b, "b"); symfill(r, "r"); symfill(q, "q"); symfill(c, "c");
  CMP(a, b, W(a, s), W(b, s)) CMP(a, r, W(a, s), WS(r)) CMP(r, b, WS(r), W(b, s)) SCMP(r, q) CMP(a, c, W(a, s), W(c, s)) CMP(c, a, W(c, s), W(a, s)) }
template<class T, class L = OLattice<typename T::Subtype_t> > static void select(const char* nm) {
  LatticeBoolean &m = *gm, &m2 = *gm2; L a, b; OScalar<typename T::Subtype_t> k, l; symfill(a, nm); symfill(b, nm); symfill(k, nm); symfill(l, nm); Boolean& t = *gt;
#define SEL(EXPR, COND, A, B) { L d = EXPR; for (int s = 0; s < N; s++) { bool ok = true; for (int i = 0; i < (int)Words<typename T::Subtype_t>::n; i++) ok = ok & samew(word(d.elem(s), i), (COND) ? word(A, i) : word(B, i)); sym_assert(ok, "selection " #EXPR); } }
  SEL(where(m, a, b), W(m, s), a.elem(s), b.elem(s)) SEL(where(m, a, k), W(m, s), a.elem(s), k.elem()) SEL(where(m, k, b), W(m, s), k.elem(), b.elem(s)) SEL(where(m, k, l), W(m, s), k.elem(), l.elem()) SEL(where(t, a, b), WS(t), a.elem(s), b.elem(s)) SEL(where(m && m2, a, b), W(m, s) & W(m2, s), a.elem(s), b.elem(s)) SEL(where(!m, a, b), !W(m, s), a.elem(s), b.elem(s))
  { OScalar<typename T::Subtype_t> d = where(t, k, l); bool ok = true; for (int i = 0; i < (int)Words<typename T::Subtype_t>::n; i++) ok = ok & samew(word(d.elem(), i), WS(t) ? word(k.elem(), i) : word(l.elem(), i)); sym_assert(ok, "selection between scalar objects"); }
  { L d = a; d = where(m, b, d); for (int s = 0; s < N; s++) { bool ok = true; for (int i = 0; i < (int)Words<typename T::Subtype_t>::n; i++) ok = ok & samew(word(d.elem(s), i), W(m, s) ? word(b.elem(s), i) : word(a.elem(s), i)); sym_assert(ok, "selection with the destination as operand"); } } }
template<class T, class L = OLattice<typename T::Subtype_t> > static void masked(const char* nm) {
  LatticeBoolean& m = *gm; L a, d0; symfill(a, nm); symfill(d0, nm); L d = d0; copymask(d, m, a);
  for (int s = 0; s < N; s++) { bool ok = true; for (int i = 0; i < (int)Words<typename T::Subtype_t>::n; i++) ok = ok & samew(word(d.elem(s), i), W(m, s) ? word(a.elem(s), i) : word(d0.elem(s), i)); sym_assert(ok, "masked copy"); }
  d = d0; copymask(d[odd], m, a);
  for (int s = 0; s < N; s++) { bool in = rb.latticeColoring()[s] == 1, ok = true; for (int i = 0; i < (int)Words<typename T::Subtype_t>::n; i++) ok = ok & samew(word(d.elem(s), i), in & W(m, s) ? word(a.elem(s), i) : word(d0.elem(s), i)); sym_assert(ok, "masked copy onto a subset"); }
  OScalar<typename T::Subtype_t> k, l; symfill(k, nm); symfill(l, nm); Boolean& t = *gt; OScalar<typename T::Subtype_t> e = k; copymask(e, t, l);
  bool ok = true; for (int i = 0; i < (int)Words<typename T::Subtype_t>::n; i++) ok = ok & samew(word(e.elem(), i), WS(t) ? word(l.elem(), i) : word(k.elem(), i)); sym_assert(ok, "masked copy of a scalar object"); }
void harness_main() {
  qh_start_param(3, 1, 1, 1); N = Layout::sitesOnNode();
#if KIND >= 4
  LatticeBoolean m_, m2_; Boolean t_; symfill(m_, "m"); symfill(m2_, "m"); symfill(t_, "t");
#if KIND == 7
  for (int s = 0; s < N; s++) W(m_, s) = sym_choose("mask", 0, 1); // the copies branch on the mask, one path per mask
  WS(t_) = sym_choose("mask", 0, 1);
#endif
  gm = &m_; gm2 = &m2_; gt = &t_;
#endif
#if KIND == 0
  compares<LatticeReal, Real, LatticeRealD>();
#elif KIND == 1
  compares<LatticeRealD, RealD, LatticeReal>();
#elif KIND == 2
  compares<LatticeInteger, Integer, LatticeInteger>();
#elif KIND == 3
  LatticeBoolean p, q, d; symfill(p, "p"); symfill(q, "q"); Boolean t, u; symfill(t, "t"); symfill(u, "u");
#define LOG(EXPR, E) { d = EXPR; for (int s = 0; s < N; s++) { bool P = W(p, s), Q = W(q, s), T = WS(t), U = WS(u); (void)P; (void)Q; (void)T; (void)U; sym_assert(W(d, s) == (bool)(E), "logical " #EXPR); } }
  LOG(p && q, P & Q) LOG(p || q, P | Q) LOG(!p, !P) LOG(p && t, P & T) LOG(t || q, T | Q) LOG(!(p && !q) || t, !(P & !Q) | T) LOG(t && u, T & U) LOG(p == q, P == Q) LOG(p != q, P != Q) LOG((p && q) || (!p && !q), P == Q) LOG(true, true) LOG(false, false)
  { LatticeBoolean e = p; e &= q; for (int s = 0; s < N; s++) sym_assert(W(e, s) == (W(p, s) & W(q, s)), "&= of masks"); e = p; e |= q; for (int s = 0; s < N; s++) sym_assert(W(e, s) == (W(p, s) | W(q, s)), "|= of masks"); e = p & q; for (int s = 0; s < N; s++) sym_assert(W(e, s) == (W(p, s) & W(q, s)), "& of masks"); e = p | q; for (int s = 0; s < N; s++) sym_assert(W(e, s) == (W(p, s) | W(q, s)), "| of masks"); e = p ^ q; for (int s = 0; s < N; s++) sym_assert(W(e, s) == (W(p, s) != W(q, s)), "^ of masks"); }
  { Boolean x = t && u; sym_assert(WS(x) == (WS(t) & WS(u)), "scalar &&"); x = t || !u; sym_assert(WS(x) == (WS(t) | !WS(u)), "scalar ||"); }
  { LatticeInteger a, b, c; symfill(a, "a"); symfill(b, "b"); for (int s = 0; s < N; s++) { sym_assume(W(b, s) >= 0); sym_assume(W(b, s) < 31); }
    c = a & b; for (int s = 0; s < N; s++) eqw(W(c, s), W(a, s) & W(b, s), "& of integers"); c = a | b; for (int s = 0; s < N; s++) eqw(W(c, s), W(a, s) | W(b, s), "| of integers"); c = a ^ b; for (int s = 0; s < N; s++) eqw(W(c, s), W(a, s) ^ W(b, s), "^ of integers"); c = a >> b; for (int s = 0; s < N; s++) eqw(W(c, s), W(a, s) >> W(b, s), ">> of integers"); c = a << b; for (int s = 0; s < N; s++) eqw(W(c, s), (int)((unsigned)W(a, s) << W(b, s)), "<< of integers");
    LatticeReal x, y; symfill(x, "x"); symfill(y, "y"); LatticeBoolean m = (x < y) && (a == b) || !(a > b); for (int s = 0; s < N; s++) sym_assert(W(m, s) == ((W(x, s) < W(y, s)) & (W(a, s) == W(b, s)) | !(W(a, s) > W(b, s))), "comparisons combined"); }
#elif KIND == 4
  select<LatticeReal>("a"); select<LatticeInteger>("i"); select<LatticeRealD>("d"); select<LatticeComplex>("z"); select<LatticeBoolean>("b");
#elif KIND == 5
  select<LatticeColorMatrix>("u");
#elif KIND == 6
  select<LatticeFermion>("psi");
#elif KIND == 7
  masked<LatticeReal>("a"); masked<LatticeInteger>("i"); masked<LatticeRealD>("d"); masked<LatticeComplex>("z"); masked<LatticeColorMatrix>("u"); masked<LatticeFermion>("psi"); masked<LatticePropagator>("p"); masked<LatticeSpinMatrix>("s"); masked<LatticeColorVector>("v");
#endif
  sym_observe("end", 1); sym_cover("end"); }
