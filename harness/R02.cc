// global extremes and classification predicates look at every site
#include "qf.h"
static int vol;
#define W(x, s) word(x.elem(s), 0)
static bool nanb(float f) { return (bits32(f) & 0x7fffffffu) > 0x7f800000u; } static bool nanb(double f) { return (bits64(f) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static bool infb(float f) { return (bits32(f) & 0x7fffffffu) == 0x7f800000u; } static bool infb(double f) { return (bits64(f) & 0x7fffffffffffffffull) == 0x7ff0000000000000ull; }
static bool finb(float f) { return (bits32(f) & 0x7f800000u) != 0x7f800000u; } static bool finb(double f) { return (bits64(f) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
static bool norb(float f) { uint32_t e = bits32(f) & 0x7f800000u; return (e != 0) & (e != 0x7f800000u); } static bool norb(double f) { uint64_t e = bits64(f) & 0x7ff0000000000000ull; return (e != 0) & (e != 0x7ff0000000000000ull); }
template<class M, class F> static void extreme(const M& mx, const M& mn, const F& a) {
  auto x = word(mx.elem(), 0), n = word(mn.elem(), 0); bool up = true, lo = true, xin = false, nin = false;
  for (int s = 0; s < vol; s++) { auto v = W(a, s); up = up & (x >= v); lo = lo & (n <= v); xin = xin | (x == v); nin = nin | (n == v); }
  sym_assert(up, "no site exceeds the maximum"); sym_assert(lo, "no site is below the minimum"); sym_assert(xin, "the maximum is a site value"); sym_assert(nin, "the minimum is a site value");
}
template<class F> static void classes(const char* n) {
  F a; symfill(a, n); typedef typename std::decay<decltype(a.elem(0))>::type T; bool n1 = false, i1 = false, f1 = true, o1 = true;
  for (int s = 0; s < vol; s++) for (int w = 0; w < Words<T>::n; w++) { auto x = word(a.elem(s), w); n1 = n1 | nanb(x); i1 = i1 | infb(x); f1 = f1 & finb(x); o1 = o1 & norb(x); }
  sym_assert(isnan(a) == n1, "isnan of a field"); sym_assert(isinf(a) == i1, "isinf of a field"); sym_assert(isfinite(a) == f1, "isfinite of a field"); sym_assert(isnormal(a) == o1, "isnormal of a field");
}
void harness_main() {
  qh_start_param(2, 1, 1, 2); vol = Layout::vol(); int kind = (int)sym_param("kind", 0);
  if (kind == 0) { LatticeReal a; symfill(a, "a"); for (int s = 0; s < vol; s++) sym_assume(!nanb(W(a, s))); extreme(globalMax(a), globalMin(a), a); }
  else if (kind == 1) { LatticeRealD a; symfill(a, "a"); for (int s = 0; s < vol; s++) sym_assume(!nanb(W(a, s))); LatticeRealD b = -a; extreme(globalMax(-a), globalMin(-a), b); }
  else if (kind == 2) { LatticeInteger a; symfill(a, "a"); extreme(globalMax(a), globalMin(a), a); Real r; symfill(r, "r"); sym_assume(!nanb(word(r.elem(), 0))); Real m = globalMax(r), n = globalMin(r); sym_assert((word(m.elem(), 0) == word(r.elem(), 0)) & (word(n.elem(), 0) == word(r.elem(), 0)), "extremes of a scalar object"); Real m2 = globalMax(-r); sym_assert(word(m2.elem(), 0) == -word(r.elem(), 0), "extremes of a scalar expression"); }
  else if (kind == 3) { classes<LatticeReal>("a"); classes<LatticeRealD>("d"); classes<LatticeComplex>("z");
    LatticeReal b; symfill(b, "b"); bool n1 = false, f1 = true; for (int s = 0; s < vol; s++) { n1 = n1 | nanb(-W(b, s)); f1 = f1 & finb(-W(b, s)); } sym_assert(isnan(-b) == n1, "isnan of an expression"); sym_assert(isfinite(-b) == f1, "isfinite of an expression"); bool i1 = false, o1 = true; for (int s = 0; s < vol; s++) { i1 = i1 | infb(-W(b, s)); o1 = o1 & norb(-W(b, s)); } sym_assert(isinf(-b) == i1, "isinf of an expression"); sym_assert(isnormal(-b) == o1, "isnormal of an expression"); }
  else if (kind == 4) { classes<LatticeColorVector>("v"); classes<LatticeColorMatrix>("u"); }
  else { classes<LatticeSpinVector>("v"); classes<LatticeSpinMatrix>("u"); classes<LatticeFermion>("f"); }
  sym_cover("end");
}
