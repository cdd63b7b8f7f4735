// normal deviates: the Box-Muller transform of two uniform deviates, component by component
#include "qf.h"
#include "seed.h"
typedef LatticeReal::Subtype_t X_;
template<class W> static W two_pi() { return W(6.283185307); }
// complex components use the real parts of the two uniform objects
template<class T> static void leaf(const char* nm, bool cplx) {
  T a, b, d; symsite(a, nm); symsite(b, "u2"); typedef typename std::decay<decltype(word(a, 0))>::type W;
  for (int i = 0; i < Words<T>::n; i++) { word(d, i) = W(7); sym_assume(word(a, i) > W(0)); sym_assume(word(a, i) <= W(1)); sym_assume(word(b, i) >= W(0)); sym_assume(word(b, i) <= W(1)); }
  T r1 = a, r2 = b; fill_gaussian(d, r1, r2);
  for (int i = 0; i < Words<T>::n; i++) { int k = cplx ? i & ~1 : i; W g = sqrt(-W(2) * log(word(a, k))), c = word(b, k) * two_pi<W>(); sym_feq(word(d, i), g * (cplx && i & 1 ? sin(c) : cos(c)), "Box-Muller transform of the component's two numbers"); } }
// a fill draws two uniform objects, in this order, and transforms them site by site
template<class F> static void fill() {
  Seed S, e, e2; symseed(S.elem(), "S"); F r1, r2, g; RNG::setrn(S); random(r1); random(r2); RNG::savern(e); RNG::setrn(S); gaussian(g); RNG::savern(e2); sym_assert(sameseed(e, e2), "a gaussian fill draws two numbers per component");
  for (int s = 0; s < Layout::sitesOnNode(); s++) { auto x = r1.elem(s), y = r2.elem(s); typename std::decay<decltype(x)>::type d; fill_gaussian(d, x, y); samesite(g.elem(s), d, "gaussian of the site's two numbers"); } }
template<class F> static void fill1() {
  Seed S, e, e2; symseed(S.elem(), "S"); F r1, r2, g; RNG::setrn(S); random(r1); random(r2); RNG::savern(e); RNG::setrn(S); gaussian(g); RNG::savern(e2); sym_assert(sameseed(e, e2), "a gaussian draw takes two numbers per component");
  auto x = r1.elem(), y = r2.elem(); typename std::decay<decltype(x)>::type d; fill_gaussian(d, x, y); samesite(g.elem(), d, "gaussian of the two numbers"); }
void harness_main() {
  qh_start_param(2, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  if (kind == 0) { leaf<LatticeReal::Subtype_t>("a", false); leaf<LatticeComplex::Subtype_t>("z", true); leaf<LatticeRealD::Subtype_t>("d", false); leaf<LatticeComplexD::Subtype_t>("e", true); leaf<LatticeColorVector::Subtype_t>("v", true); leaf<LatticeSpinVector::Subtype_t>("s", true); }
  else if (kind == 1) { leaf<LatticeColorMatrix::Subtype_t>("u", true); leaf<LatticeSpinMatrix::Subtype_t>("m", true); leaf<LatticeFermion::Subtype_t>("f", true); leaf<LatticeHalfFermion::Subtype_t>("h", true); }
  else if (kind == 3) { fill<LatticeReal>(); fill<LatticeComplex>(); fill1<Real>(); fill1<Complex>(); fill1<ColorVector>(); }
  else leaf<LatticePropagator::Subtype_t>("p", true);
  sym_observe("end", 1); sym_cover("end"); }
