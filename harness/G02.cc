// random fields are pieces of one sequential stream. The stream is stepped with Seed multiplication, which G01 shows to be multiplication modulo 2^47.
#include "qh.h"
#include "seed.h"
static TableFunc f; static Set st;
static Seed at(uint64_t m) { Seed x; setseed(x.elem(), m); return x; }
// the number of component k of the site with rank r: element k*(vol+1)+r+1 of the stream that starts at S
template<class F> static void check(const F& x, const Seed& S, int c, const char* m) {
  typedef typename F::Subtype_t T; int V = Layout::vol(); Seed per = at(power(MULT, V + 1));
  for (int s = 0; s < Layout::sitesOnNode(); s++) if (c < 0 || in_table(f, s, c)) { Seed z = S * at(power(MULT, lexrank(Layout::siteCoords(0, s)) + 1)); for (int k = 0; k < (int)Words<T>::n; k++) { sym_assert(samew(word(x.elem(s), k), (typename Words<T>::w)frac(z)), m); Seed y = z * per; z = y; } } }
template<class T> static Seed after(const Seed& S, int fills) { Seed per = at(power(MULT, Layout::vol() + 1)), z = S; for (int k = 0; k < (int)Words<T>::n * fills; k++) { Seed y = z * per; z = y; } return z; }
template<class F> static void one(const char* nm) {
  typedef typename F::Subtype_t T; Seed S, e; symseed(S.elem(), "S"); F x;
  RNG::setrn(S); random(x); check(x, S, -1, "fill of a field"); RNG::savern(e); sym_assert(sameseed(e, after<T>(S, 1)), "seed after a fill");
  for (int c = 0; c < 2; c++) { F y, o; symfill(o, nm); y = o; RNG::setrn(S); random(y, st[c]); check(y, S, c, "fill of a subset"); RNG::savern(e); sym_assert(sameseed(e, after<T>(S, 1)), "seed after a subset fill");
    for (int s = 0; s < Layout::sitesOnNode(); s++) if (!in_table(f, s, c)) samesite(y.elem(s), o.elem(s), "a subset fill leaves the other sites alone"); }
  OScalar<T> v; RNG::setrn(S); random(v); RNG::savern(e); Seed z = S, a = at(MULT); for (int k = 0; k < (int)Words<T>::n; k++) { Seed y = z * a; z = y; sym_assert(samew(word(v.elem(), k), (typename Words<T>::w)frac(z)), "scalar draws are successive numbers"); } sym_assert(sameseed(e, z), "seed after scalar draws"); }
template<class T> static bool near(double a, T b, double tol) { double d = a - (double)b; return d <= tol && d >= -tol; }
void harness_main() {
  qh_start_param(3, 1, 1, 1); int V = Layout::vol();
#if KIND < 2 || KIND == 3
  some_table(f); st.make(f);
#endif
#if KIND == 0
  one<LatticeReal>("x"); one<LatticeRealD>("x");
#elif KIND == 1
  one<LatticeComplex>("x"); one<LatticeColorVector>("x"); one<LatticeSpinVector>("x");
#elif KIND == 2
  sym_assert(value(RNG::ran_mult.elem()) == MULT, "multiplier"); sym_assert(value(RNG::ran_mult_n.elem()) == power(MULT, V + 1), "multiplier of a sweep"); for (int s = 0; s < V; s++) sym_assert(value(RNG::lattice_ran_mult->elem(s)) == power(MULT, lexrank(Layout::siteCoords(0, s)) + 1), "multiplier of a site");
  { LatticeColorMatrix u, w; Seed S, e; symseed(S.elem(), "S"); RNG::setrn(S); random(u); check(u, S, -1, "colour matrices"); RNG::savern(e); sym_assert(sameseed(e, after<LatticeColorMatrix::Subtype_t>(S, 1)), "seed after"); random(w); check(w, after<LatticeColorMatrix::Subtype_t>(S, 1), -1, "the second fill continues the stream"); RNG::setrn(S); random(w); samefield(u, w, "setting the seed restores the stream"); }
#elif KIND == 3
  { // several fills in a row, on subsets, with a save in between
    LatticeReal a, b, c, d; Real q; Seed S, m, e; symseed(S.elem(), "S"); RNG::setrn(S); random(a); random(b, st[0]); RNG::savern(m); random(q); random(c); RNG::savern(e); typedef LatticeReal::Subtype_t T;
    check(a, S, -1, "first fill"); check(b, after<T>(S, 1), 0, "second fill"); sym_assert(sameseed(m, after<T>(S, 2)), "saved seed"); Seed n = m * at(MULT); sym_assert(samew(word(q.elem(), 0), frac(n)), "scalar draw"); check(c, n, -1, "fill after a scalar draw"); sym_assert(sameseed(e, after<T>(n, 1)), "final seed");
    { LatticeReal b2 = zero; Seed q1 = after<T>(S, 1), q3; RNG::setrn(q1); random(b2[st[0]]); check(b2, q1, 0, "fill of a field on a subset"); RNG::savern(q3); sym_assert(sameseed(q3, m), "seed after a fill on a subset"); for (int s = 0; s < V; s++) if (!in_table(f, s, 0)) sym_assert(word(b2.elem(s), 0) == 0, "other sites stay"); }
    RNG::setrn(m); Real q2; random(q2); random(d); samefield(c, d, "restored stream"); sym_assert(samew(word(q.elem(), 0), word(q2.elem(), 0)), "restored draw"); }
#elif KIND == 4
  { // gaussian fields: Box-Muller of two fills, on every site of the subset only
    static const int keep = 0; (void)keep; some_table(f); st.make(f); LatticeReal r1, r2, g, h, o; LatticeComplex c1, c2, z; Seed S, e, e2; symseed(S.elem(), "S");
    RNG::setrn(S); random(r1); random(r2); RNG::savern(e); RNG::setrn(S); gaussian(g); RNG::savern(e2); sym_assert(sameseed(e, e2), "a gaussian fill draws two numbers");
    for (int s = 0; s < V; s++) { LatticeReal::Subtype_t x = r1.elem(s), y = r2.elem(s), d; fill_gaussian(d, x, y); sym_assert(samew(word(g.elem(s), 0), word(d, 0)), "gaussian of the site's two numbers"); }
    symfill(o, "o"); h = o; RNG::setrn(S); gaussian(h, st[0]); for (int s = 0; s < V; s++) sym_assert(samew(word(h.elem(s), 0), in_table(f, s, 0) ? word(g.elem(s), 0) : word(o.elem(s), 0)), "gaussian on a subset"); RNG::savern(e2); sym_assert(sameseed(e, e2), "seed after");
    { LatticeReal h2 = o; RNG::setrn(S); gaussian(h2[st[0]]); samefield(h, h2, "gaussian of a field on a subset"); RNG::savern(e2); sym_assert(sameseed(e, e2), "seed after"); }
    RNG::setrn(S); random(c1); random(c2); RNG::setrn(S); gaussian(z); for (int s = 0; s < V; s++) { LatticeComplex::Subtype_t x = c1.elem(s), y = c2.elem(s), d; fill_gaussian(d, x, y); samesite(z.elem(s), d, "complex gaussian"); } }
#endif
  sym_cover("end");
}
