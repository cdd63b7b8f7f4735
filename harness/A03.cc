// gamma matrices against the documented representation, in both bases, compile-time and run-time
#include "gam.h"
typedef WordType<Real>::Type_t F; typedef Ten<F> TT;
#define T_(x) ld<F>(x)
template<class V, bool mat, class G> static void act(const G& g, int n, bool dp, const V& A, const TT& a, const char* m) {
  TT o = gam_<F>(n, dp); V t; t = g * A; teq(T_(t), o * a, m); t = g * (A + A); teq(T_(t), o * (a + a), m); t = A; t = g * t; teq(T_(t), o * a, m); t = A; t += g * A; teq(T_(t), a + o * a, m); t = g * (g * A); teq(T_(t), o * (o * a), m);
  if constexpr (mat) { t = A * g; teq(T_(t), a * o, m); t = (A + A) * g; teq(T_(t), (a + a) * o, m); t = g * A * g; teq(T_(t), o * a * o, m); t = adj(A) * g; teq(T_(t), dag(a) * o, m); t = g * adj(A); teq(T_(t), o * dag(a), m); t = adj(g * A); teq(T_(t), dag(o * a), m); t = A; t -= A * g; teq(T_(t), a - a * o, m); Complex c; c = trace(g * A); teq(T_(c), trace_(o * a), m); c = trace(A * g); teq(T_(c), trace_(a * o), m); t = g * A * A; teq(T_(t), o * a * a, m); }
  else { Complex c; c = localInnerProduct(A, g * A); teq(T_(c), ip_(a, o * a), m); c = innerProduct(A, g * A); teq(T_(c), ip_(a, o * a), m); }
}
template<class V, bool mat, int n> static void each(const V& A, const TT& a) {
  act<V, mat>(GammaConst<4, n>(), n, false, A, a, "compile-time gamma"); act<V, mat>(GammaConstDP<4, n>(), n, true, A, a, "compile-time gamma, Dirac-Pauli"); act<V, mat>(Gamma(n), n, false, A, a, "run-time gamma"); act<V, mat>(GammaDP(n), n, true, A, a, "run-time gamma, Dirac-Pauli");
  if constexpr (n > 0) each<V, mat, n - 1>(A, a); }
template<class V, bool mat> static void all16() { V A; symfill(A, "A"); TT a = T_(A); each<V, mat, 15>(A, a); }
void harness_main() {
  qh_start_param(2, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  if (kind == 0) { // the oracle's generators satisfy the Clifford algebra, so do the library's: closed under products on an arbitrary spinor
    for (int dp = 0; dp < 2; dp++) for (int mu = 0; mu < 4; mu++) { TT g = gen_<F>(mu, dp); teq(dag(g), g, "hermitian"); for (int nu = 0; nu < 4; nu++) { TT h = gen_<F>(nu, dp), s = g * h + h * g; TT u = unit(g); teq(s, mu == nu ? u + u : u - u, "anticommutator"); } }
    SpinVector A; symfill(A, "A"); TT a = T_(A); SpinVector s, t;
    for (int n = 0; n < 16; n++) for (int m = 0; m < 16; m++) { int sw = 0; for (int i = 0; i < 4; i++) if (m >> i & 1) for (int j = i + 1; j < 4; j++) sw += n >> j & 1; F sg = sw & 1 ? -1 : 1; s = Gamma(n) * (Gamma(m) * A); t = Gamma(n ^ m) * A; teq(T_(s), scal(T_(t), sg, F(0)), "product of two run-time gammas"); s = GammaDP(n) * (GammaDP(m) * A); t = GammaDP(n ^ m) * A; teq(T_(s), scal(T_(t), sg, F(0)), "product of two run-time gammas, Dirac-Pauli"); }
    SpinVector B; symfill(B, "B"); for (int n = 0; n < 16; n++) { Complex x, y; x = localInnerProduct(B, Gamma(n) * A); y = localInnerProduct(Gamma(n) * B, A); int k = __builtin_popcount(n); F sg = k * (k - 1) / 2 % 2 ? -1 : 1; teq(T_(x), scal(T_(y), sg, F(0)), "adjoint of a product"); } }
  else if (kind == 1) all16<SpinVector, false>();
  else if (kind == 2) all16<Fermion, false>();
  else if (kind == 3) all16<SpinMatrix, true>();
  else if (kind == 4) { Propagator A; symfill(A, "A"); TT a = T_(A); Propagator t; int n = sym_choose("n", 0, 15); TT g = gam_<F>(n, false), d = gam_<F>(n, true); t = Gamma(n) * A; teq(T_(t), g * a, "Gamma * propagator"); t = A * Gamma(n); teq(T_(t), a * g, "propagator * Gamma"); t = GammaDP(n) * A; teq(T_(t), d * a, "GammaDP * propagator"); t = A * GammaDP(n); teq(T_(t), a * d, "propagator * GammaDP"); t = Gamma(n) * A * Gamma(15 - n); teq(T_(t), g * a * gam_<F>(15 - n, false), "Gamma * propagator * Gamma"); Complex c; c = trace(Gamma(n) * A); teq(T_(c), trace_(g * a), "trace(Gamma * propagator)"); SpinMatrix S; S = traceColor(Gamma(n) * A); teq(T_(S), trace_c(g * a), "traceColor(Gamma * propagator)"); }
  else { // fields, with a symbolic index, over a subset
    LatticeFermion A, t; LatticeSpinMatrix M, u; symfill(A, "A"); symfill(M, "M"); int n = sym_choose("n", 0, 15); TT g = gam_<F>(n, false), d = gam_<F>(n, true); t = zero; t[rb[0]] = Gamma(n) * A; t[rb[1]] = GammaDP(n) * A; u[rb[0]] = M * Gamma(n); u[rb[1]] = GammaDP(n) * M;
    for (int s = 0; s < Layout::sitesOnNode(); s++) { bool r = (n ^ 0, Layout::siteCoords(0, s)[0] + Layout::siteCoords(0, s)[1] + Layout::siteCoords(0, s)[2] + Layout::siteCoords(0, s)[3]) & 1; teq(ldsite<F>(t.elem(s)), (r ? d : g) * ldsite<F>(A.elem(s)), "gamma on a field"); teq(ldsite<F>(u.elem(s)), r ? d * ldsite<F>(M.elem(s)) : ldsite<F>(M.elem(s)) * g, "gamma on a matrix field"); } }
  sym_cover("end");
}
