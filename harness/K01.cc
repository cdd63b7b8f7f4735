// vector kernels selected for spinor-field expressions, against the plain site formula; KIND selects the group of expressions
#include "gam.h"
#ifndef FERM
#define FERM LatticeFermion
#define REALT Real
#define COMPLEXT Complex
#endif
#ifndef KIND
#define KIND 0
#endif
typedef FERM LF; typedef REALT R_; typedef COMPLEXT C_;
typedef WordType<R_>::Type_t F; typedef Ten<F> TT;
typedef GammaConst<Ns, Ns * Ns - 1> G5;
static TT g5() { return gam_<F>(15, false); }
static TT pp(const TT& x) { return scal(x + g5() * x, F(0.5), F(0)); }
static TT pm(const TT& x) { return scal(x - g5() * x, F(0.5), F(0)); }
static TT ti(const TT& x) { return scal(x, F(0), F(1)); }
struct Env { LF x0, y0, d0, x, y, d; R_ a, b; C_ c, e; TableFunc f; Set st; int N; F ar, br; };
static inline TT rs(F r, const TT& x) { return scal(x, r, F(0)); }
static inline TT cs(const C_& z, const TT& x) { Ten<F> t = ld<F>(z); return scal(x, t.v[0].r, t.v[0].i); }
// alias: 0 none, 1 destination is x, 2 destination is y, 3 x is y, 4 all the same
template<class OP, class FORM> static void form(Env& v, OP op, FORM fm, const char* m) {
  const Subset& sub = v.st[0];
  for (int al = 0; al < 5; al++) {
    v.x = v.x0; v.y = v.y0; v.d = v.d0;
    LF *px = &v.x, *py = &v.y, *pd = &v.d; if (al == 1) pd = px; if (al == 2) pd = py; if (al >= 3) py = px; if (al == 4) pd = px;
    LF xi(*px), yi(*py), di(*pd);
    op(*pd, *px, *py, sub);
    for (int s = 0; s < v.N; s++) {
      if (!in_table(v.f, s, 0)) samesite(pd->elem(s), di.elem(s), m);
      else teq(ldsite<F>(pd->elem(s)), fm(ldsite<F>(di.elem(s)), ldsite<F>(xi.elem(s)), ldsite<F>(yi.elem(s))), m);
      if (px != pd) samesite(px->elem(s), xi.elem(s), m); if (py != pd) samesite(py->elem(s), yi.elem(s), m);
    } } }
#define T3(OP, EXPR, FORM) form(v, [&](LF& d, const LF& x, const LF& y, const Subset& sub) { d[sub] OP EXPR; }, [&](const TT& D, const TT& X, const TT& Y) -> TT { return FORM; }, "d[subset] " #OP " " #EXPR);
static void run(Env& v) {
  R_ &a = v.a, &b = v.b; C_ &c = v.c, &e = v.e; F ar = v.ar, br = v.br;
#if KIND == 0
  T3(+=, a * x, D + rs(ar, X)) T3(-=, a * x, D - rs(ar, X)) T3(+=, x * a, D + rs(ar, X)) T3(-=, x * a, D - rs(ar, X))
  T3(=, a * x + y, rs(ar, X) + Y) T3(=, y + a * x, rs(ar, X) + Y) T3(=, a * x - y, rs(ar, X) - Y) T3(=, y - a * x, Y - rs(ar, X))
  T3(=, x * a + y, rs(ar, X) + Y) T3(=, y + x * a, rs(ar, X) + Y) T3(=, x * a - y, rs(ar, X) - Y) T3(=, y - x * a, Y - rs(ar, X))
#elif KIND == 1
  T3(=, a * x, rs(ar, X)) T3(=, x * a, rs(ar, X)) T3(*=, a, rs(ar, D)) T3(+=, x, D + X) T3(-=, x, D - X) T3(=, x + y, X + Y) T3(=, x - y, X - Y) T3(=, -x, rs(F(-1), X)) T3(=, x, X)
  sym_assume(ar != 0); form(v, [&](LF& d, const LF& x, const LF& y, const Subset& sub) { d[sub] /= a; for (int s = 0; s < v.N; s++) if (in_table(v.f, s, 0)) d.elem(s) *= a.elem(); }, [&](const TT& D, const TT& X, const TT& Y) -> TT { return D; }, "(d[subset] /= a) * a");
#elif KIND == 2
  T3(=, a * x + b * y, rs(ar, X) + rs(br, Y)) T3(=, x * a + b * y, rs(ar, X) + rs(br, Y)) T3(=, a * x + y * b, rs(ar, X) + rs(br, Y)) T3(=, x * a + y * b, rs(ar, X) + rs(br, Y))
  T3(=, a * x - b * y, rs(ar, X) - rs(br, Y)) T3(=, x * a - b * y, rs(ar, X) - rs(br, Y)) T3(=, a * x - y * b, rs(ar, X) - rs(br, Y)) T3(=, x * a - y * b, rs(ar, X) - rs(br, Y))
#elif KIND == 3
  T3(*=, c, cs(c, D)) T3(=, c * x, cs(c, X)) T3(=, x * c, cs(c, X)) T3(+=, c * x, D + cs(c, X)) T3(+=, x * c, D + cs(c, X)) T3(-=, c * x, D - cs(c, X)) T3(-=, x * c, D - cs(c, X))
  T3(=, c * x + y, cs(c, X) + Y) T3(=, x * c + y, cs(c, X) + Y) T3(=, c * x - y, cs(c, X) - Y) T3(=, x * c - y, cs(c, X) - Y)
  T3(=, y + c * x, Y + cs(c, X)) T3(=, y + x * c, Y + cs(c, X)) T3(=, y - c * x, Y - cs(c, X)) T3(=, y - x * c, Y - cs(c, X))
#elif KIND == 4
  T3(=, c * x + e * y, cs(c, X) + cs(e, Y)) T3(=, x * c + e * y, cs(c, X) + cs(e, Y)) T3(=, c * x + y * e, cs(c, X) + cs(e, Y)) T3(=, x * c + y * e, cs(c, X) + cs(e, Y))
  T3(=, c * x - e * y, cs(c, X) - cs(e, Y)) T3(=, x * c - e * y, cs(c, X) - cs(e, Y)) T3(=, c * x - y * e, cs(c, X) - cs(e, Y)) T3(=, x * c - y * e, cs(c, X) - cs(e, Y))
#elif KIND == 5
  T3(+=, a * chiralProjectPlus(x), D + rs(ar, pp(X))) T3(+=, a * chiralProjectMinus(x), D + rs(ar, pm(X))) T3(-=, a * chiralProjectPlus(x), D - rs(ar, pp(X))) T3(-=, a * chiralProjectMinus(x), D - rs(ar, pm(X)))
  T3(+=, chiralProjectPlus(x), D + pp(X)) T3(+=, chiralProjectMinus(x), D + pm(X)) T3(-=, chiralProjectPlus(x), D - pp(X)) T3(-=, chiralProjectMinus(x), D - pm(X))
  T3(=, x + a * chiralProjectPlus(y), X + rs(ar, pp(Y))) T3(=, x + a * chiralProjectMinus(y), X + rs(ar, pm(Y))) T3(=, x - a * chiralProjectPlus(y), X - rs(ar, pp(Y))) T3(=, x - a * chiralProjectMinus(y), X - rs(ar, pm(Y)))
#elif KIND == 6
  T3(=, a * x + chiralProjectPlus(y), rs(ar, X) + pp(Y)) T3(=, a * x + chiralProjectMinus(y), rs(ar, X) + pm(Y)) T3(=, a * x - chiralProjectPlus(y), rs(ar, X) - pp(Y)) T3(=, a * x - chiralProjectMinus(y), rs(ar, X) - pm(Y))
  T3(=, a * chiralProjectPlus(x), rs(ar, pp(X))) T3(=, a * chiralProjectMinus(x), rs(ar, pm(X))) T3(=, chiralProjectPlus(x), pp(X)) T3(=, chiralProjectMinus(x), pm(X))
  T3(=, x + chiralProjectPlus(y), X + pp(Y)) T3(=, x - chiralProjectMinus(y), X - pm(Y)) T3(=, chiralProjectPlus(x) + y, pp(X) + Y) T3(=, a * chiralProjectPlus(x) + y, rs(ar, pp(X)) + Y)
#elif KIND == 7
  T3(=, a * x + b * chiralProjectPlus(y), rs(ar, X) + rs(br, pp(Y))) T3(=, a * x + b * chiralProjectMinus(y), rs(ar, X) + rs(br, pm(Y))) T3(=, a * x - b * chiralProjectPlus(y), rs(ar, X) - rs(br, pp(Y))) T3(=, a * x - b * chiralProjectMinus(y), rs(ar, X) - rs(br, pm(Y)))
#elif KIND == 8
  T3(=, a * (G5() * x), rs(ar, g5() * X)) T3(=, x - a * (G5() * y), X - rs(ar, g5() * Y)) T3(=, a * x + b * (G5() * y), rs(ar, X) + rs(br, g5() * Y)) T3(=, G5() * (a * x - b * y), g5() * (rs(ar, X) - rs(br, Y)))
  T3(=, x + a * (G5() * y), X + rs(ar, g5() * Y)) T3(=, a * x - b * (G5() * y), rs(ar, X) - rs(br, g5() * Y)) T3(=, G5() * (a * x + b * y), g5() * (rs(ar, X) + rs(br, Y)))
#elif KIND == 9
  T3(=, a * x + b * (G5() * timesI(y)), rs(ar, X) + rs(br, g5() * ti(Y))) T3(=, a * x - b * (G5() * timesI(y)), rs(ar, X) - rs(br, g5() * ti(Y)))
  T3(=, x + a * (G5() * timesI(y)), X + rs(ar, g5() * ti(Y))) T3(=, x - a * (G5() * timesI(y)), X - rs(ar, g5() * ti(Y))) T3(+=, a * (G5() * timesI(x)), D + rs(ar, g5() * ti(X))) T3(-=, a * (G5() * timesI(x)), D - rs(ar, g5() * ti(X)))
#elif KIND == 10
  // reductions with optimised implementations
  typedef double D2; int N = v.N; const Subset& sub = v.st[0]; const LF &x = v.x0, &y = v.y0;
  D2 n = 0, nall = 0, rr = 0, ri = 0, rrall = 0, riall = 0;
  for (int s = 0; s < N; s++) { Ten<D2> p = ldsite<D2>(x.elem(s)), q = ldsite<D2>(y.elem(s)); D2 k = ip_(p, p).v[0].r; Cx_<D2> z = ip_(p, q).v[0]; nall += k; rrall += z.r; riall += z.i; if (in_table(v.f, s, 0)) { n += k; rr += z.r; ri += z.i; } }
#define DV(z) ((double)(z))
  auto chkr = [&](auto got, D2 want, const char* m) { sym_feq64(DV(got.elem().elem().elem().elem()), want, m); };
  auto chkc = [&](auto got, D2 wr, D2 wi, const char* m) { sym_feq64(DV(got.elem().elem().elem().real()), wr, m); sym_feq64(DV(got.elem().elem().elem().imag()), wi, m); };
  chkr(norm2(x, sub), n, "norm2(x, subset)"); chkr(norm2(x), nall, "norm2(x)"); chkc(innerProduct(x, y, sub), rr, ri, "innerProduct(x, y, subset)"); chkc(innerProduct(x, y), rrall, riall, "innerProduct(x, y)");
  chkr(innerProductReal(x, y, sub), rr, "innerProductReal(x, y, subset)"); chkr(innerProductReal(x, y), rrall, "innerProductReal(x, y)");
  chkr(norm2(x, all), nall, "norm2(x, all)"); chkc(innerProduct(x, y, all), rrall, riall, "innerProduct(x, y, all)"); chkr(innerProductReal(x, y, all), rrall, "innerProductReal(x, y, all)");
#elif KIND == 11
  typedef double D2; int N = v.N; const Subset& sub = v.st[0]; multi1d<LF> x(2), y(2); x[0] = v.x0; x[1] = v.d0; y[0] = v.y0; y[1] = v.x0;
  D2 n = 0, nall = 0, rr = 0, ri = 0, rrall = 0, riall = 0;
  for (int j = 0; j < 2; j++) for (int s = 0; s < N; s++) { Ten<D2> p = ldsite<D2>(x[j].elem(s)), q = ldsite<D2>(y[j].elem(s)); D2 k = ip_(p, p).v[0].r; Cx_<D2> z = ip_(p, q).v[0]; nall += k; rrall += z.r; riall += z.i; if (in_table(v.f, s, 0)) { n += k; rr += z.r; ri += z.i; } }
#define DV(z) ((double)(z))
  auto chkr = [&](auto got, D2 want, const char* m) { sym_feq64(DV(got.elem().elem().elem().elem()), want, m); };
  auto chkc = [&](auto got, D2 wr, D2 wi, const char* m) { sym_feq64(DV(got.elem().elem().elem().real()), wr, m); sym_feq64(DV(got.elem().elem().elem().imag()), wi, m); };
  chkr(norm2(x, sub), n, "norm2(array, subset)"); chkr(norm2(x), nall, "norm2(array)"); chkc(innerProduct(x, y, sub), rr, ri, "innerProduct(array, array, subset)"); chkc(innerProduct(x, y), rrall, riall, "innerProduct(array, array)");
  chkr(innerProductReal(x, y, sub), rr, "innerProductReal(array, array, subset)"); chkr(innerProductReal(x, y), rrall, "innerProductReal(array, array)");
#endif
}
void harness_main() {
  qh_start_param(3, 1, 1, 1); Env v; v.N = Layout::sitesOnNode(); some_table(v.f);
  v.st.make(v.f); if (v.st[0].hasOrderedRep()) sym_cover("ordered"); else sym_cover("scattered");
  symfill(v.x0, "x"); symfill(v.y0, "y"); symfill(v.d0, "d"); symfill(v.a, "a"); symfill(v.b, "b"); symfill(v.c, "c"); symfill(v.e, "e"); v.ar = word(v.a, 0); v.br = word(v.b, 0);
  run(v);
  sym_cover("end"); }
