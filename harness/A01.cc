// complex and real site arithmetic against the textbook definitions
#include "qf.h"
#include <cmath>
#define RE(x) word((x).elem(), 0)
#define IM(x) word((x).elem(), 1)
#define CEQ(EXPR, R, I) { auto t_ = EXPR; Cx t; t = EXPR; eqw(RE(t), (F)(R), #EXPR " (real part)"); eqw(IM(t), (F)(I), #EXPR " (imaginary part)"); (void)t_; }
#define REQ(EXPR, R) { Rl t; t = EXPR; eqw(RE(t), (F)(R), #EXPR); }
#define CUP(OP, RHS, R, I) { Cx t; t = z; t OP RHS; eqw(RE(t), (F)(R), "z " #OP " " #RHS " (real part)"); eqw(IM(t), (F)(I), "z " #OP " " #RHS " (imaginary part)"); }
template<class Cx, class Rl, class C2, class R2, class F> static void complex_ops() {
  Cx z; C2 w; Rl r; R2 q; symfill(z, "z"); symfill(w, "w"); symfill(r, "r"); symfill(q, "q"); F a = RE(z), b = IM(z), c = RE(w), d = IM(w), x = RE(r), y = RE(q); sym_assume(c * c + d * d > 0); sym_assume(x != 0); sym_assume(y != 0); F n = c * c + d * d;
  CEQ(+z, a, b) CEQ(-z, -a, -b) CEQ(z + w, a + c, b + d) CEQ(z - w, a - c, b - d) CEQ(w - z, c - a, d - b) CEQ(z * w, a * c - b * d, a * d + b * c) CEQ(w * z, a * c - b * d, a * d + b * c)
  CEQ(z + r, a + x, b) CEQ(r + z, a + x, b) CEQ(z - r, a - x, b) CEQ(r - z, x - a, -b) CEQ(z * r, a * x, b * x) CEQ(r * z, a * x, b * x) CEQ(z + q, a + y, b) CEQ(q - z, y - a, -b) CEQ(q * z, a * y, b * y)
  CEQ(z + 2, a + 2, b) CEQ(2 * z, 2 * a, 2 * b) CEQ(z * 3, 3 * a, 3 * b) CEQ(1 - z, 1 - a, -b) CEQ(z - 1, a - 1, b)
  { Cx t; t = z / w; eqw(RE(t) * n, a * c + b * d, "z / w (real part)"); eqw(IM(t) * n, b * c - a * d, "z / w (imaginary part)"); t = z / r; eqw(RE(t) * x, a, "z / r"); eqw(IM(t) * x, b, "z / r"); t = r / w; eqw(RE(t) * n, x * c, "r / w"); eqw(IM(t) * n, -x * d, "r / w"); t = z; t /= w; eqw(RE(t) * n, a * c + b * d, "z /= w (real part)"); eqw(IM(t) * n, b * c - a * d, "z /= w (imaginary part)"); t = z; t /= q; eqw(RE(t) * y, a, "z /= q"); eqw(IM(t) * y, b, "z /= q"); t = z / 4; eqw(RE(t) * 4, a, "z / 4"); eqw(IM(t) * 4, b, "z / 4"); t = 3 / w; eqw(RE(t) * n, 3 * c, "3 / w"); eqw(IM(t) * n, -3 * d, "3 / w"); t = z / q; eqw(RE(t) * y, a, "z / q"); eqw(IM(t) * y, b, "z / q"); }
  CEQ(adj(z), a, -b) CEQ(conj(z), a, -b) CEQ(transpose(z), a, b) CEQ(trace(z), a, b) CEQ(adj(z) * w, a * c + b * d, a * d - b * c) CEQ(z * adj(w), a * c + b * d, b * c - a * d) CEQ(adj(z) * adj(w), a * c - b * d, -(a * d + b * c)) CEQ(conj(z) * w, a * c + b * d, a * d - b * c) CEQ(transpose(z) * w, a * c - b * d, a * d + b * c)
  CEQ(r * conj(z), a * x, -b * x) CEQ(adj(z + w) * (z - w), (a + c) * (a - c) + (b + d) * (b - d), (a + c) * (b - d) - (b + d) * (a - c)) CEQ(adj(z) * z * w, (a * a + b * b) * c, (a * a + b * b) * d)
  CEQ(timesI(z), -b, a) CEQ(timesMinusI(z), b, -a) CEQ(timesI(r), 0, x) CEQ(timesMinusI(r), 0, -x) CEQ(timesI(timesI(z)), -a, -b) CEQ(timesI(timesMinusI(z)), a, b)
  REQ(real(z), a) REQ(imag(z), b) REQ(realTrace(z), a) REQ(imagTrace(z), b) REQ(real(adj(z) * z), a * a + b * b) REQ(imag(adj(z) * z), 0) REQ(localNorm2(z), a * a + b * b) REQ(localInnerProductReal(z, w), a * c + b * d) CEQ(localInnerProduct(z, w), a * c + b * d, a * d - b * c) REQ(localNorm2(r), x * x) CEQ(cmplx(r, q), x, y) CEQ(cmplx(q, r), y, x) CEQ(trace(z * w), a * c - b * d, a * d + b * c) { auto tm = traceMultiply(z.elem(), w.elem()); eqw((F)word(tm, 0), a * c - b * d, "traceMultiply"); eqw((F)word(tm, 1), a * d + b * c, "traceMultiply"); } REQ(real(z * w), a * c - b * d) REQ(imag(z * w), a * d + b * c) REQ(norm2(z), a * a + b * b)
  CEQ(localInnerProduct(z, z), a * a + b * b, 0) CEQ(outerProduct(z, w), a * c + b * d, b * c - a * d) CEQ(localColorInnerProduct(z, w), a * c + b * d, a * d - b * c)
  CUP(=, w, c, d) CUP(+=, w, a + c, b + d) CUP(-=, w, a - c, b - d) CUP(*=, w, a * c - b * d, a * d + b * c) CUP(=, r, x, 0) CUP(+=, r, a + x, b) CUP(-=, r, a - x, b) CUP(*=, r, a * x, b * x) CUP(=, zero, 0, 0) CUP(+=, z, a + a, b + b) CUP(*=, z, a * a - b * b, 2 * a * b) CUP(-=, z, 0, 0) CUP(+=, 2, a + 2, b) CUP(*=, 2, 2 * a, 2 * b) CUP(=, 5, 5, 0) CUP(+=, adj(z) * w, a + a * c + b * d, b + a * d - b * c) CUP(-=, z * adj(w), a - (a * c + b * d), b - (b * c - a * d)) CUP(=, adj(z), a, -b) CUP(=, timesI(z), -b, a)
  { Cx t(z); sym_assert(samew(RE(t), RE(z)) & samew(IM(t), IM(z)), "copy"); Cx v(w); eqw(RE(v), c, "conversion"); eqw(IM(v), d, "conversion"); Cx s(r); eqw(RE(s), x, "complex from real"); eqw(IM(s), (F)0, "complex from real"); Cx o(1); eqw(RE(o), (F)1, "complex from literal"); eqw(IM(o), (F)0, "complex from literal"); Cx zz(zero); eqw(IM(zz), (F)0, "zero"); }
  { Rl t = r; t += q; eqw(RE(t), x + y, "r += q"); t = r; t -= q; eqw(RE(t), x - y, "r -= q"); t = r; t *= q; eqw(RE(t), x * y, "r *= q"); t = r; t /= q; eqw(RE(t) * y, x, "r /= q"); REQ(r + q, x + y) REQ(r - q, x - y) REQ(q - r, y - x) REQ(r * q, x * y) REQ(-r, -x) REQ(+r, x) REQ(adj(r), x) REQ(conj(r), x) REQ(transpose(r), x) REQ(trace(r), x) REQ(realTrace(r), x) REQ(real(r), x) REQ(adj(r) * q, x * y) REQ(r * adj(q), x * y) REQ(adj(r) * adj(q), x * y) REQ(localInnerProduct(r, q), x * y) REQ(localInnerProductReal(r, q), x * y) t = r / q; eqw(RE(t) * y, x, "r / q"); REQ(fabs(r), std::fabs(x)) REQ(outerProduct(r, q), x * y) REQ(trace(r * q), x * y) REQ(imag(r), 0) REQ(imagTrace(r), 0) }
}
void harness_main() {
  qh_start_param(2, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  if (kind == 0) complex_ops<Complex, Real, Complex, Real, WordType<Real>::Type_t>();
  else if (kind == 1) complex_ops<ComplexD, RealD, ComplexD, RealD, double>();
  else if (kind == 2) complex_ops<ComplexD, RealD, ComplexF, RealF, double>();
  else if (kind == 3) complex_ops<ComplexF, RealF, ComplexF, RealF, float>();
  else { // integers, mixed integer and real
    typedef WordType<Real>::Type_t F; Integer m, n; symfill(m, "m"); symfill(n, "n"); Real r; Complex z; symfill(r, "r"); symfill(z, "z"); F x = RE(r), a = RE(z), b = IM(z); int i = RE(m), k = RE(n); sym_assume(k > 0); sym_assume(k < 1000); sym_assume(i > -1000); sym_assume(i < 1000);
    { Real t; t = r * n; eqw(RE(t), x * (F)k, "real times integer"); t = n * r; eqw(RE(t), x * (F)k, "integer times real"); t = r + n; eqw(RE(t), x + (F)k, "real plus integer"); t = r - n; eqw(RE(t), x - (F)k, "real minus integer"); t = n - r; eqw(RE(t), (F)k - x, "integer minus real"); t = r / n; eqw(RE(t), x / (F)k, "real over integer"); t = n; eqw(RE(t), (F)k, "real from integer"); t = Real(m) / Real(n); eqw(RE(t), (F)i / (F)k, "quotient of converted integers"); }
    { Complex t; t = z * n; eqw(RE(t), a * (F)k, "complex times integer"); eqw(IM(t), b * (F)k, "complex times integer"); t = n * z; eqw(RE(t), a * (F)k, "integer times complex"); eqw(IM(t), b * (F)k, "integer times complex"); t = z + n; eqw(RE(t), a + (F)k, "complex plus integer"); eqw(IM(t), b, "complex plus integer"); t = n - z; eqw(RE(t), (F)k - a, "integer minus complex"); eqw(IM(t), -b, "integer minus complex"); t = n; eqw(RE(t), (F)k, "complex from integer"); eqw(IM(t), (F)0, "complex from integer"); t = z; t *= n; eqw(IM(t), b * (F)k, "complex *= integer"); t = z; t /= n; eqw(RE(t) * (F)k, a, "complex /= integer"); t = z / n; eqw(RE(t) * (F)k, a, "complex over integer"); eqw(IM(t) * (F)k, b, "complex over integer"); }
    { Integer t; t = m / n; sym_assert(RE(t) == i / k, "integer quotient"); t = m % n; sym_assert(RE(t) == i % k, "integer remainder"); t = m; t /= n; sym_assert(RE(t) == i / k, "in-place quotient"); t = m; t %= n; sym_assert(RE(t) == i % k, "in-place remainder"); t = m * n; sym_assert(RE(t) == i * k, "product"); t = m; t <<= Integer(3); sym_assert(RE(t) == (int)((unsigned)i << 3), "shift"); t = m; t ^= n; sym_assert(RE(t) == (i ^ k), "xor"); Boolean p; p = m < n; sym_assert(toBool(p) == (i < k), "comparison"); sym_assert(toInt(m) == i, "toInt"); eqw((F)toFloat(r), x, "toFloat"); eqw(toDouble(r), (double)x, "toDouble"); }
  }
  sym_cover("end");
}
