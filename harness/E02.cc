// expressions evaluate site by site; aliasing, temporaries, broadcasting
#include "qf.h"
#include <cmath>
static int vol;
#define W(x, s) word(x.elem(s), 0)
#define S(x) word(x.elem(), 0)
#define X(F, EXPR, REF) { F t = EXPR; for (int s = 0; s < vol; s++) eqw(W(t, s), REF, #EXPR); F t2; t2 = EXPR; for (int s = 0; s < vol; s++) samesite(t2.elem(s), t.elem(s), "construction and assignment agree: " #EXPR); }
void harness_main() {
  qh_start_param(2, 1, 1, 2); vol = Layout::vol(); int kind = (int)sym_param("kind", 0);
  if (kind == 0) {
    LatticeReal a, b, c; symfill(a, "a"); symfill(b, "b"); symfill(c, "c"); Real r, q; symfill(r, "r"); symfill(q, "q");
    X(LatticeReal, a + b, W(a, s) + W(b, s)) X(LatticeReal, a - b, W(a, s) - W(b, s)) X(LatticeReal, a * b, W(a, s) * W(b, s)) X(LatticeReal, a / b, W(a, s) / W(b, s)) X(LatticeReal, -a, -W(a, s)) X(LatticeReal, +a, W(a, s))
    X(LatticeReal, r + a, S(r) + W(a, s)) X(LatticeReal, a - r, W(a, s) - S(r)) X(LatticeReal, r - a, S(r) - W(a, s)) X(LatticeReal, r * a, S(r) * W(a, s)) X(LatticeReal, a / r, W(a, s) / S(r)) X(LatticeReal, r / a, S(r) / W(a, s)) X(LatticeReal, 2 * a, 2 * W(a, s)) X(LatticeReal, a * 3.0f, W(a, s) * 3) X(LatticeReal, a - 1, W(a, s) - 1) X(LatticeReal, 1 - a, 1 - W(a, s)) X(LatticeReal, 1 / a, 1 / W(a, s))
    X(LatticeReal, a * b + c, W(a, s) * W(b, s) + W(c, s)) X(LatticeReal, (a + b) * (c - r) - a * q, (W(a, s) + W(b, s)) * (W(c, s) - S(r)) - W(a, s) * S(q)) X(LatticeReal, a - (b - (c - a)), W(a, s) - (W(b, s) - (W(c, s) - W(a, s)))) X(LatticeReal, a - b - c, W(a, s) - W(b, s) - W(c, s)) X(LatticeReal, a / b / c, W(a, s) / W(b, s) / W(c, s)) X(LatticeReal, r * q * a, S(r) * S(q) * W(a, s)) X(LatticeReal, (r + q) * a, (S(r) + S(q)) * W(a, s))
    // the destination in the expression
    { LatticeReal d = a; d = d * d + d; for (int s = 0; s < vol; s++) eqw(W(d, s), W(a, s) * W(a, s) + W(a, s), "destination inside its expression"); d = a; d += d * b; for (int s = 0; s < vol; s++) eqw(W(d, s), W(a, s) + W(a, s) * W(b, s), "destination inside a compound assignment"); d = a; d -= d; for (int s = 0; s < vol; s++) eqw(W(d, s), 0.f, "d -= d"); d = a; d *= d; for (int s = 0; s < vol; s++) eqw(W(d, s), W(a, s) * W(a, s), "d *= d"); d = a; d = d; samefield(d, a, "d = d"); LatticeReal e(d); samefield(e, a, "copy"); d = b; samefield(e, a, "copies are independent"); }
    { LatticeReal t1 = a * b, t2 = t1 + c, t3 = t2 * (a - r); LatticeReal w = (a * b + c) * (a - r); for (int s = 0; s < vol; s++) eqw(W(w, s), W(t3, s), "temporaries"); }
    { LatticeReal d; d = r; for (int s = 0; s < vol; s++) samew(W(d, s), S(r)); LatticeReal x(r); for (int s = 0; s < vol; s++) sym_assert(samew(W(x, s), S(r)), "broadcast"); LatticeReal y(2.5f); for (int s = 0; s < vol; s++) eqw(W(y, s), 2.5f, "literal broadcast"); LatticeReal z(zero); for (int s = 0; s < vol; s++) eqw(W(z, s), 0.f, "zero broadcast"); X(LatticeReal, x * a, S(r) * W(a, s)) }
    { Real t = r * q - r; eqw(S(t), S(r) * S(q) - S(r), "scalar expression"); t = r; t *= t; eqw(S(t), S(r) * S(r), "scalar alias"); t = r; t += q * t; eqw(S(t), S(r) + S(q) * S(r), "scalar compound"); t = r / q; eqw(S(t), S(r) / S(q), "scalar quotient"); }
  } else if (kind == 1) { // functions
    LatticeReal a, b; symfill(a, "a"); symfill(b, "b"); Real r; symfill(r, "r");
    X(LatticeReal, sin(a), sinf(W(a, s))) X(LatticeReal, cos(a), cosf(W(a, s))) X(LatticeReal, tan(a), tanf(W(a, s))) X(LatticeReal, asin(a), asinf(W(a, s))) X(LatticeReal, acos(a), acosf(W(a, s))) X(LatticeReal, atan(a), atanf(W(a, s))) X(LatticeReal, exp(a), expf(W(a, s))) X(LatticeReal, log(a), logf(W(a, s))) X(LatticeReal, log10(a), log10f(W(a, s))) X(LatticeReal, sqrt(a), sqrtf(W(a, s))) X(LatticeReal, fabs(a), fabsf(W(a, s)))
    X(LatticeReal, sinh(a), sinhf(W(a, s))) X(LatticeReal, cosh(a), coshf(W(a, s))) X(LatticeReal, tanh(a), tanhf(W(a, s)))
    X(LatticeReal, pow(a, b), powf(W(a, s), W(b, s))) X(LatticeReal, atan2(a, b), atan2f(W(a, s), W(b, s))) X(LatticeReal, pow(a, r), powf(W(a, s), S(r))) X(LatticeReal, floor(a), floorf(W(a, s))) X(LatticeReal, ceil(a), ceilf(W(a, s)))
    X(LatticeReal, sin(a * b) + exp(-a), sinf(W(a, s) * W(b, s)) + expf(-W(a, s)))
    { Real t = sin(r); eqw(S(t), sinf(S(r)), "sin of a scalar"); t = exp(r * r); eqw(S(t), expf(S(r) * S(r)), "exp of a scalar"); t = fabs(r); eqw(S(t), fabsf(S(r)), "fabs of a scalar"); t = sqrt(r); eqw(S(t), sqrtf(S(r)), "sqrt of a scalar"); t = atan2(r, Real(r + r)); eqw(S(t), atan2f(S(r), S(r) + S(r)), "atan2 of scalars"); t = log(r); eqw(S(t), logf(S(r)), "log of a scalar"); t = pow(r, Real(3)); eqw(S(t), powf(S(r), 3.f), "pow"); t = cos(r); eqw(S(t), cosf(S(r)), "cos"); t = atan(r); eqw(S(t), atanf(S(r)), "atan"); t = acos(r); eqw(S(t), acosf(S(r)), "acos"); t = asin(r); eqw(S(t), asinf(S(r)), "asin"); t = tan(r); eqw(S(t), tanf(S(r)), "tan"); }
  } else if (kind == 2) { // integers and booleans
    LatticeInteger a, b, c; symfill(a, "a"); symfill(b, "b"); symfill(c, "c"); Integer r; symfill(r, "r"); for (int s = 0; s < vol; s++) { sym_assume(W(b, s) > 0); sym_assume(W(b, s) < 32); } sym_assume(S(r) > 0); sym_assume(S(r) < 32);
    X(LatticeInteger, a + b, (int)((unsigned)W(a, s) + (unsigned)W(b, s))) X(LatticeInteger, a - b, (int)((unsigned)W(a, s) - (unsigned)W(b, s))) X(LatticeInteger, a * b, (int)((unsigned)W(a, s) * (unsigned)W(b, s))) X(LatticeInteger, a & b, W(a, s) & W(b, s)) X(LatticeInteger, a | b, W(a, s) | W(b, s)) X(LatticeInteger, a ^ b, W(a, s) ^ W(b, s)) X(LatticeInteger, a << b, (int)((unsigned)W(a, s) << W(b, s))) X(LatticeInteger, a >> b, W(a, s) >> W(b, s)) X(LatticeInteger, a << r, (int)((unsigned)W(a, s) << S(r))) X(LatticeInteger, a >> r, W(a, s) >> S(r)) X(LatticeInteger, -a, (int)(0u - (unsigned)W(a, s)))
    X(LatticeInteger, a % 7, W(a, s) % 7) X(LatticeInteger, a / 7, W(a, s) / 7) X(LatticeInteger, a & r, W(a, s) & S(r)) X(LatticeInteger, (a & b) | (c ^ r), (W(a, s) & W(b, s)) | (W(c, s) ^ S(r))) 
    X(LatticeBoolean, a < c, W(a, s) < W(c, s)) X(LatticeBoolean, a <= c, W(a, s) <= W(c, s)) X(LatticeBoolean, a > c, W(a, s) > W(c, s)) X(LatticeBoolean, a >= c, W(a, s) >= W(c, s)) X(LatticeBoolean, a == c, W(a, s) == W(c, s)) X(LatticeBoolean, a != c, W(a, s) != W(c, s)) X(LatticeBoolean, a < r, W(a, s) < S(r)) X(LatticeBoolean, r >= c, S(r) >= W(c, s))
    { LatticeBoolean p, q; symfill(p, "p"); symfill(q, "q"); Boolean z; symfill(z, "z"); X(LatticeBoolean, p && q, (bool)(W(p, s) & W(q, s))) X(LatticeBoolean, p || q, (bool)(W(p, s) | W(q, s))) X(LatticeBoolean, !p, !W(p, s)) X(LatticeBoolean, p && !z, (bool)(W(p, s) & !S(z))) X(LatticeBoolean, (a < c) || p, (bool)((W(a, s) < W(c, s)) | W(p, s))) X(LatticeBoolean, (a == c) && (a < r), (bool)((W(a, s) == W(c, s)) & (W(a, s) < S(r)))) }
  } else if (kind == 3) { // mixed types and conversions
    LatticeReal a; LatticeInteger i; LatticeComplex z; LatticeColorMatrix u; LatticeColorVector v; symfill(a, "a"); symfill(i, "i"); symfill(z, "z"); symfill(u, "u"); symfill(v, "v"); Complex w; symfill(w, "w"); Real r; symfill(r, "r");
    { LatticeComplex t = z * a + r; for (int s = 0; s < vol; s++) { eqw(word(t.elem(s), 0), word(z.elem(s), 0) * W(a, s) + S(r), "complex times real plus scalar"); eqw(word(t.elem(s), 1), word(z.elem(s), 1) * W(a, s), "complex times real plus scalar"); } }
    { LatticeColorMatrix t = w * u + z * u; for (int s = 0; s < vol; s++) for (int k = 0; k < 9; k++) { float x = word(u.elem(s), 2 * k), y = word(u.elem(s), 2 * k + 1), p = word(w.elem(), 0) + word(z.elem(s), 0), q = word(w.elem(), 1) + word(z.elem(s), 1); eqw(word(t.elem(s), 2 * k), p * x - q * y, "scalar times matrix"); eqw(word(t.elem(s), 2 * k + 1), p * y + q * x, "scalar times matrix"); } }
    { LatticeColorVector t = a * (u * v); for (int s = 0; s < vol; s++) for (int j = 0; j < 3; j++) { float re = 0, im = 0; for (int k = 0; k < 3; k++) { float x = word(u.elem(s), 6 * j + 2 * k), y = word(u.elem(s), 6 * j + 2 * k + 1), p = word(v.elem(s), 2 * k), q = word(v.elem(s), 2 * k + 1); re += x * p - y * q; im += x * q + y * p; } eqw(word(t.elem(s), 2 * j), W(a, s) * re, "real times matrix times vector"); eqw(word(t.elem(s), 2 * j + 1), W(a, s) * im, "real times matrix times vector"); } }
    { LatticeReal t = LatticeReal(i) * a; for (int s = 0; s < vol; s++) eqw(W(t, s), (float)W(i, s) * W(a, s), "integer field converted to real"); LatticeComplex c = cmplx(a, LatticeReal(-a)); for (int s = 0; s < vol; s++) { eqw(word(c.elem(s), 0), W(a, s), "complex from reals"); eqw(word(c.elem(s), 1), -W(a, s), "complex from reals"); } }
    { LatticeColorMatrix d = u; d = d * d; for (int s = 0; s < vol; s++) { ColorMatrix x, y; x.elem() = u.elem(s); y = x * x; eqsite(d.elem(s), y.elem(), "aliased matrix product"); } d = u; d = adj(d) * d + d; for (int s = 0; s < vol; s++) { ColorMatrix x, y; x.elem() = u.elem(s); y = adj(x) * x; y += x; eqsite(d.elem(s), y.elem(), "aliased adjoint product"); } d = u; d = transpose(d); for (int s = 0; s < vol; s++) for (int j = 0; j < 3; j++) for (int k = 0; k < 6; k++) eqw(word(d.elem(s), 6 * j + k), word(u.elem(s), 6 * (k / 2) + 2 * j + k % 2), "aliased transpose"); d = u; d = adj(d); for (int s = 0; s < vol; s++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { eqw(word(d.elem(s), 6 * j + 2 * k), word(u.elem(s), 6 * k + 2 * j), "aliased adjoint"); eqw(word(d.elem(s), 6 * j + 2 * k + 1), -word(u.elem(s), 6 * k + 2 * j + 1), "aliased adjoint"); } }
  } else { // double precision and mixed precision
    LatticeRealD a; LatticeRealF b; symfill(a, "a"); symfill(b, "b"); RealD r; symfill(r, "r");
    X(LatticeRealD, a * a + r, W(a, s) * W(a, s) + S(r)) X(LatticeRealD, a + b, W(a, s) + (double)W(b, s)) X(LatticeRealD, b * a, (double)W(b, s) * W(a, s)) X(LatticeRealD, a - r * b, W(a, s) - S(r) * (double)W(b, s)) X(LatticeRealD, sqrt(a), sqrt(W(a, s))) X(LatticeRealD, fabs(a), fabs(W(a, s)))
    { LatticeRealF t; t = a; for (int s = 0; s < vol; s++) eqw(W(t, s), (float)W(a, s), "double field stored in single precision"); LatticeRealD d; d = b; for (int s = 0; s < vol; s++) eqw(W(d, s), (double)W(b, s), "single field stored in double precision"); d = b; d += a; for (int s = 0; s < vol; s++) eqw(W(d, s), (double)W(b, s) + W(a, s), "mixed compound"); }
  }
  sym_cover("end");
}
