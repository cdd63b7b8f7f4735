// the hand-vectorised double-precision kernels against their scalar formula, on exactly-sized arrays
#include "qh.h"
#include "tens.h"
#include "scalarsite_sse/sse_linalg_mm_su3_double.h"
#include "scalarsite_sse/sse_blas_vaxpy4_double.h"
#include "scalarsite_sse/sse_blas_vaypx4_double.h"
#include "scalarsite_sse/sse_blas_vaxmyz4_double.h"
#include "scalarsite_sse/sse_blas_vaxpbyz4_double.h"
#include "scalarsite_sse/sse_blas_vaxmbyz4_double.h"
#include "scalarsite_sse/sse_blas_vscal4_double.h"
#include "scalarsite_sse/sse_blas_local_sumsq_double.h"
#include "scalarsite_sse/sse_blas_local_vcdot_double.h"
#include "scalarsite_sse/sse_blas_local_vcdot_real_double.h"
#include "scalarsite_sse/sse_dcomplex_mult_macros.h"
typedef REAL64 D;
// alignment 16 bytes, or displaced by 8 for the kernels that take unaligned data
static D* arr(int n, bool al, const char* nm, D* keep) { D* p = (D*)sym_alloc_at(n * 8, 16, al ? 0 : 8); for (int i = 0; i < n; i++) { p[i] = sym_f64(nm); keep[i] = p[i]; } return p; }
enum { MAXV = 24 * 3, MAXM = 18 * 3 };
static D zk[MAXV], xk[MAXV], yk[MAXV];
static D A, B;
typedef void (*V1)(D*, D*, D*, int); typedef void (*V2)(D*, D*, D*, D*, int); typedef void (*V3)(D*, D*, D*, D*, D*, int);
static void same_in(D* p, D* keep, int n, const char* m) { for (int i = 0; i < n; i++) sym_assert(bits64(p[i]) == bits64(keep[i]), m); }
static void vec(int n) {
  int N = 24 * n; D a[1], b[1]; 
#define FRESH D* z = arr(N, true, "z", zk); D* x = arr(N, true, "x", xk); D* y = arr(N, true, "y", yk); a[0] = A; b[0] = B; (void)z; (void)x; (void)y;
#define CHECKZ(P, FORM, NAME) for (int i = 0; i < N; i++) { D Z = zk[i], X = xk[i], Y = yk[i]; (void)Z; (void)X; (void)Y; sym_feq64(P[i], FORM, NAME); }
#define KEEP(p, k, NAME) same_in(p, k, N, NAME " leaves its input alone");
  { FRESH vaxpy4(z, a, x, n); CHECKZ(z, A * X + Z, "vaxpy4") KEEP(x, xk, "vaxpy4") }
  { FRESH vaxpyz4(z, a, x, y, n); CHECKZ(z, A * X + Y, "vaxpyz4") KEEP(x, xk, "vaxpyz4") KEEP(y, yk, "vaxpyz4") }
  { FRESH vaxpyz4(x, a, x, y, n); CHECKZ(x, A * X + Y, "vaxpyz4 in place of x") KEEP(y, yk, "vaxpyz4") }
  { FRESH vaxpyz4(y, a, x, y, n); CHECKZ(y, A * X + Y, "vaxpyz4 in place of y") }
  { FRESH vaxmy4(z, a, x, n); CHECKZ(z, A * X - Z, "vaxmy4") KEEP(x, xk, "vaxmy4") }
  { FRESH vaxmyz4(z, a, x, y, n); CHECKZ(z, A * X - Y, "vaxmyz4") KEEP(x, xk, "vaxmyz4") KEEP(y, yk, "vaxmyz4") }
  { FRESH vaxmyz4(x, a, x, y, n); CHECKZ(x, A * X - Y, "vaxmyz4 in place of x") }
  { FRESH vaxmyz4(y, a, x, y, n); CHECKZ(y, A * X - Y, "vaxmyz4 in place of y") }
  { FRESH vaypx4(z, a, x, n); CHECKZ(z, A * Z + X, "vaypx4") KEEP(x, xk, "vaypx4") }
  { FRESH vaxpby4(z, a, x, b, n); CHECKZ(z, A * X + B * Z, "vaxpby4") KEEP(x, xk, "vaxpby4") }
  { FRESH vaxpbyz4(z, a, x, b, y, n); CHECKZ(z, A * X + B * Y, "vaxpbyz4") KEEP(x, xk, "vaxpbyz4") KEEP(y, yk, "vaxpbyz4") }
  { FRESH vaxpbyz4(x, a, x, b, y, n); CHECKZ(x, A * X + B * Y, "vaxpbyz4 in place of x") }
  { FRESH vaxpbyz4(y, a, x, b, y, n); CHECKZ(y, A * X + B * Y, "vaxpbyz4 in place of y") }
  { FRESH vaxmby4(z, a, x, b, n); CHECKZ(z, A * X - B * Z, "vaxmby4") KEEP(x, xk, "vaxmby4") }
  { FRESH vaxmbyz4(z, a, x, b, y, n); CHECKZ(z, A * X - B * Y, "vaxmbyz4") KEEP(x, xk, "vaxmbyz4") KEEP(y, yk, "vaxmbyz4") }
  { FRESH vaxmbyz4(x, a, x, b, y, n); CHECKZ(x, A * X - B * Y, "vaxmbyz4 in place of x") }
  { FRESH vaxmbyz4(y, a, x, b, y, n); CHECKZ(y, A * X - B * Y, "vaxmbyz4 in place of y") }
  { FRESH vscal4(z, a, x, n); CHECKZ(z, A * X, "vscal4") KEEP(x, xk, "vscal4") }
  { FRESH vscal4(x, a, x, n); CHECKZ(x, A * X, "vscal4 in place") }
  { FRESH D s = sym_f64("s"); local_sumsq4(&s, x, n); D w = 0; for (int i = 0; i < N; i++) w += xk[i] * xk[i]; sym_feq64(s, w, "local_sumsq4"); KEEP(x, xk, "local_sumsq4") }
  { FRESH D* s = (D*)sym_alloc_at(16, 16, 8); s[0] = sym_f64("s"); s[1] = sym_f64("s"); local_vcdot4(s, x, y, n); D r = 0, q = 0;
    for (int i = 0; i < N; i += 2) { r += xk[i] * yk[i] + xk[i + 1] * yk[i + 1]; q += xk[i] * yk[i + 1] - xk[i + 1] * yk[i]; } sym_feq64(s[0], r, "local_vcdot4 real part"); sym_feq64(s[1], q, "local_vcdot4 imaginary part"); KEEP(x, xk, "local_vcdot4") KEEP(y, yk, "local_vcdot4") }
  { FRESH D s = sym_f64("s"); local_vcdot_real4(&s, x, y, n); D r = 0; for (int i = 0; i < N; i++) r += xk[i] * yk[i]; sym_feq64(s, r, "local_vcdot_real4"); KEEP(x, xk, "local_vcdot_real4") }
}
typedef Ten<D> TT;
static TT mat(const D* p) { TT t(1, 1, 3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.at(0, 0, i, j) = {p[(i * 3 + j) * 2], p[(i * 3 + j) * 2 + 1]}; return t; }
static void matr(int n) {
  int N = 18 * n; D a[1];
#define FM(AL) D* z = arr(N, AL, "z", zk); D* x = arr(N, AL, "x", xk); D* y = arr(N, AL, "y", yk); a[0] = A; (void)z; (void)x; (void)y;
#define CHECKM(P, FORM, NAME) for (int k = 0; k < n; k++) { TT Z = mat(zk + 18 * k), X = mat(xk + 18 * k), Y = mat(yk + 18 * k); teq(mat(P + 18 * k), FORM, NAME); }
#define KM(p, k, NAME) same_in(p, k, N, NAME " leaves its input alone");
#define MM(AL, FN, FORM) { FM(AL) FN(z, x, y, n); CHECKM(z, FORM, #FN) KM(x, xk, #FN) KM(y, yk, #FN) }
#define AMM(AL, FN, FORM) { FM(AL) FN(z, a, x, y, n); CHECKM(z, Z + scal(FORM, A, D(0)), #FN) KM(x, xk, #FN) KM(y, yk, #FN) }
  for (int u = 0; u < 2; u++) { // scaling and accumulation use unaligned accesses
    bool al = u == 0;
    { FM(al) ssed_m_eq_scal_m(z, a, x, n); CHECKM(z, scal(X, A, D(0)), "ssed_m_eq_scal_m") KM(x, xk, "ssed_m_eq_scal_m") }
    { FM(al) ssed_m_eq_scal_m(x, a, x, n); CHECKM(x, scal(X, A, D(0)), "ssed_m_eq_scal_m in place") }
    { FM(al) ssed_m_muleq_scal(z, a, n); CHECKM(z, scal(Z, A, D(0)), "ssed_m_muleq_scal") }
    { FM(al) ssed_m_peq_m(z, x, n); CHECKM(z, Z + X, "ssed_m_peq_m") KM(x, xk, "ssed_m_peq_m") }
    { FM(al) ssed_m_meq_m(z, x, n); CHECKM(z, Z - X, "ssed_m_meq_m") KM(x, xk, "ssed_m_meq_m") }
    { FM(al) ssed_m_peq_m(z, z, n); CHECKM(z, Z + Z, "ssed_m_peq_m of itself") }
    { FM(al) ssed_m_meq_m(z, z, n); CHECKM(z, Z - Z, "ssed_m_meq_m of itself") }
    { FM(al) ssed_m_peq_h(z, x, n); CHECKM(z, Z + dag(X), "ssed_m_peq_h") KM(x, xk, "ssed_m_peq_h") }
    { FM(al) ssed_m_meq_h(z, x, n); CHECKM(z, Z - dag(X), "ssed_m_meq_h") KM(x, xk, "ssed_m_meq_h") }
    MM(al, ssed_m_eq_mm_u, X * Y) MM(al, ssed_m_eq_mh_u, X * dag(Y)) MM(al, ssed_m_eq_hm_u, dag(X) * Y) MM(al, ssed_m_eq_hh_u, dag(X) * dag(Y))
    AMM(al, ssed_m_peq_amm_u, X * Y) AMM(al, ssed_m_peq_amh_u, X * dag(Y)) AMM(al, ssed_m_peq_ahm_u, dag(X) * Y) AMM(al, ssed_m_peq_ahh_u, dag(X) * dag(Y))
  }
  MM(true, ssed_m_eq_mm, X * Y) MM(true, ssed_m_eq_mh, X * dag(Y)) MM(true, ssed_m_eq_hm, dag(X) * Y) MM(true, ssed_m_eq_hh, dag(X) * dag(Y))
  AMM(true, ssed_m_peq_amm, X * Y) AMM(true, ssed_m_peq_amh, X * dag(Y)) AMM(true, ssed_m_peq_ahm, dag(X) * Y) AMM(true, ssed_m_peq_ahh, dag(X) * dag(Y))
}
typedef union { __m128d v; double d[2]; } VD;
static void cmul() {
  Cx_<D> x = {sym_f64("xr"), sym_f64("xi")}, y = {sym_f64("yr"), sym_f64("yi")}, z = {sym_f64("zr"), sym_f64("zi")};
#define CM(MAC, FORM) { VD X, Y, Z; X.d[0] = x.r; X.d[1] = x.i; Y.d[0] = y.r; Y.d[1] = y.i; Z.d[0] = z.r; Z.d[1] = z.i; MAC(Z.v, X.v, Y.v); Cx_<D> w = FORM; sym_feq64(Z.d[0], w.r, #MAC " real part"); sym_feq64(Z.d[1], w.i, #MAC " imaginary part"); }
  CM(CMUL, x * y) CM(CMADD, z + x * y) CM(CONJMUL, x * cj(y)) CM(CONJMADD, z + x * cj(y)) CM(CCMUL, cj(x) * cj(y)) CM(CCMADD, z + cj(x) * cj(y)) }
void harness_main() {
  A = sym_f64("a"); B = sym_f64("b"); int n = (int)sym_param("n", 1);
  switch (sym_param("kind", 0)) { case 0: vec(n); break; case 1: matr(n); break; case 2: cmul(); break; }
  sym_cover("end"); }
