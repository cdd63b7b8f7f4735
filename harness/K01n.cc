// the fused update-and-norm kernels on exactly-sized arrays
#include "qh.h"
#include "tens.h"
static float* arr(int n, const char* nm, float* keep) { float* p = (float*)sym_alloc_at(n * 4, 16, 0); for (int i = 0; i < n; i++) { p[i] = sym_f32(nm); keep[i] = p[i]; } return p; }
static float zk[64], xk[64], yk[64];
void harness_main() {
  int n = sym_param("n", 1), N = 6 * n;
  float A = sym_f32("a"), B = sym_f32("b"), a[1], b[1];
  for (int al = 0; al < 3; al++) for (int k = 0; k < 2; k++) {
    float* x = arr(N, "x", xk); float* y = arr(N, "y", yk); float* z = al == 1 ? x : al == 2 ? y : arr(N, "z", zk); float nrm[1]; a[0] = A; b[0] = B;
    if (k == 0) vaxpy3_norm(z, a, x, y, n, nrm); else vaxmby3_norm(z, a, x, b, y, n, nrm);
    float want = 0;
    for (int i = 0; i < N; i++) { float w = k == 0 ? A * xk[i] + yk[i] : A * xk[i] - B * yk[i]; want += w * w; sym_feq(z[i], w, "update of the fused kernel"); if (z != x) sym_feq(x[i], xk[i], "input x kept"); if (z != y) sym_feq(y[i], yk[i], "input y kept"); }
    sym_feq(nrm[0], want, "norm of the fused kernel"); }
  sym_observe("end", 1); sym_cover("end"); }
