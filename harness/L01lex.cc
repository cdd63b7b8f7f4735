// crtesn/local_site for every extent up to a bound
#include "qf.h"
#include "qdp_util.h"
void harness_main() {
  int B = (int)sym_param("max", 8);
  multi1d<int> n(Nd), x(Nd);
  for (int i = 0; i < Nd; i++) { n[i] = sym_range("n", 1, B); x[i] = sym_range("x", 0, B - 1); sym_assume(x[i] < n[i]); }
  int s = local_site(x, n);
  int r = x[0] + n[0] * (x[1] + n[1] * (x[2] + n[2] * x[3]));
  sym_assert(s == r, "lexicographic rank");
  multi1d<int> y = crtesn(s, n);
  for (int i = 0; i < Nd; i++) sym_assert(y[i] == x[i], "crtesn inverts local_site");
  sym_observe("s", s);
  sym_cover("end");
}
