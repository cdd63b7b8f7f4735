// utility helpers
#include "qf.h"
#include "qdp_util.h"
#define strnlen checked_strnlen
#undef QDP_STRNLEN_H
#undef HAVE_STRNLEN
#include "../lib/qdp_strnlen.cc"
#undef strnlen
static bool nanb(float f) { return (bits32(f) & 0x7fffffffu) > 0x7f800000u; } static bool nanb(double f) { return (bits64(f) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static bool infb(float f) { return (bits32(f) & 0x7fffffffu) == 0x7f800000u; } static bool infb(double f) { return (bits64(f) & 0x7fffffffffffffffull) == 0x7ff0000000000000ull; }
static bool finb(float f) { return (bits32(f) & 0x7f800000u) != 0x7f800000u; } static bool finb(double f) { return (bits64(f) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
static bool norb(float f) { uint32_t e = bits32(f) & 0x7f800000u; return (e != 0) & (e != 0x7f800000u); } static bool norb(double f) { uint64_t e = bits64(f) & 0x7ff0000000000000ull; return (e != 0) & (e != 0x7ff0000000000000ull); }
template<class T> static void classes(const char* n) {
  T a; symfill(a, n); typedef typename T::Subtype_t S; bool n1 = false, i1 = false, f1 = true, o1 = true;
  for (int w = 0; w < Words<S>::n; w++) { auto x = word(a.elem(), w); n1 = n1 | nanb(x); i1 = i1 | infb(x); f1 = f1 & finb(x); o1 = o1 & norb(x); }
  bool rn = isnan(a), ri = isinf(a), rf = isfinite(a), ro = isnormal(a);
  sym_assert(rn == n1, "isnan"); sym_assert(ri == i1, "isinf"); sym_assert(rf == f1, "isfinite"); sym_assert(ro == o1, "isnormal");
  bool en = isnan(-a), ei = isinf(-a), ef = isfinite(-a), eo = isnormal(-a);
  sym_assert(en == n1, "isnan of an expression"); sym_assert(ei == i1, "isinf of an expression"); sym_assert(ef == f1, "isfinite of an expression"); sym_assert(eo == o1, "isnormal of an expression");
}
void harness_main() {
  qh_start_param(1, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  if (kind == 0) { // each distinct value of the list appears in the result, once, and nothing else does
    int n = sym_choose("n", 0, (int)sym_param("max", 4)); multi1d<int> l(n); for (int i = 0; i < n; i++) l[i] = (int)sym_int("v", 32);
    multi1d<int> keep(n); for (int i = 0; i < n; i++) keep[i] = l[i];
    multi1d<int> u = uniquify_list(l);
    sym_assert(u.size() <= n, "no more values than were given"); sym_assert(l.size() == n, "argument untouched");
    for (int i = 0; i < n; i++) { bool in = false; for (int k = 0; k < u.size(); k++) in = in | (u[k] == keep[i]); sym_assert(in, "every value given is in the result"); sym_assert(l[i] == keep[i], "argument untouched"); }
    for (int k = 0; k < u.size(); k++) { bool in = false; for (int i = 0; i < n; i++) in = in | (u[k] == keep[i]); sym_assert(in, "every value of the result was given"); for (int j = 0; j < k; j++) sym_assert(u[j] != u[k], "no value appears twice"); }
  } else if (kind == 1) { // bounded string length: m readable bytes, bound M
    int m = sym_choose("m", 0, 5), M = sym_choose("M", 0, 6); char* s = (char*)malloc(m ? m : 1); if (!m) s[0] = 'x';
    bool term = false; int len = m, first = 0; for (int i = m - 1; i >= 0; i--) { char c = (char)sym_int("c", 8); s[i] = c; first = c ? first : i; term = term | (c == 0); }
    sym_assume(term | (M <= m)); // otherwise the caller gave no readable answer
    len = term ? first : m; int want = len < M ? len : M; // whatever lies past the bound is not examined
    int got = (int)checked_strnlen(s, M); sym_assert(got == want, "length up to the bound"); free(s);
    sym_assert(checked_strnlen(nullptr, M) == 0, "no string");
  } else if (kind == 2) { classes<RealF>("f"); classes<RealD>("d"); classes<Real>("r"); classes<ComplexF>("z"); classes<ComplexD>("zd"); }
  else if (kind == 4) { // long strings and lists, a few unknown entries
    int p = sym_choose("at", 0, 39), M = sym_choose("M", 0, 3); M = M == 0 ? 40 : M == 1 ? 17 : M == 2 ? 33 : 8; char* s = (char*)malloc(40); for (int i = 0; i < 40; i++) s[i] = (char)('a' + i % 20); char c = (char)sym_int("c", 8); s[p] = c; int want = (c == 0) & (p < M) ? p : M; int got = (int)checked_strnlen(s, M); sym_assert(got == want, "length of a longer string"); free(s);
    if (p == 0 && M == 40) { multi1d<int> l(20); for (int i = 0; i < 20; i++) l[i] = i % 7 * 3; int v = (int)sym_int("v", 32); l[19] = v; multi1d<int> u = uniquify_list(l); bool old = false; for (int i = 0; i < 7; i++) old = old | (v == i * 3); sym_assert(u.size() == (old ? 7 : 8), "number of distinct values"); for (int i = 0; i < 7; i++) { int h = 0; for (int k = 0; k < u.size(); k++) h += u[k] == i * 3; sym_assert(h == 1, "each value once"); } }
  }
  else { classes<ColorVector>("v"); classes<ColorMatrix>("m"); classes<SpinVector>("s"); classes<SpinMatrixD>("t"); }
  sym_cover("end");
}
