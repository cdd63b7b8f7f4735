// Multi-dimensional arrays: addressing, contents, copies and views, over symbolic indices, extents and short histories.
#include "qh.h"
#include "qdp_arrays.h"
#include <vector>
#ifndef KIND
#define KIND 0
#endif
typedef int V;
static V sv(const char* n) { return (V)sym_int(n, 32); }
static int idx(const char* n, int ext) { return sym_range(n, 0, ext - 1); }
// value at position i of a short concrete array, i symbolic
static V pick(const V* p, int n, int i) { V r = p[0]; for (int k = 1; k < n; k++) r = k == i ? p[k] : r; return r; }

// ---- one-dimensional arrays: histories over two arrays, a reference copy of each, and a view of caller memory ----
struct Ref { int n; V v[8]; };
static void check1(const multi1d<V>& a, const Ref& r, const char* m) { sym_assert(a.size() == r.n && a.size1() == r.n, "size"); if (a.size() != r.n) return; for (int i = 0; i < r.n; i++) { sym_assert(a[i] == r.v[i], m); sym_assert(&a(i) == &a[0] + i && a.slice() == &a[0], "elements are consecutive"); } }
static void hist1() {
  int L = (int)sym_param("L", 2), M = (int)sym_param("max", 3); multi1d<V> x[2]; Ref r[2];
  static V mem[4]; Ref rm; rm.n = 3; for (int i = 0; i < 3; i++) rm.v[i] = mem[i] = sv("m"); multi1d<V> view(mem, 3);
  for (int w = 0; w < 2; w++) { int n = w ? 2 : sym_choose("n", 1, M); x[w].resize(n); r[w].n = n; for (int i = 0; i < n; i++) x[w][i] = r[w].v[i] = sv("v"); }
  for (int k = 0; k < L; k++) {
    int op = sym_choose("op", 0, 13), w = k & 1, o = 1 - w; multi1d<V>&a = x[w], &b = x[o]; Ref &p = r[w], &q = r[o];
    if (op == 0) { int i = sym_choose("i", 0, p.n - 1); V v = sv("v"); a[i] = v; for (int j = 0; j < p.n; j++) p.v[j] = j == i ? v : p.v[j]; int j = idx("j", p.n); const multi1d<V>& c = a; sym_assert(c[j] == pick(p.v, p.n, j) && c(j) == a[j], "the last value written there"); }
    else if (op == 1) { a = b; p = q; }
    else if (op == 2) { a = a; }
    else if (op == 3) { V v = sv("s"); a = v; for (int j = 0; j < p.n; j++) p.v[j] = v; }
    else if (op == 4) { static V c[8]; for (int j = 0; j < p.n; j++) p.v[j] = c[j] = sv("c"); a = (const V*)c; }
    else if (op == 5) { int n = sym_choose("n", 1, M); a.resize(n); p.n = n; for (int j = 0; j < n; j++) a(j) = p.v[j] = sv("v"); }
    else if (op == 6) { multi1d<V> c(a); for (int j = 0; j < p.n; j++) c[j] = c[j] + 1; check1(a, p, "changing a copy leaves the original"); a[0] = p.v[0] = sv("v"); for (int j = 0; j < p.n; j++) if (j) sym_assert(c[j] == p.v[j] + 1, "changing the original leaves the copy"); }
    else if (op == 7) { if (p.n != q.n) continue; a += b; for (int j = 0; j < p.n; j++) p.v[j] = (V)((unsigned)p.v[j] + (unsigned)q.v[j]); }
    else if (op == 8) { if (p.n != q.n) continue; a -= b; for (int j = 0; j < p.n; j++) p.v[j] = (V)((unsigned)p.v[j] - (unsigned)q.v[j]); }
    else if (op == 9) { if (p.n != q.n) continue; a *= b; for (int j = 0; j < p.n; j++) p.v[j] = (V)((unsigned)p.v[j] * (unsigned)q.v[j]); }
    else if (op == 10) { if (p.n + q.n > 6) continue; multi1d<V> c = concat(a, b); sym_assert(c.size() == p.n + q.n, "size of a concatenation"); for (int j = 0; j < c.size(); j++) sym_assert(c[j] == (j < p.n ? p.v[j] : q.v[j - p.n]), "concatenation"); }
    else if (op == 11) { if (p.n != 3) sym_allow_abort(1); view = a; if (p.n != 3) sym_fail("resizing a view was not refused"); for (int j = 0; j < 3; j++) rm.v[j] = p.v[j]; }
    else if (op == 12) { int i = sym_choose("i", 0, 2); V v = sv("v"); view[i] = v; for (int j = 0; j < 3; j++) rm.v[j] = j == i ? v : rm.v[j]; for (int j = 0; j < 3; j++) sym_assert(mem[j] == rm.v[j], "a view writes the caller's memory"); multi1d<V> c(view); c[0] = c[0] + 1; sym_assert(mem[0] == rm.v[0], "a copy of a view is independent"); }
    else { a = view; p = rm; a[0] = p.v[0] = sv("v"); }
    for (int u = 0; u < 2; u++) check1(x[u], r[u], "contents after a history of operations"); check1(view, rm, "contents of the view");
  }
}
// comparisons of one-dimensional arrays: lexicographic
static void cmp1() {
  int n = sym_choose("n", 1, 3), m = sym_choose("m", 1, 3); multi1d<V> a(n), b(m); for (int i = 0; i < n; i++) a[i] = (V)(int8_t)sym_int("a", 8); for (int i = 0; i < m; i++) b[i] = (V)(int8_t)sym_int("b", 8);
  int c = 0; for (int i = 0; i < 3 && c == 0; i++) { if (i >= n || i >= m) { c = n == m ? 0 : n < m ? -1 : 1; break; } c = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0; }
  sym_assert((a == b) == (c == 0), "equality"); sym_assert((a != b) == (c != 0), "inequality"); sym_assert((a < b) == (c < 0), "less"); sym_assert((a > b) == (c > 0), "greater"); sym_assert((a <= b) == (c <= 0), "less or equal"); sym_assert((a >= b) == (c >= 0), "greater or equal"); }
// element-wise arithmetic on arrays of numbers (over the reals)
static void math1() {
  typedef double R; int n = sym_choose("n", 1, 3); multi1d<R> a(n), b(n); R x[3], y[3], s = sym_f64("s"); for (int i = 0; i < n; i++) { a[i] = x[i] = sym_f64("x"); b[i] = y[i] = sym_f64("y"); }
#define EACH(call, want) { multi1d<R> c = call; sym_assert(c.size() == n, "size of a result"); for (int i = 0; i < n; i++) sym_feq(c[i], (R)(want), #call); for (int i = 0; i < n; i++) { sym_feq(a[i], x[i], "operands stay"); sym_feq(b[i], y[i], "operands stay"); } }
  EACH(a + b, x[i] + y[i]) EACH(a - b, x[i] - y[i]) EACH(a * b, x[i] * y[i]) EACH(s + a, s + x[i]) EACH(a + s, x[i] + s) EACH(a - s, x[i] - s) EACH(s * a, s * x[i]) EACH(a * s, x[i] * s)
#ifdef SMINUS
  EACH(s - a, s - x[i])
#endif
  sym_assume(s != 0); for (int i = 0; i < n; i++) sym_assume((x[i] != 0) & (y[i] != 0)); EACH(a / b, x[i] / y[i]) EACH(s / a, s / x[i]) EACH(a / s, x[i] / s)
#ifdef SMINUS
  { multi1d<R> c = concat(a, b); sym_assert(c.size() == 2 * n, "size of a concatenation"); for (int i = 0; i < 2 * n; i++) sym_feq(c[i], i < n ? x[i] : y[i - n], "concatenation"); }
#endif
  { multi1d<RealD> u(n); for (int i = 0; i < n; i++) u[i].elem().elem().elem().elem() = x[i];
#define EACHF(fn) { multi1d<RealD> c = fn(u); sym_assert(c.size() == n, "size of a result"); for (int i = 0; i < n; i++) { sym_feq(c[i].elem().elem().elem().elem(), ::fn(x[i]), #fn " of an array"); sym_feq(u[i].elem().elem().elem().elem(), x[i], "operands stay"); } }
    EACHF(sqrt) EACHF(log) EACHF(sin) EACHF(cos) EACHF(tan) EACHF(asin) EACHF(acos) EACHF(atan) }
  R q = 0; for (int i = 0; i < n; i++) q += x[i] * x[i]; sym_feq(norm2(a), q, "norm2"); Array1dO<R> o(a), nn; nn = -o; for (int i = 1; i <= n; i++) sym_feq(nn[i], -x[i - 1], "negation of a one-based array"); Array1dO<R> m = s * o, d = o / s; for (int i = 1; i <= n; i++) { sym_feq(m[i], s * x[i - 1], "scaled one-based array"); sym_feq(d[i], x[i - 1] / s, "divided one-based array"); }
  { multi1d<R> c(a); c += s; for (int i = 0; i < n; i++) sym_feq(c[i], x[i] + s, "+="); c = a; c -= s; for (int i = 0; i < n; i++) sym_feq(c[i], x[i] - s, "-="); c = a; c *= s; for (int i = 0; i < n; i++) sym_feq(c[i], x[i] * s, "*="); c = a; c /= s; for (int i = 0; i < n; i++) sym_feq(c[i], x[i] / s, "/="); c = a; c /= b; for (int i = 0; i < n; i++) sym_feq(c[i], x[i] / y[i], "/="); }
}
// ---- addressing for all extents: a view of a fixed buffer ----
static V buf[1 << 12];
static long off(const V* p) { return p - buf; }
static void address() {
  int n[5], i[5]; for (int k = 0; k < 5; k++) { n[k] = (int)sym_int("n", 6); i[k] = (int)sym_int("i", 6); } // 0: fastest
  long w = 0; { multi2d<V> m(buf, n[1], n[0]); const multi2d<V>& c = m; w = i[0] + (long)n[0] * i[1]; V* p = &m(i[1], i[0]); sym_assert(off(p) == w && &c(i[1], i[0]) == p, "2d: row-major"); sym_assert(m.slice(i[1]) == buf + (long)n[0] * i[1] && &m[i[1]][i[0]] == p && &c[i[1]](i[0]) == p, "2d slice"); sym_assert(m.size1() == n[0] && m.size2() == n[1] && m.nrows() == n[1] && m.ncols() == n[0] && m[i[1]].size() == n[0], "2d sizes"); }
  { multi3d<V> m(buf, n[2], n[1], n[0]); const multi3d<V>& c = m; w = i[0] + (long)n[0] * (i[1] + (long)n[1] * i[2]); V* p = &m(i[2], i[1], i[0]); sym_assert(off(p) == w && &c(i[2], i[1], i[0]) == p, "3d: row-major"); sym_assert(m.slice(i[2], i[1]) == p - i[0], "3d slice"); sym_assert(&m[i[2]](i[1], i[0]) == p && &c[i[2]][i[1]][i[0]] == p, "3d sub-array"); sym_assert(m.size1() == n[0] && m.size2() == n[1] && m.size3() == n[2] && m.leftSize() == n[2] && m.middleSize() == n[1] && m.rightSize() == n[0], "3d sizes"); }
  { multi4d<V> m(buf, n[3], n[2], n[1], n[0]); const multi4d<V>& c = m; w = i[0] + (long)n[0] * (i[1] + (long)n[1] * (i[2] + (long)n[2] * i[3])); V* p = &m(i[3], i[2], i[1], i[0]); sym_assert(off(p) == w && &c(i[3], i[2], i[1], i[0]) == p, "4d: row-major"); sym_assert(m.slice(i[3], i[2], i[1]) == p - i[0], "4d slice"); sym_assert(&m[i[3]](i[2], i[1], i[0]) == p && &c[i[3]][i[2]][i[1]][i[0]] == p, "4d sub-array"); sym_assert(m.size1() == n[0] && m.size2() == n[1] && m.size3() == n[2] && m.size4() == n[3], "4d sizes"); }
  { multi5d<V> m(buf, n[4], n[3], n[2], n[1], n[0]); const multi5d<V>& c = m; w = i[0] + (long)n[0] * (i[1] + (long)n[1] * (i[2] + (long)n[2] * (i[3] + (long)n[3] * i[4]))); V* p = &m(i[4], i[3], i[2], i[1], i[0]); sym_assert((int)off(p) == (int)w && &c(i[4], i[3], i[2], i[1], i[0]) == p, "5d: row-major"); sym_assert(m.slice(i[4], i[3], i[2], i[1]) == p - i[0], "5d slice"); sym_assert(&m[i[4]](i[3], i[2], i[1], i[0]) == p && &c[i[4]][i[3]][i[2]][i[1]][i[0]] == p, "5d sub-array"); sym_assert(m.size1() == n[0] && m.size2() == n[1] && m.size3() == n[2] && m.size4() == n[3] && m.size5() == n[4], "5d sizes"); }
}
// ---- owning arrays of rank 2..5 and of run-time rank ----
struct A2 { typedef multi2d<V> T; enum { R = 2 }; static T mk(const int* n) { return T(n[1], n[0]); } static void re(T& a, const int* n) { a.resize(n[1], n[0]); } static V& at(T& a, const int* i) { return a(i[1], i[0]); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1]; } };
struct A3 { typedef multi3d<V> T; enum { R = 3 }; static T mk(const int* n) { return T(n[2], n[1], n[0]); } static void re(T& a, const int* n) { a.resize(n[2], n[1], n[0]); } static V& at(T& a, const int* i) { return a(i[2], i[1], i[0]); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1] && a.size3() == n[2]; } };
struct A4 { typedef multi4d<V> T; enum { R = 4 }; static T mk(const int* n) { return T(n[3], n[2], n[1], n[0]); } static void re(T& a, const int* n) { a.resize(n[3], n[2], n[1], n[0]); } static V& at(T& a, const int* i) { return a(i[3], i[2], i[1], i[0]); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1] && a.size3() == n[2] && a.size4() == n[3]; } };
struct A5 { typedef multi5d<V> T; enum { R = 5 }; static T mk(const int* n) {
#ifdef CTOR5
    return T(n[4], n[3], n[2], n[1], n[0]);
#else
    T t; t.resize(n[4], n[3], n[2], n[1], n[0]); return t;
#endif
  } static void re(T& a, const int* n) { a.resize(n[4], n[3], n[2], n[1], n[0]); } static V& at(T& a, const int* i) { return a(i[4], i[3], i[2], i[1], i[0]); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1] && a.size3() == n[2] && a.size4() == n[3] && a.size5() == n[4]; } };
template<int K> struct AN { typedef multiNd<V> T; enum { R = K }; static multi1d<int> ext(const int* n) { multi1d<int> e(K); for (int k = 0; k < K; k++) e[k] = n[K - 1 - k]; return e; } static T mk(const int* n) { return T(ext(n)); } static void re(T& a, const int* n) { a.resize(ext(n)); }
  static V& at(T& a, const int* i) { const T& c = a; V* p = &a[ext(i)]; sym_assert(&c[ext(i)] == p, "const access"); if (K == 1) sym_assert(&a(i[0]) == p && &c(i[0]) == p, "index tuple and index array agree"); if (K == 2) sym_assert(&a(i[1], i[0]) == p && &c(i[1], i[0]) == p, "index tuple and index array agree"); if (K == 3) sym_assert(&a(i[2], i[1], i[0]) == p && &c(i[2], i[1], i[0]) == p, "index tuple and index array agree"); if (K == 4) sym_assert(&a(i[3], i[2], i[1], i[0]) == p && &c(i[3], i[2], i[1], i[0]) == p, "index tuple and index array agree"); return *p; }
  static bool sz(T& a, const int* n) { bool ok = a.size().size() == K; int t = 1; for (int k = 0; k < K; k++) { ok = ok && a.size(k) == n[K - 1 - k] && a.size()[k] == n[K - 1 - k]; t *= n[k]; } ok = ok && a.numElem() == t; const T& c = a; for (int e = 0; e < t; e++) ok = ok && &a.getElem(e) == &a.getElem(0) + e && &c.getElem(e) == &a.getElem(e); return ok; } };
struct O1 { typedef Array1dO<V> T; enum { R = 1 }; static T mk(const int* n) { return T(n[0]); } static void re(T& a, const int* n) { a.resize(n[0]); } static V& at(T& a, const int* i) { const T& c = a; sym_assert(&c[i[0] + 1] == &a[i[0] + 1] && &a.ref()[i[0]] == &a[i[0] + 1], "one-based"); return a[i[0] + 1]; } static bool sz(T& a, const int* n) { return a.size() == n[0]; } };
struct O2 { typedef Array2dO<V> T; enum { R = 2 }; static T mk(const int* n) { return T(n[1], n[0]); } static void re(T& a, const int* n) { a.resize(n[1], n[0]); } static V& at(T& a, const int* i) { const T& c = a; sym_assert(&c(i[1] + 1, i[0] + 1) == &a(i[1] + 1, i[0] + 1) && &a.ref()(i[1], i[0]) == &a(i[1] + 1, i[0] + 1), "one-based"); return a(i[1] + 1, i[0] + 1); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1] && a.ncols() == n[0] && a.nrows() == n[1]; } };
struct O3 { typedef Array3dO<V> T; enum { R = 3 }; static T mk(const int* n) { return T(n[2], n[1], n[0]); } static void re(T& a, const int* n) { a.resize(n[2], n[1], n[0]); } static V& at(T& a, const int* i) { const T& c = a; sym_assert(&c(i[2] + 1, i[1] + 1, i[0] + 1) == &a(i[2] + 1, i[1] + 1, i[0] + 1) && &a.ref()(i[2], i[1], i[0]) == &a(i[2] + 1, i[1] + 1, i[0] + 1), "one-based"); return a(i[2] + 1, i[1] + 1, i[0] + 1); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1] && a.size3() == n[2] && a.leftSize() == n[2] && a.middleSize() == n[1] && a.rightSize() == n[0]; } };
struct O4 { typedef Array4dO<V> T; enum { R = 4 }; static T mk(const int* n) { return T(n[3], n[2], n[1], n[0]); } static void re(T& a, const int* n) { a.resize(n[3], n[2], n[1], n[0]); } static V& at(T& a, const int* i) { const T& c = a; sym_assert(&c(i[3] + 1, i[2] + 1, i[1] + 1, i[0] + 1) == &a(i[3] + 1, i[2] + 1, i[1] + 1, i[0] + 1) && &a.ref()(i[3], i[2], i[1], i[0]) == &a(i[3] + 1, i[2] + 1, i[1] + 1, i[0] + 1), "one-based"); return a(i[3] + 1, i[2] + 1, i[1] + 1, i[0] + 1); } static bool sz(T& a, const int* n) { return a.size1() == n[0] && a.size2() == n[1] && a.size3() == n[2] && a.size4() == n[3]; } };
template<class A> struct Own { typedef typename A::T T; int n[5], tot; T a; V v[64];
  Own(const int* m) : a(A::mk(m)) { ext(m); fill(); }
  void ext(const int* m) { tot = 1; for (int k = 0; k < A::R; k++) { n[k] = m[k]; tot *= n[k]; } }
  void tup(int e, int* i) { for (int k = 0; k < A::R; k++) { i[k] = e % n[k]; e /= n[k]; } }
  void fill() { for (int e = 0; e < tot; e++) { int i[5]; tup(e, i); A::at(a, i) = v[e] = sv("v"); } }
  void check(T& b, const char* m) { sym_assert(A::sz(b, n), "extents"); int z[5] = {0, 0, 0, 0, 0}; V* p0 = &A::at(b, z); for (int e = 0; e < tot; e++) { int i[5]; tup(e, i); V& x = A::at(b, i); sym_assert(&x == p0 + e, "row-major order"); sym_assert(x == v[e], m); } }
  void put(T& b, int e) { int i[5]; tup(e, i); A::at(b, i) = v[e] = sv("x"); }
  void write(T& b) { int i[5] = {0, 0, 0, 0, 0}, e = 0; for (int k = A::R - 1; k >= 0; k--) { i[k] = idx("i", n[k]); e = e * n[k] + i[k]; } V x = sv("x"); A::at(b, i) = x; for (int k = 0; k < tot; k++) v[k] ^= (v[k] ^ x) & -(V)(k == e); }
};
template<class A> static void scal(typename A::T& a, V s) { a = s; }
template<> void scal<O1>(Array1dO<V>& a, V s) { for (int i = 1; i <= a.size(); i++) a[i] = s; }
template<class A> static void own_at(const int* n) {
  typedef typename A::T T; Own<A> p(n); p.check(p.a, "contents"); if (A::R <= 3) p.write(p.a); else p.put(p.a, p.tot / 3); p.check(p.a, "a write changes one element");
  T c(p.a); p.check(c, "a copy has the contents"); V keep[64]; for (int k = 0; k < p.tot; k++) keep[k] = p.v[k]; p.put(p.a, 0); p.put(p.a, p.tot - 1); p.check(p.a, "contents"); for (int k = 0; k < p.tot; k++) { V t = p.v[k]; p.v[k] = keep[k]; keep[k] = t; } p.check(c, "writing the original leaves the copy"); p.put(c, p.tot / 2); p.put(c, 0); p.check(c, "contents of the copy"); for (int k = 0; k < p.tot; k++) { V t = p.v[k]; p.v[k] = keep[k]; keep[k] = t; } p.check(p.a, "writing the copy leaves the original");
  int m[5]; for (int k = 0; k < A::R; k++) m[k] = k == 0 ? 3 : 1; Own<A> q(m); q.a = p.a; p.check(q.a, "assignment"); for (int k = 0; k < p.tot; k++) keep[k] = p.v[k]; p.put(q.a, 0); p.put(q.a, p.tot - 1); p.check(q.a, "contents of the target"); for (int k = 0; k < p.tot; k++) p.v[k] = keep[k]; p.check(p.a, "writing the target leaves the source");
  T& self = p.a; p.a = self; p.check(p.a, "assigning an array to itself"); T d; d = p.a; p.check(d, "assignment to an empty array");
  V s = sv("s"); scal<A>(p.a, s); for (int k = 0; k < p.tot; k++) p.v[k] = s; p.check(p.a, "assignment of one value"); A::re(p.a, m); p.ext(m); p.fill(); p.check(p.a, "contents after a resize"); }
template<class A> static void own(int mx) {
  int n[5]; for (int k = 0; k < A::R; k++) n[k] = sym_choose("n", 1, mx); own_at<A>(n); }
#ifdef EMPTYN
static void emptyNd() { multiNd<V> a, b, c(a); b = a; sym_assert(a.numElem() == 0 && b.numElem() == 0 && c.numElem() == 0, "an empty array has no elements"); }
#endif
void harness_main() {
#if KIND == 0
  hist1();
#elif KIND == 1
  cmp1();
#elif KIND == 2
  math1();
#elif KIND == 3
  address();
#elif KIND == 4
  own<A2>(3); 
#elif KIND == 5
  own<A3>(2);
#elif KIND == 6
  own<A4>(2);
#elif KIND == 7
  own<A5>(2);
#elif KIND == 8
  own<AN<1>>(3);
#elif KIND == 9
  own<AN<2>>(3);
#elif KIND == 10
  own<AN<3>>(2); 
#elif KIND == 11
  own<AN<4>>(2); own<AN<5>>(1);
#elif KIND == 12
  own<O1>(3); 
#elif KIND == 13
  own<O2>(2); 
#elif KIND == 14
  own<O3>(2); 
#elif KIND == 15
  own<O4>(2);
#elif KIND == 16
  own<AN<5>>(2);
#elif KIND == 19
  { int n[5] = {2, 1, 3, 2, 1}; for (int k = 0; k < 2; k++) n[k + 3] = sym_choose("n", 1, 2); own_at<A5>(n); own_at<AN<5>>(n); own_at<O4>(n); own_at<AN<4>>(n); }
#elif KIND == 17
  emptyNd();
#endif
  sym_cover("end");
}
