// An independent index-formula oracle: an object as an array of complex numbers over (spin row, spin col, colour row, colour col).
#pragma once
#include "qf.h"
template<class F> struct Cx_ { F r, i; };
template<class F> static inline Cx_<F> operator*(Cx_<F> a, Cx_<F> b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
template<class F> static inline Cx_<F> operator+(Cx_<F> a, Cx_<F> b) { return {a.r + b.r, a.i + b.i}; }
template<class F> static inline Cx_<F> operator-(Cx_<F> a, Cx_<F> b) { return {a.r - b.r, a.i - b.i}; }
template<class F> static inline Cx_<F> cj(Cx_<F> a) { return {a.r, -a.i}; }
template<class F> struct Ten {
  int sr, sc, cr, cc; Cx_<F>* v;
  Ten(int a, int b, int c, int d) : sr(a), sc(b), cr(c), cc(d), v(new Cx_<F>[a * b * c * d]) { for (int i = 0; i < a * b * c * d; i++) v[i] = {0, 0}; }
  Ten(const Ten& o) : sr(o.sr), sc(o.sc), cr(o.cr), cc(o.cc), v(new Cx_<F>[o.size()]) { for (int i = 0; i < size(); i++) v[i] = o.v[i]; }
  ~Ten() { delete[] v; }
  Ten& operator=(const Ten& o) { if (this != &o) { delete[] v; sr = o.sr; sc = o.sc; cr = o.cr; cc = o.cc; v = new Cx_<F>[o.size()]; for (int i = 0; i < size(); i++) v[i] = o.v[i]; } return *this; }
  int size() const { return sr * sc * cr * cc; }
  Cx_<F>& at(int a, int b, int c, int d) const { return v[((a * sc + b) * cr + c) * cc + d]; }
};
#define EACH(t) for (int a = 0; a < (t).sr; a++) for (int b = 0; b < (t).sc; b++) for (int c = 0; c < (t).cr; c++) for (int d = 0; d < (t).cc; d++)
// loading
template<class F, class T> static inline Cx_<F> ldc(const RComplex<T>& x) { return {(F)x.real(), (F)x.imag()}; }
template<class F, class T> static inline Cx_<F> ldc(const RScalar<T>& x) { return {(F)x.elem(), 0}; }
template<class T> struct Shape;
template<class T> struct Shape<PScalar<T>> { enum { r = 1, c = 1 }; typedef T sub; static const T& get(const PScalar<T>& x, int, int) { return x.elem(); } };
template<class T, int N> struct Shape<PColorVector<T, N>> { enum { r = N, c = 1 }; typedef T sub; static const T& get(const PColorVector<T, N>& x, int i, int) { return x.elem(i); } };
template<class T, int N> struct Shape<PSpinVector<T, N>> { enum { r = N, c = 1 }; typedef T sub; static const T& get(const PSpinVector<T, N>& x, int i, int) { return x.elem(i); } };
template<class T, int N> struct Shape<PColorMatrix<T, N>> { enum { r = N, c = N }; typedef T sub; static const T& get(const PColorMatrix<T, N>& x, int i, int j) { return x.elem(i, j); } };
template<class T, int N> struct Shape<PSpinMatrix<T, N>> { enum { r = N, c = N }; typedef T sub; static const T& get(const PSpinMatrix<T, N>& x, int i, int j) { return x.elem(i, j); } };
template<class F, class T> static Ten<F> ldsite(const T& x) { typedef Shape<T> S; typedef Shape<typename S::sub> S2; Ten<F> t(S::r, S::c, S2::r, S2::c); EACH(t) t.at(a, b, c, d) = ldc<F>(S2::get(S::get(x, a, b), c, d)); return t; }
template<class F, class T> static Ten<F> ld(const OScalar<T>& x) { return ldsite<F>(x.elem()); }
// operations
template<class F> static Ten<F> operator+(const Ten<F>& x, const Ten<F>& y) { Ten<F> t(x); for (int i = 0; i < t.size(); i++) t.v[i] = x.v[i] + y.v[i]; return t; }
template<class F> static Ten<F> operator-(const Ten<F>& x, const Ten<F>& y) { Ten<F> t(x); for (int i = 0; i < t.size(); i++) t.v[i] = x.v[i] - y.v[i]; return t; }
static inline int dimr(int ar, int ac, int br, int bc) { return ar == 1 && ac == 1 ? br : ar; }
static inline int dimc(int ar, int ac, int br, int bc) { return br == 1 && bc == 1 ? ac : bc; }
// matrix product in each index space; a 1x1 factor acts as a scalar there
template<class F> static Ten<F> operator*(const Ten<F>& x, const Ten<F>& y) {
  bool xs = x.sr == 1 && x.sc == 1, ys = y.sr == 1 && y.sc == 1, xc = x.cr == 1 && x.cc == 1, yc = y.cr == 1 && y.cc == 1;
  Ten<F> t(xs ? y.sr : x.sr, ys ? x.sc : y.sc, xc ? y.cr : x.cr, yc ? x.cc : y.cc); int ks = xs || ys ? 1 : x.sc, kc = xc || yc ? 1 : x.cc;
  EACH(t) { Cx_<F> s = {0, 0}; for (int k = 0; k < ks; k++) for (int l = 0; l < kc; l++)
      s = s + x.at(xs ? 0 : a, xs ? 0 : ys ? b : k, xc ? 0 : c, xc ? 0 : yc ? d : l) * y.at(ys ? 0 : xs ? a : k, ys ? 0 : b, yc ? 0 : xc ? c : l, yc ? 0 : d);
    t.at(a, b, c, d) = s; }
  return t; }
template<class F> static Ten<F> tr_s(const Ten<F>& x) { Ten<F> t(x.sc, x.sr, x.cr, x.cc); EACH(t) t.at(a, b, c, d) = x.at(b, a, c, d); return t; }
template<class F> static Ten<F> tr_c(const Ten<F>& x) { Ten<F> t(x.sr, x.sc, x.cc, x.cr); EACH(t) t.at(a, b, c, d) = x.at(a, b, d, c); return t; }
template<class F> static Ten<F> tr_(const Ten<F>& x) { return tr_c(tr_s(x)); }
template<class F> static Ten<F> cj(const Ten<F>& x) { Ten<F> t(x); for (int i = 0; i < t.size(); i++) t.v[i] = cj(x.v[i]); return t; }
template<class F> static Ten<F> dag(const Ten<F>& x) { return cj(tr_(x)); }
template<class F> static Ten<F> trace_s(const Ten<F>& x) { Ten<F> t(1, 1, x.cr, x.cc); EACH(t) for (int k = 0; k < x.sr; k++) t.at(a, b, c, d) = t.at(a, b, c, d) + x.at(k, k, c, d); return t; }
template<class F> static Ten<F> trace_c(const Ten<F>& x) { Ten<F> t(x.sr, x.sc, 1, 1); EACH(t) for (int k = 0; k < x.cr; k++) t.at(a, b, c, d) = t.at(a, b, c, d) + x.at(a, b, k, k); return t; }
template<class F> static Ten<F> trace_(const Ten<F>& x) { return trace_c(trace_s(x)); }
template<class F> static Ten<F> scal(const Ten<F>& x, F r, F i) { Ten<F> t(x); for (int k = 0; k < t.size(); k++) t.v[k] = x.v[k] * Cx_<F>{r, i}; return t; }
template<class F> static Ten<F> re_(const Ten<F>& x) { Ten<F> t(x); for (int k = 0; k < t.size(); k++) t.v[k] = {x.v[k].r, 0}; return t; }
template<class F> static Ten<F> im_(const Ten<F>& x) { Ten<F> t(x); for (int k = 0; k < t.size(); k++) t.v[k] = {x.v[k].i, 0}; return t; }
// sum of conj(x) y over all components
template<class F> static Ten<F> ip_(const Ten<F>& x, const Ten<F>& y) { Ten<F> t(1, 1, 1, 1); for (int k = 0; k < x.size(); k++) t.v[0] = t.v[0] + cj(x.v[k]) * y.v[k]; return t; }
template<class F> static Ten<F> unit(const Ten<F>& x) { Ten<F> t(x); EACH(t) t.at(a, b, c, d) = {(F)((a == b || x.sc == 1) && (c == d || x.cc == 1)), 0}; return t; }
template<class F> static void teq(const Ten<F>& x, const Ten<F>& y, const char* m) { sym_assert(x.sr == y.sr && x.sc == y.sc && x.cr == y.cr && x.cc == y.cc, m); for (int i = 0; i < x.size(); i++) { eqw(x.v[i].r, y.v[i].r, m); eqw(x.v[i].i, y.v[i].i, m); } }
static inline int eps3(int i, int j, int k) { return (j - i) * (k - i) * (k - j) / 2; }
