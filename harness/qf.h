// Symbolic fields and word-level access to QDP objects.
#pragma once
#include "qh.h"
template<class T> struct Words { typedef typename WordType<T>::Type_t w; enum { n = sizeof(T) / sizeof(w) }; };
template<class T> static inline typename Words<T>::w& word(T& x, int i) { return ((typename Words<T>::w*)&x)[i]; }
template<class T> static inline const typename Words<T>::w& word(const T& x, int i) { return ((const typename Words<T>::w*)&x)[i]; }
static inline void symw(float& x, const char* n) { x = sym_f32(n); }
static inline void symw(double& x, const char* n) { x = sym_f64(n); }
static inline void symw(int& x, const char* n) { x = (int)sym_int(n, 32); }
static inline void symw(bool& x, const char* n) { x = sym_int(n, 1) != 0; }
template<class T> static inline void symsite(T& x, const char* n) { for (int i = 0; i < Words<T>::n; i++) symw(word(x, i), n); }
template<class T> static inline void symfill(OLattice<T>& f, const char* n) { for (int s = 0; s < Layout::sitesOnNode(); s++) symsite(f.elem(s), n); }
template<class T> static inline void symfill(OScalar<T>& f, const char* n) { symsite(f.elem(), n); }
// numeric equality
static inline void eqw(float a, float b, const char* m) { sym_feq32(a, b, m); }
static inline void eqw(double a, double b, const char* m) { sym_feq64(a, b, m); }
static inline void eqw(int a, int b, const char* m) { sym_assert(a == b, m); }
static inline void eqw(bool a, bool b, const char* m) { sym_assert(a == b, m); }
template<class A, class B> static inline void eqsite(const A& a, const B& b, const char* m) {
  static_assert((int)Words<A>::n == (int)Words<B>::n, "shape"); for (int i = 0; i < Words<A>::n; i++) eqw(word(a, i), word(b, i), m); }
// bit-for-bit equality
static inline bool samew(float a, float b) { return bits32(a) == bits32(b); }
static inline bool samew(double a, double b) { return bits64(a) == bits64(b); }
static inline bool samew(int a, int b) { return a == b; }
static inline bool samew(bool a, bool b) { return a == b; }
template<class T> static inline void samesite(const T& a, const T& b, const char* m) { bool ok = true; for (int i = 0; i < Words<T>::n; i++) ok = ok & samew(word(a, i), word(b, i)); sym_assert(ok, m); }
template<class T> static inline void samefield(const OLattice<T>& a, const OLattice<T>& b, const char* m) { for (int s = 0; s < Layout::sitesOnNode(); s++) samesite(a.elem(s), b.elem(s), m); }
static inline multi1d<int> mk4(int a, int b, int c, int d) { multi1d<int> r(4); r[0] = a; r[1] = b; r[2] = c; r[3] = d; return r; }
// lexicographic rank of a coordinate, first coordinate fastest (independent of the library)
static inline int lexrank(const multi1d<int>& c) { const multi1d<int>& n = Layout::lattSize(); int r = 0; for (int i = Nd - 1; i >= 0; i--) r = r * n[i] + c[i]; return r; }
static inline multi1d<int> lexcoord(int r) { const multi1d<int>& n = Layout::lattSize(); multi1d<int> c(Nd); for (int i = 0; i < Nd; i++) { c[i] = r % n[i]; r /= n[i]; } return c; }
// a colouring given by a table over lexicographic rank
struct TableFunc : public SetFunc { int nc; int tab[512]; int operator()(const multi1d<int>& c) const { return tab[lexrank(c)]; } int numSubsets() const { return nc; } };
static inline void symtable(TableFunc& f, int nc, const char* n) { f.nc = nc; for (int i = 0; i < Layout::vol(); i++) f.tab[i] = nc == 1 ? 0 : sym_param("split", 0) ? sym_choose(n, 0, nc - 1) : sym_range(n, 0, nc - 1); }
// the site (linear index) is in the subset according to the function
static inline bool in_table(const TableFunc& f, int site, int c) { return f.tab[lexrank(Layout::siteCoords(0, site))] == c; }
// every two-colouring (one path each), or with parameter "few" one of five: none, all, a run, two kinds of scattered
static inline void some_table(TableFunc& f) {
  f.nc = 2; int V = Layout::vol(); if (!sym_param("few", 0)) { for (int i = 0; i < V; i++) f.tab[i] = sym_choose("col", 0, 1); return; }
  int k = sym_choose("subset", 0, 4); int i = 0;
  for (int s = 0; s < V; s++) { i = lexrank(Layout::siteCoords(0, s)); f.tab[i] = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? s == 0 : k == 3 ? s & 1 : s == V - 2; } }
