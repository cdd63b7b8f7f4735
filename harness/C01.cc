// reading and writing single elements: sites, colour and spin components, whole-subset extraction
#include "tens.h"
#ifndef KIND
#define KIND 0
#endif
static TableFunc f; static Set st;
template<class T> static T& at(OLattice<T>& x, int s) { return x.elem(s); }
template<class T> static T& at(OScalar<T>& x, int) { return x.elem(); }
template<class T> static int sites(const OLattice<T>&) { return Layout::sitesOnNode(); }
template<class T> static int sites(const OScalar<T>&) { return 1; }
template<class T> static typename Words<T>::w* first(T& x) { return (typename Words<T>::w*)&x; }
// the place of one component inside a site object, in words
template<class T> static int place(const T& x, int a, int b, int c, int d) { typedef Shape<T> S; typedef Shape<typename S::sub> S2; return (const typename Words<T>::w*)&S2::get(S::get(x, a, b), c, d) - (const typename Words<T>::w*)&x; }
// SPIN: the index names spin components (else colour). w[k]: the word of the big object holding word k of the component
template<bool SPIN, class T, class V> static void words(const T& x, const V& v, int i, int j, int* w) {
  typedef Shape<V> S; typedef Shape<typename S::sub> S2; int q = sizeof(decltype(S2::get(S::get(v, 0, 0), 0, 0))) / sizeof(typename Words<V>::w);
  for (int a = 0; a < S::r; a++) for (int b = 0; b < S::c; b++) for (int c = 0; c < S2::r; c++) for (int d = 0; d < S2::c; d++) { int from = SPIN ? place(x, i, j, c, d) : place(x, a, b, i, j), to = place(v, a, b, c, d); for (int z = 0; z < q; z++) w[to + z] = from + z; } }
template<bool SPIN, class FT, class VT, class PEEK, class POKE> static void comp(FT& F0, VT& v, int n, int m, PEEK peek, POKE poke, const char* nm) {
  typedef typename std::remove_reference<decltype(at(F0, 0))>::type T; typedef typename std::remove_reference<decltype(at(v, 0))>::type V; int N = sites(F0);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
    int w[Words<V>::n]; words<SPIN>(at(F0, 0), at(v, 0), i, j, w);
    VT r = peek(F0, i, j); for (int s = 0; s < N; s++) for (int k = 0; k < (int)Words<V>::n; k++) sym_assert(samew(word(at(r, s), k), word(at(F0, s), w[k])), nm);
    FT g = F0; poke(g, v, i, j);
    for (int s = 0; s < N; s++) { bool in[Words<T>::n]; for (bool& x : in) x = false; bool ok = true; for (int k = 0; k < (int)Words<V>::n; k++) { in[w[k]] = true; ok = ok & samew(word(at(g, s), w[k]), word(at(v, s), k)); }
      sym_assert(ok, "the poked component has the new value"); ok = true; for (int k = 0; k < (int)Words<T>::n; k++) if (!in[k]) ok = ok & samew(word(at(g, s), k), word(at(F0, s), k)); sym_assert(ok, "no other component changes"); } } }
template<bool SPIN, class FT, class VT, class POKE> static void sub(FT& F0, VT& v, int i, int j, POKE poke) {
  typedef typename std::remove_reference<decltype(at(F0, 0))>::type T; typedef typename std::remove_reference<decltype(at(v, 0))>::type V; int N = sites(F0);
  int w[Words<V>::n]; words<SPIN>(at(F0, 0), at(v, 0), i, j, w); FT g = F0; poke(g, v, st[0]);
  for (int s = 0; s < N; s++) { bool in[Words<T>::n]; for (bool& x : in) x = false; bool t = in_table(f, s, 0), ok = true;
    for (int k = 0; k < (int)Words<V>::n; k++) if (t) { in[w[k]] = true; ok = ok & samew(word(at(g, s), w[k]), word(at(v, s), k)); }
    for (int k = 0; k < (int)Words<T>::n; k++) if (!in[k]) ok = ok & samew(word(at(g, s), k), word(at(F0, s), k)); sym_assert(ok, "poking a component on a subset changes it there only"); } }
static int XIJ(int i, int j = 0) { return 8 * i + j; }
template<bool SPIN, class FT, class VT, class POKE> static void subx(FT& F0, VT& v, int ij, POKE poke) { // the poked value is v + v, everywhere and on a subset
  typedef typename std::remove_reference<decltype(at(F0, 0))>::type T; typedef typename std::remove_reference<decltype(at(v, 0))>::type V; int N = sites(F0), w[Words<V>::n]; words<SPIN>(at(F0, 0), at(v, 0), ij / 8, ij % 8, w);
  for (int on = 0; on < 2; on++) { FT g = F0; poke(g, v, on ? &st[0] : 0);
    for (int s = 0; s < N; s++) { bool in[Words<T>::n]; for (bool& x : in) x = false; bool t = !on || in_table(f, s, 0), ok = true; for (int k = 0; k < (int)Words<V>::n; k++) if (t) { in[w[k]] = true; eqw(word(at(g, s), w[k]), word(at(v, s), k) + word(at(v, s), k), "poking an expression"); }
      for (int k = 0; k < (int)Words<T>::n; k++) if (!in[k]) ok = ok & samew(word(at(g, s), k), word(at(F0, s), k)); sym_assert(ok, "poking an expression changes the named component only"); } } }
#define DECL(FT, VT) FT F; VT v; symfill(F, "f"); symfill(v, "v");
#define ONE [](auto& x, int i, int) { return x; }
#define COMP2(SPIN, FN, FT, VT, n) { DECL(FT, VT) comp<SPIN>(F, v, n, n, [](FT& x, int i, int j) -> VT { return peek##FN(x, i, j); }, [](FT& x, VT& y, int i, int j) { poke##FN(x, y, i, j); }, "peek" #FN " of " #FT " returns the named component"); }
#define COMP1(SPIN, FN, FT, VT, n) { DECL(FT, VT) comp<SPIN>(F, v, n, 1, [](FT& x, int i, int) -> VT { return peek##FN(x, i); }, [](FT& x, VT& y, int i, int) { poke##FN(x, y, i); }, "peek" #FN " of " #FT " returns the named component"); }
#define BOTH(SPIN, FN, C, T, V, n) COMP##C(SPIN, FN, Lattice##T, Lattice##V, n) COMP##C(SPIN, FN, T, V, n)
#define SUB2(SPIN, FN, T, V, i, j) { DECL(Lattice##T, Lattice##V) sub<SPIN>(F, v, i, j, [](Lattice##T& x, Lattice##V& y, const Subset& s) { poke##FN(x[s], y, i, j); }); }
#define SUB1(SPIN, FN, T, V, i) { DECL(Lattice##T, Lattice##V) sub<SPIN>(F, v, i, 0, [](Lattice##T& x, Lattice##V& y, const Subset& s) { poke##FN(x[s], y, i); }); }
// sites
template<class T> static void bysite(const char* nm) {
  OLattice<T> F; OScalar<T> v; symfill(F, nm); symfill(v, "v"); int N = Layout::sitesOnNode();
  for (int r = 0; r < N; r++) { multi1d<int> c = lexcoord(r); OScalar<T> x = peekSite(F, c); OLattice<T> g = F; pokeSite(g, v, c);
    for (int s = 0; s < N; s++) { bool here = lexrank(Layout::siteCoords(0, s)) == r; if (here) samesite(x.elem(), F.elem(s), "peekSite returns the named site"); samesite(g.elem(s), here ? v.elem() : F.elem(s), "pokeSite changes the named site only"); } }
  OScalar<T> y = peekSite(v, lexcoord(0)); samesite(y.elem(), v.elem(), "peekSite of a scalar object"); }
template<class T> static void arrays(const char* nm) {
  OLattice<T> F, G; symfill(F, nm); symfill(G, "g"); int N = Layout::sitesOnNode(); const Subset& s0 = st[0]; multi1d<OScalar<T> > a(N); for (int s = 0; s < N; s++) symsite(a[s].elem(), "a");
  multi1d<OScalar<T> > b = a; QDP_extract(b, F, s0); for (int s = 0; s < N; s++) samesite(b[s].elem(), in_table(f, s, 0) ? F.elem(s) : a[s].elem(), "extraction fills the subset's entries by site index");
  OLattice<T> H = G; QDP_insert(H, b, s0); for (int s = 0; s < N; s++) samesite(H.elem(s), in_table(f, s, 0) ? F.elem(s) : G.elem(s), "inserting what was extracted restores the subset and nothing else");
  H = G; QDP_insert(H, a, all); for (int s = 0; s < N; s++) samesite(H.elem(s), a[s].elem(), "insertion everywhere"); b = a; QDP_extract(b, H, all); for (int s = 0; s < N; s++) samesite(b[s].elem(), a[s].elem(), "extraction everywhere"); }
void harness_main() {
  qh_start_param(3, 1, 1, 1);
#if KIND == 3 || KIND == 5
  some_table(f); st.make(f);
#endif
#if KIND == 0
  BOTH(false, Color, 2, ColorMatrix, Complex, Nc) BOTH(false, Color, 1, ColorVector, Complex, Nc) BOTH(true, Spin, 2, SpinMatrix, Complex, Ns) BOTH(true, Spin, 1, SpinVector, Complex, Ns)
#elif KIND == 1
  BOTH(false, Color, 1, Fermion, SpinVector, Nc) BOTH(true, Spin, 1, Fermion, ColorVector, Ns) BOTH(true, Spin, 1, HalfFermion, ColorVector, Ns / 2)
#elif KIND == 2
  BOTH(false, Color, 2, Propagator, SpinMatrix, Nc) BOTH(true, Spin, 2, Propagator, ColorMatrix, Ns)
#elif KIND == 3
  SUB2(false, Color, ColorMatrix, Complex, 1, 2) SUB1(false, Color, ColorVector, Complex, 2) SUB2(true, Spin, SpinMatrix, Complex, 3, 1) SUB1(true, Spin, SpinVector, Complex, 2) SUB1(false, Color, Fermion, SpinVector, 1) SUB1(true, Spin, Fermion, ColorVector, 3) SUB2(false, Color, Propagator, SpinMatrix, 0, 2) SUB2(true, Spin, Propagator, ColorMatrix, 2, 0)
#define SUBX(SPIN, FN, T, V, ...) { DECL(Lattice##T, Lattice##V) subx<SPIN>(F, v, XIJ(__VA_ARGS__), [](Lattice##T& x, Lattice##V& y, const Subset* s) { if (s) poke##FN(x[*s], y + y, __VA_ARGS__); else poke##FN(x, y + y, __VA_ARGS__); }); { Lattice##V r = peek##FN(F - F - F, __VA_ARGS__), q = peek##FN(F, __VA_ARGS__); for (int s = 0; s < Layout::sitesOnNode(); s++) for (int k = 0; k < (int)Words<std::decay<decltype(v.elem(0))>::type>::n; k++) eqw(word(r.elem(s), k), -word(q.elem(s), k), "peek of an expression"); } }
  SUBX(true, Spin, SpinMatrix, Complex, 2, 1) SUBX(true, Spin, SpinVector, Complex, 3) SUBX(true, Spin, Fermion, ColorVector, 1) SUBX(false, Color, Fermion, SpinVector, 2) SUBX(false, Color, ColorVector, Complex, 1) SUBX(false, Color, ColorMatrix, Complex, 2, 0) SUBX(true, Spin, Propagator, ColorMatrix, 1, 3) SUBX(false, Color, Propagator, SpinMatrix, 1, 2)
  { // expressions as sources
    LatticeColorMatrix u, w; symfill(u, "u"); symfill(w, "w"); LatticeComplex z, y; symfill(z, "z"); symfill(y, "y"); LatticeComplex r = peekColor(u + w, 1, 0); int p = place(u.elem(0), 0, 0, 1, 0);
    for (int s = 0; s < Layout::sitesOnNode(); s++) for (int q = 0; q < 2; q++) eqw(word(r.elem(s), q), word(u.elem(s), p + q) + word(w.elem(s), p + q), "component of an expression");
    LatticeColorMatrix g = u; pokeColor(g, z + y, 2, 1); p = place(u.elem(0), 0, 0, 2, 1); for (int s = 0; s < Layout::sitesOnNode(); s++) for (int k = 0; k < 18; k++) if (k == p || k == p + 1) eqw(word(g.elem(s), k), word(z.elem(s), k - p) + word(y.elem(s), k - p), "poked expression"); else sym_assert(samew(word(g.elem(s), k), word(u.elem(s), k)), "other components");
    g = u; pokeColor(g[st[0]], z + y, 0, 1); p = place(u.elem(0), 0, 0, 0, 1); for (int s = 0; s < Layout::sitesOnNode(); s++) for (int k = 0; k < 18; k++) if (in_table(f, s, 0) && (k == p || k == p + 1)) eqw(word(g.elem(s), k), word(z.elem(s), k - p) + word(y.elem(s), k - p), "poked expression on a subset"); else sym_assert(samew(word(g.elem(s), k), word(u.elem(s), k)), "other components and sites");
    LatticeFermion ps, pt; symfill(ps, "psi"); symfill(pt, "pti"); LatticeColorVector cv = peekSpin(ps - pt, 2); for (int s = 0; s < Layout::sitesOnNode(); s++) for (int k = 0; k < 6; k++) { int o = place(ps.elem(0), 2, 0, k / 2, 0) + k % 2; eqw(word(cv.elem(s), k), word(ps.elem(s), o) - word(pt.elem(s), o), "spin component of an expression"); }
    { LatticePropagator P; symfill(P, "P"); LatticeComplex x = peekColor(peekSpin(P, 1, 3), 2, 0), y = peekSpin(peekColor(P, 2, 0), 1, 3); int o = place(P.elem(0), 1, 3, 2, 0); for (int s = 0; s < Layout::sitesOnNode(); s++) for (int q = 0; q < 2; q++) { sym_assert(samew(word(x.elem(s), q), word(P.elem(s), o + q)), "component of a component"); sym_assert(samew(word(y.elem(s), q), word(P.elem(s), o + q)), "component of a component, colour first"); } }
    LatticeReal a, b; symfill(a, "a"); symfill(b, "b"); for (int rk = 0; rk < Layout::sitesOnNode(); rk++) { Real x = peekSite(a + b, lexcoord(rk)); int s = Layout::linearSiteIndex(lexcoord(rk)); eqw(word(x.elem(), 0), word(a.elem(s), 0) + word(b.elem(s), 0), "site of an expression"); } }
#elif KIND == 4
  bysite<LatticeReal::Subtype_t>("r"); bysite<LatticeInteger::Subtype_t>("i"); bysite<LatticeColorMatrix::Subtype_t>("u"); bysite<LatticeFermion::Subtype_t>("psi"); bysite<LatticeRealD::Subtype_t>("rd"); bysite<LatticeBoolean::Subtype_t>("b");
  { LatticeRealD F; Real v; symfill(F, "F"); symfill(v, "v"); for (int r = 0; r < Layout::sitesOnNode(); r++) { LatticeRealD g = F; pokeSite(g, RealD(v), lexcoord(r)); for (int s = 0; s < Layout::sitesOnNode(); s++) eqw(word(g.elem(s), 0), lexrank(Layout::siteCoords(0, s)) == r ? (double)word(v.elem(), 0) : word(F.elem(s), 0), "pokeSite of another precision"); } }
#elif KIND == 5
  arrays<LatticeReal::Subtype_t>("r"); arrays<LatticeInteger::Subtype_t>("i"); arrays<LatticeColorMatrix::Subtype_t>("u"); arrays<LatticeFermion::Subtype_t>("psi");
#endif
  sym_observe("end", 1); sym_cover("end"); }
