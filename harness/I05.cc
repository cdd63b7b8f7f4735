// Lattice fields in binary streams: lexicographic order, sub-lattices, single sites and time slices.
#include "bin.h"
#include "setcheck.h"
#include "qdp_disk_map_slice.h"
#ifndef KIND
#define KIND 0
#endif
template<class F> static void sites(Bytes& e, const F& f, const int* order, int n) { for (int i = 0; i < n; i++) putsite(e, f.elem(order[i])); }
static int lexi(int k) { multi1d<int> c(Nd); for (int d = 0; d < Nd; d++) { c[d] = k % Layout::lattSize()[d]; k /= Layout::lattSize()[d]; } return Layout::linearSiteIndex(c); }
template<class F> static void same_site(const F& a, const F& b, int i, const char* m) { bool ok = true; for (int k = 0; k < (int)Words<typename F::Subtype_t>::n; k++) ok = ok & samew(word(a.elem(i), k), word(b.elem(i), k)); sym_assert(ok, m); }
template<class F> static void wholef(const char* nm) {
  F f, g, h; symfill(f, nm); symfill(g, "old"); h = f; int V = Layout::vol(), ord[256]; for (int i = 0; i < V; i++) ord[i] = lexi(i);
  BinaryBufferWriter w; write(w, f); Bytes e; sites(e, f, ord, V); sym_assert(equal(e, w.str()), "site values in lexicographic order, most significant byte first"); int z = 99; write(w, z);
  for (int i = 0; i < V; i++) same_site(f, h, i, "writing leaves the field alone"); BinaryBufferReader r(w.str()); read(r, g); for (int i = 0; i < V; i++) same_site(f, g, i, "every site is read back"); int y = 0; read(r, y); sym_assert(y == 99 && !r.fail(), "exactly the field is consumed"); }
template<class F> static void single() {
  F f, g, h; symfill(f, "f"); symfill(g, "g"); h = g; int V = Layout::vol(), s = sym_choose("site", 0, V - 1), t = sym_choose("to", 0, V - 1); multi1d<int> c = crtesn(s, Layout::lattSize()), d = crtesn(t, Layout::lattSize());
  BinaryBufferWriter w; write(w, f, c); Bytes e; putsite(e, f.elem(lexi(s))); sym_assert(equal(e, w.str()), "one site"); BinaryBufferReader r(w.str()); read(r, g, d); for (int i = 0; i < V; i++) if (i != lexi(t)) same_site(g, h, i, "other sites stay"); bool ok = true; for (int k = 0; k < (int)Words<typename F::Subtype_t>::n; k++) ok = ok & samew(word(f.elem(lexi(s)), k), word(g.elem(lexi(t)), k)); sym_assert(ok, "the site read"); }
template<class F> static void slice() {
  F f, g, h; symfill(f, "f"); symfill(g, "g"); h = g; int V = Layout::vol(), T = Layout::lattSize()[Nd - 1], t = sym_choose("t", 0, T - 1), u = sym_choose("u", 0, T - 1), n = V / T, ord[256]; for (int i = 0; i < n; i++) ord[i] = lexi(t * n + i);
  BinaryBufferWriter w; { TimeSliceIO<F> s(f, t); write(w, s); } Bytes e; sites(e, f, ord, n); sym_assert(equal(e, w.str()), "the slice in lexicographic order"); BinaryBufferReader r(w.str()); { TimeSliceIO<F> s(g, u); read(r, s); }
  for (int i = 0; i < V; i++) { int k = lexi(i); if (i / n != u) same_site(g, h, k, "other slices stay"); else { bool ok = true; int q = lexi(t * n + i % n); for (int j = 0; j < (int)Words<typename F::Subtype_t>::n; j++) ok = ok & samew(word(f.elem(q), j), word(g.elem(k), j)); sym_assert(ok, "the slice read"); } } }
template<class F> static void sub() {
  F f, g, h; symfill(f, "f"); symfill(g, "g"); h = g; int V = Layout::vol(), nc = (int)sym_param("nc", 2); static TableFunc tf; symtable(tf, nc, "col"); Set st; st.make(tf); int c = sym_choose("colour", 0, nc - 1), ord[256], n = 0; for (int i = 0; i < V; i++) if (in_table(tf, lexi(i), c)) ord[n++] = lexi(i);
  BinaryBufferWriter w; write(w, f[st[c]]); Bytes e; sites(e, f, ord, n); sym_assert(equal(e, w.str()), "the sites of the subset in lexicographic order"); int z = 5; write(w, z); BinaryBufferReader r(w.str()); read(r, g[st[c]]); int y = 0; read(r, y); sym_assert(y == 5 && !r.fail(), "consumed exactly");
  for (int i = 0; i < V; i++) if (in_table(tf, i, c)) same_site(g, f, i, "sites of the subset are read"); else same_site(g, h, i, "other sites stay"); }
void harness_main() {
  qh_start_param(2, 2, 1, 2);
#if KIND == 0
  wholef<LatticeReal>("r"); wholef<LatticeInteger>("i"); wholef<LatticeComplexD>("c"); wholef<LatticeBoolean>("b");
#elif KIND == 1
  wholef<LatticeColorVector>("v"); wholef<LatticeColorMatrix>("u"); wholef<LatticeHalfFermion>("h");
#elif KIND == 2
  single<LatticeComplex>(); single<LatticeInteger>();
#elif KIND == 3
  slice<LatticeComplexD>(); 
#elif KIND == 4
  sub<LatticeComplex>();
#endif
  sym_cover("end");
}
