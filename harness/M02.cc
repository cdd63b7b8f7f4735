// user-defined maps: the site function is a table of symbols
#include "qf.h"
static int vol;
struct Tab { int t[64]; };
static void symtab(Tab& t, const char* n) { for (int i = 0; i < vol; i++) t.t[i] = sym_range(n, 0, vol - 1); }
struct MF : public MapFunc { Tab f, b; multi1d<int> operator()(const multi1d<int>& c, int sign) const { return lexcoord(sign > 0 ? f.t[lexrank(c)] : b.t[lexrank(c)]); } };
struct AF : public ArrayMapFunc { int n; Tab f[3], b[3]; multi1d<int> operator()(const multi1d<int>& c, int sign, int dir) const { return lexcoord(sign > 0 ? f[dir].t[lexrank(c)] : b[dir].t[lexrank(c)]); } int numArray() const { return n; } };
static float v[64];
static int L(int r) { return Layout::linearSiteIndex(lexcoord(r)); }
static void values(LatticeReal& x) { for (int r = 0; r < vol; r++) { v[r] = sym_f32("v"); word(x.elem(L(r)), 0) = v[r]; } }
static void expect(const LatticeReal& x, const Tab& t, const char* m) { for (int r = 0; r < vol; r++) sym_assert(bits32(word(x.elem(L(r)), 0)) == bits32(v[t.t[r]]), m); }
static void constant(Tab& t, const Tab& o, int k) { for (int r = 0; r < vol; r++) t.t[r] = (o.t[r] + k) % vol; }
void harness_main() {
  qh_start_param(2, 2, 1, 2); vol = Layout::vol(); int kind = (int)sym_param("kind", 0);

  LatticeReal a, d; values(a);
  if (kind == 0) { // one map
    MF f; symtab(f.f, "f"); symtab(f.b, "b"); Map m(f); d = m(a); expect(d, f.f, "map gathers from the function's image");
    Map m2; m2.make(f); LatticeReal e = m2(a); expect(e, f.f, "map made later");
    LatticeReal g = m(LatticeReal(a + a)); for (int r = 0; r < vol; r++) eqw(word(g.elem(L(r)), 0), 2 * v[f.f.t[r]], "map of a temporary");
    LatticeReal h; symfill(h, "h"); LatticeReal h0 = h; h[rb[1]] = m(a); for (int r = 0; r < vol; r++) { int s = L(r); sym_assert(bits32(word(h.elem(s), 0)) == (rb.latticeColoring()[s] == 1 ? bits32(v[f.f.t[r]]) : bits32(word(h0.elem(s), 0))), "map on a subset"); }
    for (int s = 0; s < vol; s++) { multi1d<int> c = Layout::siteCoords(0, s); sym_assert(m.Offsets()[s] == L(f.f.t[lexrank(c)]), "offset table"); }
  } else if (kind == 1) { // both signs
    MF f; symtab(f.f, "f"); symtab(f.b, "b"); BiDirectionalMap m(f); d = m(a, FORWARD); expect(d, f.f, "forward map"); d = m(a, BACKWARD); expect(d, f.b, "backward map");
    BiDirectionalMap m2; m2.make(f); d = m2(a, BACKWARD); expect(d, f.b, "backward map made later");
  } else if (kind == 2) { // directions
    AF f; f.n = 2; for (int k = 0; k < 2; k++) { symtab(f.f[k], "f"); symtab(f.b[k], "b"); } ArrayMap m(f);
    for (int k = 0; k < 2; k++) { d = m(a, k); expect(d, f.f[k], "direction's map"); }
  } else if (kind == 3) { // directions and signs
    AF f; f.n = 3; Tab t; symtab(t, "f"); for (int k = 0; k < 3; k++) { constant(f.f[k], t, 2 * k); constant(f.b[k], t, 2 * k + 1); } ArrayBiDirectionalMap m(f);
    for (int k = 0; k < 3; k++) { d = m(a, FORWARD, k); expect(d, f.f[k], "direction's forward map"); d = m(a, BACKWARD, k); expect(d, f.b[k], "direction's backward map"); }
  } else if (kind == 4) { // a permutation and its inverse
    MF f; symtab(f.f, "f"); symtab(f.b, "b"); for (int r = 0; r < vol; r++) { int x = 0; for (int k = 0; k < vol; k++) x |= -(int)(f.f.t[r] == k) & f.b.t[k]; sym_assume(x == r); }
    BiDirectionalMap m(f); LatticeReal e = m(a, FORWARD); d = m(e, BACKWARD); for (int r = 0; r < vol; r++) sym_assert(bits32(word(d.elem(L(r)), 0)) == bits32(v[r]), "the backward map undoes the forward map");
    d = m(m(a, FORWARD), BACKWARD); for (int r = 0; r < vol; r++) sym_assert(bits32(word(d.elem(L(r)), 0)) == bits32(v[r]), "nested maps compose");
  } else { // nested maps and shifts in one expression: a(f(.)) composed
    MF f; symtab(f.f, "f"); f.b = f.f; Map m(f); d = m(m(a)); for (int r = 0; r < vol; r++) { int x = 0; for (int k = 0; k < vol; k++) x |= -(int)(f.f.t[r] == k) & f.f.t[k]; sym_assert(bits32(word(d.elem(L(r)), 0)) == bits32(v[x]), "map of a map"); }
    LatticeReal e = m(shift(a, FORWARD, 0)); for (int r = 0; r < vol; r++) { multi1d<int> c = lexcoord(f.f.t[r]); c[0] = (c[0] + 1) % Layout::lattSize()[0]; sym_assert(bits32(word(e.elem(L(r)), 0)) == bits32(v[lexrank(c)]), "map of a shift"); }
  }
  sym_observe("end", 1);
  sym_cover("end");
}
