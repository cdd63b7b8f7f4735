// nearest-neighbour shifts: every direction and sign, symbolic field values, symbolic observation site
#include "qf.h"
static int nb(int s, int mu, int sg) { multi1d<int> c = Layout::siteCoords(0, s); int n = Layout::lattSize()[mu]; c[mu] = (c[mu] + sg + n) % n; return Layout::linearSiteIndex(c); }
static int nbo[4][2][128];
template<class F> void plain(const char* nm) {
  F a, b, c; symfill(a, nm); int vol = Layout::vol();
  for (int mu = 0; mu < Nd; mu++) for (int k = 0; k < 2; k++) {
    int sg = k ? FORWARD : BACKWARD; b = shift(a, sg, mu);
    for (int s = 0; s < vol; s++) samesite(b.elem(s), a.elem(nbo[mu][k][s]), "shift takes the value of the neighbour");
    c = shift(b, -sg, mu); samefield(c, a, "shifting back restores the field");
  }
}
void harness_main() {
  qh_start_param(2, 2, 2, 2); int vol = Layout::vol(), kind = (int)sym_param("kind", 0);
  for (int mu = 0; mu < Nd; mu++) for (int k = 0; k < 2; k++) for (int s = 0; s < vol; s++) nbo[mu][k][s] = nb(s, mu, k ? 1 : -1);
  if (kind == 0) {
    plain<LatticeReal>("r"); plain<LatticeInteger>("i"); plain<LatticeComplex>("c"); plain<LatticeBoolean>("b");
    // symbolic values stored by coordinate, observed at a symbolic coordinate
    LatticeReal a; float v[128]; for (int r = 0; r < vol; r++) { v[r] = sym_f32("v"); word(a.elem(Layout::linearSiteIndex(lexcoord(r))), 0) = v[r]; }
    multi1d<int> x(Nd); for (int i = 0; i < Nd; i++) x[i] = sym_range("x", 0, Layout::lattSize()[i] - 1);
    for (int mu = 0; mu < Nd; mu++) for (int sg = -1; sg <= 1; sg += 2) {
      LatticeReal b = shift(a, sg, mu); multi1d<int> y = x; int n = Layout::lattSize()[mu]; y[mu] = x[mu] + sg; if (y[mu] < 0) y[mu] = n - 1; if (y[mu] >= n) y[mu] = 0;
      sym_assert(bits32(word(b.elem(Layout::linearSiteIndex(x)), 0)) == bits32(v[lexrank(y)]), "shift at a symbolic coordinate");
    }
  } else if (kind == 1) {
    plain<LatticeColorMatrix>("u"); plain<LatticeFermion>("p"); plain<LatticeHalfFermion>("h");
  } else if (kind == 2) {
    // expression arguments, nesting, subset assignment, compound assignment, reductions
    LatticeReal a, b, d; symfill(a, "a"); symfill(b, "b"); symfill(d, "d"); LatticeReal d0 = d;
    for (int mu = 0; mu < Nd; mu++) for (int k = 0; k < 2; k++) {
      int sg = k ? 1 : -1, nu = (mu + 1) % Nd; int* o = nbo[mu][k];
      LatticeReal e = shift(a * b + a, sg, mu); for (int s = 0; s < vol; s++) eqw(word(e.elem(s), 0), word(a.elem(o[s]), 0) * word(b.elem(o[s]), 0) + word(a.elem(o[s]), 0), "shift of an expression");
      e = a - shift(b, sg, mu) * shift(a, -sg, nu); for (int s = 0; s < vol; s++) eqw(word(e.elem(s), 0), word(a.elem(s), 0) - word(b.elem(o[s]), 0) * word(a.elem(nbo[nu][1 - k][s]), 0), "shifts inside an expression");
      e = shift(shift(a, sg, mu), sg, nu); for (int s = 0; s < vol; s++) samesite(e.elem(s), a.elem(nbo[mu][k][nbo[nu][k][s]]), "shift of a shift");
      e = shift(shift(a, sg, mu) * b, -sg, mu); for (int s = 0; s < vol; s++) { int t = nbo[mu][1 - k][s]; eqw(word(e.elem(s), 0), word(a.elem(o[t]), 0) * word(b.elem(t), 0), "shift of an expression holding a shift"); }
      for (int q = 0; q < 2; q++) { d = d0; d[rb[q]] = shift(a, sg, mu); for (int s = 0; s < vol; s++) samesite(d.elem(s), rb.latticeColoring()[s] == q ? a.elem(o[s]) : d0.elem(s), "shift assigned on a subset"); 
        d = d0; d[rb[q]] -= shift(a, sg, mu); for (int s = 0; s < vol; s++) eqw(word(d.elem(s), 0), rb.latticeColoring()[s] == q ? word(d0.elem(s), 0) - word(a.elem(o[s]), 0) : word(d0.elem(s), 0), "shift subtracted on a subset"); }
    }
  } else {
    LatticeColorMatrix u, w; LatticeFermion p, q; symfill(u, "u"); symfill(p, "p");
    for (int mu = 0; mu < Nd; mu++) for (int k = 0; k < 2; k++) {
      int sg = k ? 1 : -1; int* o = nbo[mu][k];
      q = u * shift(p, sg, mu); LatticeFermion r = shift(adj(u) * p, sg, mu);
      for (int s = 0; s < vol; s++) { Fermion f, g; f.elem() = u.elem(s) * p.elem(o[s]); g.elem() = adj(u.elem(o[s])) * p.elem(o[s]); eqsite(q.elem(s), f.elem(), "link times shifted spinor"); eqsite(r.elem(s), g.elem(), "shift of adjoint link times spinor"); }
      w = shift(adj(u), sg, mu) * u; for (int s = 0; s < vol; s++) { ColorMatrix m; m.elem() = adj(u.elem(o[s])) * u.elem(s); eqsite(w.elem(s), m.elem(), "shifted adjoint link times link"); }
    }
  }
  sym_cover("end");
}
