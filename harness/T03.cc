// shifts and maps of the message-passing build: what every node receives, against the global field
#include "par.h"
static multi1d<int> nbr(const multi1d<int>& c, int mu, int sg) { multi1d<int> d = c; d[mu] = (c[mu] + sg + par_n[mu]) % par_n[mu]; return d; }
static int nbo(int r, int mu, int sg) { return par_rank(nbr(par_coord(r), mu, sg)); }
template<class T> static void same(const T& a, const typename Words<T>::w* v, const char* m) { bool ok = true; for (int k = 0; k < Words<T>::n; k++) ok = ok & samew(word(a, k), v[k]); sym_assert(ok, m); }
template<class T> static void plain(const Glob<T>& g, bool second) {
  OLattice<T> a, b; g.fill(a); int nv = Layout::sitesOnNode();
  for (int mu = 0; mu < Nd; mu++) for (int sg = -1; sg <= 1; sg += 2) {
    b = shift(a, sg, mu); OLattice<T> c; if (second) c = shift(b, -sg, mu);
    if (par_clean()) for (int s = 0; s < nv; s++) { int r = par_here(s); same(b.elem(s), g.v[nbo(r, mu, sg)], "shift takes the value of the neighbour, on whatever node it lives"); if (second) same(c.elem(s), g.v[r], "shifting back restores the field"); }
  }
}
// translations by a vector and reflections, with their inverses
struct Trans : public MapFunc { int d[4]; bool refl; multi1d<int> operator()(const multi1d<int>& c, int sg) const { multi1d<int> r(Nd); for (int i = 0; i < Nd; i++) r[i] = refl ? (d[i] + par_n[i] - 1 - c[i]) % par_n[i] : ((c[i] + sg * d[i]) % par_n[i] + par_n[i]) % par_n[i]; return r; } };
struct ATrans : public ArrayMapFunc { int d[2][4]; multi1d<int> operator()(const multi1d<int>& c, int sg, int k) const { multi1d<int> r(Nd); for (int i = 0; i < Nd; i++) r[i] = (c[i] + sg * d[k][i] + 4 * par_n[i]) % par_n[i]; return r; } int numArray() const { return 2; } };
void harness_main() {
  par_start(); int kind = (int)sym_param("kind", 0), vol = par_vol();
  typedef LatticeReal::Subtype_t R; typedef LatticeInteger::Subtype_t I; typedef LatticeColorMatrix::Subtype_t U; typedef LatticeHalfFermion::Subtype_t H; typedef LatticeBoolean::Subtype_t B;
  static Glob<R> a, b, d; static Glob<I> gi; static Glob<U> u; static Glob<H> h; static Glob<B> bo; a.sym("a"); if (kind == 2) { b.sym("b"); d.sym("d"); }
  if (kind == 1) { gi.sym("i"); bo.sym("o"); h.sym("h"); } if (kind == 3) { u.sym("u"); h.sym("h"); }
  Trans tf; ATrans af;
  if (kind == 4) { tf.refl = sym_choose("reflect", 0, 1); int dir = sym_choose("dir", 0, 3); for (int i = 0; i < 4; i++) tf.d[i] = i == dir ? sym_choose("d", 0, par_n[i] - 1) : 0;
    // a node may exchange data with at most one other node each way: reflections about the block structure, translations by whole blocks or by less than a block
  }
  if (kind == 5 || kind == 6) { int dir = sym_choose("dir", 0, 3), q = sym_choose("q", 0, 1); for (int k = 0; k < 2; k++) for (int i = 0; i < 4; i++) af.d[k][i] = k == q ? i == dir : i == 0 ? -1 : 0; }
  if (kind == 4) sym_allow_abort((int)sym_param("mayreject", 0));
  par_run([&](int me) {
    int nv = Layout::sitesOnNode();
    if (kind == 0) plain(a, true);
    else if (kind == 1) { plain(gi, false); plain(bo, false); plain(h, false); }
    else if (kind == 2) {
      LatticeReal x, y, z; a.fill(x); b.fill(y);
      for (int mu = 0; mu < Nd; mu++) for (int k = 0; k < 2; k++) {
        int sg = k ? 1 : -1, nu = (mu + 1) % Nd;
        LatticeReal e = shift(x * y + x, sg, mu), f = x - shift(y, sg, mu) * shift(x, -sg, nu), g = shift(shift(x, sg, mu), sg, nu), w = shift(shift(x, sg, mu) * y, -sg, mu);
        LatticeReal p[2]; for (int q = 0; q < 2; q++) { d.fill(p[q]); if (q) p[q][rb[k]] -= shift(x, sg, mu); else p[q][rb[k]] = shift(x, sg, mu); }
        if (par_clean()) for (int s = 0; s < nv; s++) { int r = par_here(s), o = nbo(r, mu, sg), oo = nbo(r, nu, -sg), t = nbo(r, mu, -sg); multi1d<int> c = par_coord(r); int col = (c[0] + c[1] + c[2] + c[3]) & 1;
          eqw(word(e.elem(s), 0), a.v[o][0] * b.v[o][0] + a.v[o][0], "shift of an expression"); eqw(word(f.elem(s), 0), a.v[r][0] - b.v[o][0] * a.v[oo][0], "shifts inside an expression");
          same(g.elem(s), a.v[nbo(nbo(r, nu, sg), mu, sg)], "shift of a shift"); eqw(word(w.elem(s), 0), a.v[r][0] * b.v[t][0], "shift of an expression holding a shift");
          same(p[0].elem(s), col == k ? a.v[o] : d.v[r], "shift assigned on a subset"); eqw(word(p[1].elem(s), 0), col == k ? d.v[r][0] - a.v[o][0] : d.v[r][0], "shift subtracted on a subset"); }
      }
    } else if (kind == 3) {
      LatticeColorMatrix x; LatticeHalfFermion y; u.fill(x); h.fill(y);
      for (int mu = 0; mu < Nd; mu++) for (int sg = -1; sg <= 1; sg += 2) {
        LatticeHalfFermion e = x * shift(y, sg, mu), f = shift(adj(x) * y, sg, mu);
        if (par_clean()) for (int s = 0; s < nv; s++) { int r = par_here(s), o = nbo(r, mu, sg); HalfFermion g, k; g.elem() = u.at(r) * h.at(o); k.elem() = adj(u.at(o)) * h.at(o); eqsite(e.elem(s), g.elem(), "link times shifted spinor"); eqsite(f.elem(s), k.elem(), "shift of adjoint link times spinor"); }
      }
    } else if (kind == 4) {
      Map m(tf); LatticeReal x; a.fill(x); LatticeReal y = m(x), z = m(x + x);
      if (par_clean()) { sym_allow_abort(0); for (int s = 0; s < nv; s++) { int r = par_here(s), o = par_rank(tf(par_coord(r), +1)); same(y.elem(s), a.v[o], "map gathers from the site the function names"); eqw(word(z.elem(s), 0), a.v[o][0] + a.v[o][0], "map of an expression"); } }
    } else if (kind == 5) {
      ArrayMap m(af); LatticeReal x; a.fill(x); LatticeReal y[2], z[2]; for (int k = 0; k < 2; k++) { y[k] = m(x, k); z[k] = m(x * x, k); }
      if (par_clean()) for (int s = 0; s < nv; s++) for (int k = 0; k < 2; k++) { int o = par_rank(af(par_coord(par_here(s)), +1, k)); same(y[k].elem(s), a.v[o], "array map uses the map of the index"); eqw(word(z[k].elem(s), 0), a.v[o][0] * a.v[o][0], "array map of an expression"); }
    } else {
      ArrayBiDirectionalMap m(af); Trans t; t.refl = false; for (int i = 0; i < 4; i++) t.d[i] = af.d[0][i]; BiDirectionalMap w(t); LatticeReal x; a.fill(x); LatticeReal y[2][2], z[2];
      for (int k = 0; k < 2; k++) { for (int q = 0; q < 2; q++) y[k][q] = m(x, q ? 1 : -1, k); z[k] = w(x, k ? 1 : -1); }
      if (par_clean()) for (int s = 0; s < nv; s++) { multi1d<int> c = par_coord(par_here(s)); for (int k = 0; k < 2; k++) { for (int q = 0; q < 2; q++) same(y[k][q].elem(s), a.v[par_rank(af(c, q ? 1 : -1, k))], "array map with direction and sign"); same(z[k].elem(s), a.v[par_rank(t(c, k ? 1 : -1))], "bidirectional map"); } }
    }
  });
  sym_cover("end");
}
