// the per-site guarantees on larger lattices (hundreds of sites); colourings are a few fixed functions
#include "qf.h"
#ifndef KIND
#define KIND 0
#endif
#define W(x, s) word(x.elem(s), 0)
typedef double D;
#define EQ(A, B, M) eqw((D)(A), (D)(B), M)
static int vol, form;
struct Fun : public SetFunc { int operator()(const multi1d<int>& c) const { int r = lexrank(c); switch (form) { case 0: return r >= 5 && r < vol - 3; case 1: return r % 3 == 1; case 2: return r == vol - 1; default: return (c[0] + c[1] + c[2] + c[3]) & 1; } } int numSubsets() const { return 2; } };
static Set st; static bool in[1024];
static int nbr(int r, int dir, int d) { multi1d<int> c = lexcoord(r); const multi1d<int>& n = Layout::lattSize(); c[dir] = (c[dir] + d + n[dir]) % n[dir]; return Layout::linearSiteIndex(c); }
struct Far : public MapFunc { multi1d<int> operator()(const multi1d<int>& c, int sign) const { int r = lexrank(c); return lexcoord((r * 7 + (sign > 0 ? 3 : 11)) % Layout::vol()); } };
void harness_main() {
  qh_start_param(4, 4, 2, 4); vol = Layout::vol(); form = sym_choose("form", 0, KIND == 3 || KIND == 4 || KIND == 7 ? 0 : 3); Fun f; st.make(f); const Subset& sub = st[1];
  int cnt = 0; for (int s = 0; s < vol; s++) { in[s] = f(Layout::siteCoords(0, s)) == 1; cnt += in[s]; }
  if (KIND == 0) { // membership of large subsets
    sym_assert(sub.numSiteTable() == cnt, "subset size"); int k = 0; for (int s = 0; s < vol; s++) if (in[s]) { sym_assert(sub.siteTable()[k] == s, "site table"); k++; }
    if (sub.hasOrderedRep()) { sym_assert(sub.end() - sub.start() + 1 == cnt, "range"); sym_assert(in[sub.start()] & in[sub.end()], "range ends"); }
    int t = sym_range("t", 0, vol - 1), a = 0; int hits = 0; for (int c = 0; c < 2; c++) for (int i = 0; i < st[c].numSiteTable(); i++) { hits += st[c].siteTable()[i] == t; } (void)a; sym_assert(hits == 1, "every site in exactly one subset");
  } else if (KIND == 1) { // assignments
    LatticeReal a, b, c, o; symfill(a, "a"); symfill(b, "b"); symfill(c, "c"); for (int s = 0; s < vol; s++) W(o, s) = W(a, s);
    a[sub] = b * c; for (int s = 0; s < vol; s++) if (in[s]) EQ(W(a, s), W(b, s) * W(c, s), "assignment"); else EQ(W(a, s), W(o, s), "other site kept");
    a[sub] += c; for (int s = 0; s < vol; s++) if (in[s]) EQ(W(a, s), W(b, s) * W(c, s) + W(c, s), "+="); else EQ(W(a, s), W(o, s), "other site kept");
    Real x; symfill(x, "x"); b[sub] = x; for (int s = 0; s < vol; s++) if (in[s]) EQ(W(b, s), word(x.elem(), 0), "scalar assignment"); else sym_feq(W(b, s), W(b, s), "-");
    c = a - b; for (int s = 0; s < vol; s++) EQ(W(c, s), W(a, s) - W(b, s), "whole-lattice assignment");
    c[sub] = zero; for (int s = 0; s < vol; s++) if (in[s]) EQ(W(c, s), 0, "zero"); else EQ(W(c, s), W(a, s) - W(b, s), "zero elsewhere");
    LatticeComplex z, y; symfill(z, "z"); y = zero; y[sub] = z * z; for (int s = 0; s < vol; s++) { D re = word(z.elem(s), 0), im = word(z.elem(s), 1); EQ(word(y.elem(s), 0), in[s] ? re * re - im * im : 0, "complex square"); EQ(word(y.elem(s), 1), in[s] ? 2 * re * im : 0, "complex square"); }
  } else if (KIND == 2) { // sums
    LatticeReal a; symfill(a, "a"); D t = 0, u = 0, n = 0, m = 0; for (int s = 0; s < vol; s++) { D x = W(a, s); t += x; n += x * x; if (in[s]) { u += x; m += x * x; } }
    EQ(word(sum(a).elem(), 0), t, "sum"); EQ(word(sum(a, sub).elem(), 0), u, "sum on a subset"); EQ(word(norm2(a).elem(), 0), n, "norm2"); EQ(word(norm2(a, sub).elem(), 0), m, "norm2 on a subset");
    auto v = sumMulti(a, st); EQ(word(v[0].elem(), 0), t - u, "sumMulti"); EQ(word(v[1].elem(), 0), u, "sumMulti");
    LatticeComplex z, y; symfill(z, "z"); symfill(y, "y"); D r = 0, i = 0, rs = 0, is = 0; for (int s = 0; s < vol; s++) { D a = word(z.elem(s), 0), b = word(z.elem(s), 1), c = word(y.elem(s), 0), d = word(y.elem(s), 1); D x = a * c + b * d, w = a * d - b * c; r += x; i += w; if (in[s]) { rs += x; is += w; } }
    auto p = innerProduct(z, y), q = innerProduct(z, y, sub); EQ(word(p.elem(), 0), r, "innerProduct"); EQ(word(p.elem(), 1), i, "innerProduct"); EQ(word(q.elem(), 0), rs, "innerProduct on a subset"); EQ(word(q.elem(), 1), is, "innerProduct on a subset");
    EQ(word(innerProductReal(z, y).elem(), 0), r, "innerProductReal"); EQ(word(innerProductReal(z, y, sub).elem(), 0), rs, "innerProductReal on a subset");
    multi1d<LatticeReal> w(2); w[0] = a; w[1] = a; EQ(word(norm2(w).elem(), 0), 2 * n, "norm2 of an array"); EQ(word(norm2(w, sub).elem(), 0), 2 * m, "norm2 of an array on a subset");
  } else if (KIND == 3) { // shifts
    LatticeReal a, b; symfill(a, "a"); for (int d = 0; d < Nd; d++) for (int g = -1; g <= 1; g += 2) { b = shift(a, g, d); for (int r = 0; r < vol; r++) EQ(W(b, Layout::linearSiteIndex(lexcoord(r))), W(a, nbr(r, d, g)), "shift"); }
    b = shift(shift(a, FORWARD, 0), BACKWARD, 3); for (int r = 0; r < vol; r++) { multi1d<int> c = lexcoord(r); const multi1d<int>& n = Layout::lattSize(); c[0] = (c[0] + 1) % n[0]; c[3] = (c[3] + n[3] - 1) % n[3]; EQ(W(b, Layout::linearSiteIndex(lexcoord(r))), W(a, Layout::linearSiteIndex(c)), "two shifts"); }
  } else if (KIND == 4) { // maps
    Far g; Map m; m.make(g); LatticeReal a, b; symfill(a, "a"); b = m(a); for (int s = 0; s < vol; s++) EQ(W(b, s), W(a, Layout::linearSiteIndex(g(Layout::siteCoords(0, s), +1))), "map");
  } else if (KIND == 5) { // site access, extraction
    LatticeReal a, o; symfill(a, "a"); Real x; symfill(x, "x"); for (int s = 0; s < vol; s++) W(o, s) = W(a, s);
    for (int k = 0; k < 3; k++) { int r = k == 0 ? vol - 1 : k == 1 ? vol / 2 : vol - vol / 3; int at = Layout::linearSiteIndex(lexcoord(r)); EQ(word(peekSite(a, lexcoord(r)).elem(), 0), W(o, at), "peekSite"); LatticeReal b = a; pokeSite(b, x, lexcoord(r)); for (int s = 0; s < vol; s++) EQ(W(b, s), s == at ? word(x.elem(), 0) : W(o, s), "pokeSite"); }
    multi1d<Real> e; e.resize(vol); for (int s = 0; s < vol; s++) word(e[s].elem(), 0) = word(x.elem(), 0); QDP_extract(e, a, sub); for (int s = 0; s < vol; s++) EQ(word(e[s].elem(), 0), in[s] ? W(a, s) : word(x.elem(), 0), "extract");
    LatticeReal c; c = zero; QDP_insert(c, e, sub); for (int s = 0; s < vol; s++) EQ(W(c, s), in[s] ? W(a, s) : 0, "insert");
    multi1d<Real> es; es.resize(vol); QDP_extract(es, a, all); for (int s = 0; s < vol; s++) EQ(word(es[s].elem(), 0), W(a, s), "extract all");
  } else if (KIND == 6) { // masks; one symbolic site per look
    LatticeReal a, b, c; symfill(a, "a"); symfill(b, "b"); LatticeBoolean m; for (int s = 0; s < vol; s++) W(m, s) = in[s]; c = where(m, a, b); for (int s = 0; s < vol; s++) EQ(W(c, s), in[s] ? W(a, s) : W(b, s), "where");
    c = a; copymask(c, m, b); for (int s = 0; s < vol; s++) EQ(W(c, s), in[s] ? W(b, s) : W(a, s), "copymask");
    LatticeInteger n, p; for (int s = 0; s < vol; s++) { W(n, s) = s; W(p, s) = s ^ (in[s] ? 0 : 4); } LatticeBoolean q = (n == p), t = !q; for (int s = 0; s < vol; s++) sym_assert((W(q, s) == in[s]) & (W(t, s) != in[s]), "comparison");
  } else if (KIND == 7) { // extremes; each of several sites is unknown in turn
    LatticeReal a; int at = sym_choose("at", 0, 5); int s0 = at == 0 ? 0 : at == 1 ? vol - 1 : at == 2 ? vol / 2 : at == 3 ? vol - 2 : at == 4 ? 1 : vol / 3; for (int s = 0; s < vol; s++) W(a, s) = -1.0f - (s * 5 % 97); symw(W(a, s0), "a"); float hi = W(a, s0), lo = W(a, s0); for (int s = 0; s < vol; s++) { hi = W(a, s) > hi ? W(a, s) : hi; lo = W(a, s) < lo ? W(a, s) : lo; }
    sym_assume(W(a, s0) == W(a, s0)); sym_assert(word(globalMax(a).elem(), 0) == hi, "globalMax"); sym_assert(word(globalMin(a).elem(), 0) == lo, "globalMin");
    sym_assert(isfinite(a) == !(W(a, s0) - W(a, s0) != 0 ), "isfinite"); sym_assert(isnan(a) == false, "isnan");
  }
  sym_cover("end");
}
