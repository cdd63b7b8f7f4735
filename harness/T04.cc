// reductions, site access and broadcasts of the message-passing build, against the whole lattice
#include "par.h"
typedef double D;
#define EQ(A, B, M) eqw((D)(A), (D)(B), M)
template<class T> static D gsum(const Glob<T>& g, int w, const ParTable* f, int c) { D r = 0; for (int i = 0; i < par_vol(); i++) if (!f || f->tab[i] == c) r += (D)g.v[i][w]; return r; }
template<class T> static D gnorm(const Glob<T>& g, const ParTable* f, int c) { D r = 0; for (int i = 0; i < par_vol(); i++) if (!f || f->tab[i] == c) for (int k = 0; k < Words<T>::n; k++) r += (D)g.v[i][k] * (D)g.v[i][k]; return r; }
template<class T> static void gip(const Glob<T>& x, const Glob<T>& y, const ParTable* f, int c, D& re, D& im) { re = im = 0; for (int i = 0; i < par_vol(); i++) if (!f || f->tab[i] == c) for (int k = 0; k < Words<T>::n; k += 2) { D a = x.v[i][k], b = x.v[i][k + 1], p = y.v[i][k], q = y.v[i][k + 1]; re += a * p + b * q; im += a * q - b * p; } }
template<class T> static void sums(const Glob<T>& g, const Set& st, const ParTable& f) {
  OLattice<T> a; g.fill(a); enum { N = Words<T>::n };
  auto t = sum(a); auto u = sum(a, st[1]); auto e = sum(a + a); auto es = sum(a + a, st[0]); auto m = sumMulti(a, st); auto em = sumMulti(-a, st); multi1d<OLattice<T>> v(3); v[0] = a; v[1] = -a; v[2] = a + a; auto vm = sumMulti(v, st);
  if (!par_clean()) return;
  sym_assert(m.size() == f.nc && em.size() == f.nc && vm.size2() == 3 && vm.size1() == f.nc, "one sum per colour");
  for (int w = 0; w < N; w++) {
    EQ(word(t.elem(), w), gsum(g, w, 0, 0), "sum over the lattice"); EQ(word(u.elem(), w), gsum(g, w, &f, 1), "sum over a subset"); EQ(word(e.elem(), w), 2 * gsum(g, w, 0, 0), "sum of an expression"); EQ(word(es.elem(), w), 2 * gsum(g, w, &f, 0), "sum of an expression over a subset");
    for (int c = 0; c < f.nc; c++) { D x = gsum(g, w, &f, c); EQ(word(m[c].elem(), w), x, "sumMulti"); EQ(word(em[c].elem(), w), -x, "sumMulti of an expression"); for (int k = 0; k < 3; k++) EQ(word(vm(k, c).elem(), w), (k == 0 ? 1 : k == 1 ? -1 : 2) * x, "sumMulti of an array"); }
  }
}
template<class T> static void norms(const Glob<T>& g, const Set& st, const ParTable& f) {
  OLattice<T> a; g.fill(a); multi1d<OLattice<T>> v(2); v[0] = a; v[1] = a + a; auto n = norm2(a), ns = norm2(a, st[1]), ne = norm2(a + a), nes = norm2(-a, st[0]), nv = norm2(v), nvs = norm2(v, st[1]); if (!par_clean()) return;
  D all_ = gnorm(g, 0, 0), s0 = gnorm(g, &f, 0), s1 = gnorm(g, &f, 1); EQ(word(n.elem(), 0), all_, "norm2"); EQ(word(ns.elem(), 0), s1, "norm2 on a subset"); EQ(word(ne.elem(), 0), 4 * all_, "norm2 of an expression"); EQ(word(nes.elem(), 0), s0, "norm2 of an expression on a subset"); EQ(word(nv.elem(), 0), 5 * all_, "norm2 of an array"); EQ(word(nvs.elem(), 0), 5 * s1, "norm2 of an array on a subset");
}
template<class T> static void inner(const Glob<T>& g, const Glob<T>& h, const Set& st, const ParTable& f) {
  OLattice<T> a, b; g.fill(a); h.fill(b); multi1d<OLattice<T>> va(2), vb(2); va[0] = a; va[1] = b; vb[0] = b; vb[1] = -b; auto p = innerProduct(a, b), ps = innerProduct(a, b, st[1]), pe = innerProduct(a + a, -b), pes = innerProduct(-a, b + b, st[0]), pv = innerProduct(va, vb), pvs = innerProduct(va, vb, st[1]); auto r = innerProductReal(a, b), rs = innerProductReal(a, b, st[1]), re = innerProductReal(-a, b + b), rv = innerProductReal(va, vb), rvs = innerProductReal(va, vb, st[0]);
  if (!par_clean()) return; D x, y, x0, y0, x1, y1, n, i, n1, n0; gip(g, h, 0, 0, x, y); gip(g, h, &f, 0, x0, y0); gip(g, h, &f, 1, x1, y1); gip(h, h, 0, 0, n, i); gip(h, h, &f, 1, n1, i); gip(h, h, &f, 0, n0, i);
  EQ(word(p.elem(), 0), x, "innerProduct"); EQ(word(p.elem(), 1), y, "innerProduct"); EQ(word(ps.elem(), 0), x1, "innerProduct on a subset"); EQ(word(ps.elem(), 1), y1, "innerProduct on a subset"); EQ(word(pe.elem(), 0), -2 * x, "innerProduct of expressions"); EQ(word(pe.elem(), 1), -2 * y, "innerProduct of expressions");
  EQ(word(pes.elem(), 0), -2 * x0, "innerProduct of expressions on a subset"); EQ(word(pes.elem(), 1), -2 * y0, "innerProduct of expressions on a subset"); EQ(word(pv.elem(), 0), x - n, "innerProduct of arrays"); EQ(word(pv.elem(), 1), y, "innerProduct of arrays"); EQ(word(pvs.elem(), 0), x1 - n1, "innerProduct of arrays on a subset"); EQ(word(pvs.elem(), 1), y1, "innerProduct of arrays on a subset");
  EQ(word(r.elem(), 0), x, "innerProductReal"); EQ(word(rs.elem(), 0), x1, "innerProductReal on a subset"); EQ(word(re.elem(), 0), -2 * x, "innerProductReal of expressions"); EQ(word(rv.elem(), 0), x - n, "innerProductReal of arrays"); EQ(word(rvs.elem(), 0), x0 - n0, "innerProductReal of arrays on a subset");
}
template<class T> static void access(const Glob<T>& g, const T& site) {
  for (int r = 0; r < par_vol(); r++) {
    OLattice<T> a; g.fill(a); multi1d<int> c = par_coord(r); OScalar<T> p = peekSite(a, c), o; o.elem() = site; pokeSite(a, o, c); if (!par_clean()) continue;
    bool ok = true; for (int k = 0; k < Words<T>::n; k++) ok = ok & samew(word(p.elem(), k), g.v[r][k]); sym_assert(ok, "peekSite gives every node the site's value"); ok = true;
    for (int s = 0; s < Layout::sitesOnNode(); s++) { int h = par_here(s); for (int k = 0; k < Words<T>::n; k++) ok = ok & samew(word(a.elem(s), k), h == r ? word(site, k) : g.v[h][k]); } sym_assert(ok, "pokeSite changes the site on its node only");
  }
}
void harness_main() {
  par_start(); int kind = (int)sym_param("kind", 0), vol = par_vol(); ParTable f; f.nc = 3; for (int i = 0; i < vol; i++) { multi1d<int> c = par_coord(i); f.tab[i] = (i * 5 + i / 3) % 2; } if (sym_param("onenode", 0)) for (int i = 0; i < vol; i++) f.tab[i] = par_coord(i)[0] < 1; 
  typedef LatticeReal::Subtype_t R; typedef LatticeComplex::Subtype_t C; typedef LatticeInteger::Subtype_t I; typedef LatticeColorVector::Subtype_t V; typedef LatticeRealD::Subtype_t RD; typedef LatticeHalfFermion::Subtype_t H; typedef LatticeBoolean::Subtype_t B;
  static Glob<R> a, b; static Glob<C> z, y; static Glob<I> gi; static Glob<V> v, u; static Glob<RD> d; static Glob<H> h; static Glob<B> bo; static Set st;
  a.sym("a"); R sr; I si; V sv; std::string str;
  if (kind == 0) { z.sym("z"); d.sym("d"); v.sym("v"); } if (kind == 1) { z.sym("z"); h.sym("h"); d.sym("d"); } if (kind == 2) { z.sym("z"); y.sym("y"); v.sym("v"); u.sym("u"); } if (kind == 3) gi.sym("i"); if (kind == 4) { gi.sym("i"); v.sym("v"); symsite(sr, "sr"); symsite(si, "si"); symsite(sv, "sv"); }
  if (kind == 5) { for (int i = 0; i < vol; i++) sym_assume(a.v[i][0] == a.v[i][0]); } if (kind == 6) { z.sym("z"); bo.sym("o"); for (int i = 0; i < vol; i++) bo.v[i][0] = sym_concrete(bo.v[i][0]); }
  if (kind == 3) b.sym("b"); char ch[3] = {0, 0, 0}; int len = 0; if (kind == 7) { len = sym_choose("len", 0, 3); for (int i = 0; i < len; i++) ch[i] = (char)sym_int("ch", 8); symsite(sr, "sr"); symsite(sv, "sv"); }
  par_run([&](int me) {
    st.make(f);
    if (kind == 0) { sums(a, st, f); sums(z, st, f); sums(d, st, f); sums(v, st, f); }
    else if (kind == 1) { norms(a, st, f); norms(z, st, f); norms(h, st, f); norms(d, st, f); }
    else if (kind == 2) { inner(z, y, st, f); inner(v, u, st, f); }
    else if (kind == 3) { LatticeInteger n; gi.fill(n); auto t = sum(n), ts = sum(n, st[1]); auto m = sumMulti(n, st); LatticeReal p, q; a.fill(p); b.fill(q); auto x = innerProduct(p, q), xs = innerProduct(p, q, st[1]), xr = innerProductReal(p, q); auto o = sum(Complex(zero)); (void)o;
      if (par_clean()) { unsigned w = 0, w1 = 0, wm[3] = {0, 0, 0}; D e = 0, e1 = 0; for (int i = 0; i < vol; i++) { w += gi.v[i][0]; wm[f.tab[i]] += gi.v[i][0]; D k = (D)a.v[i][0] * (D)b.v[i][0]; e += k; if (f.tab[i] == 1) { w1 += gi.v[i][0]; e1 += k; } } sym_assert((unsigned)word(t.elem(), 0) == w && (unsigned)word(ts.elem(), 0) == w1, "integer sums"); for (int c = 0; c < 3; c++) sym_assert((unsigned)word(m[c].elem(), 0) == wm[c], "integer sumMulti"); EQ(word(x.elem(), 0), e, "real innerProduct"); EQ(word(xs.elem(), 0), e1, "real innerProduct on a subset"); EQ(word(xr.elem(), 0), e, "real innerProductReal"); } }
    else if (kind == 4) { access(a, sr); access(gi, si); access(v, sv); }
    else if (kind == 5) { LatticeReal p; a.fill(p); auto mx = globalMax(p), mn = globalMin(p), nx = globalMax(-p);
      if (par_clean()) { float x = a.v[0][0], n = x; for (int i = 1; i < vol; i++) { x = a.v[i][0] > x ? a.v[i][0] : x; n = a.v[i][0] < n ? a.v[i][0] : n; } sym_assert(word(mx.elem(), 0) == x, "globalMax over all nodes"); sym_assert(word(mn.elem(), 0) == n, "globalMin over all nodes"); sym_assert(word(nx.elem(), 0) == -n, "globalMax of an expression"); } }
    else if (kind == 6) { LatticeComplex c; z.fill(c); struct { unsigned char g0[8]; bool r[4]; unsigned char g1[8]; } q; memset(&q, 0x5a, sizeof q); q.r[0] = isnan(c); q.r[1] = isinf(c); q.r[2] = isfinite(c); q.r[3] = isnormal(c);
      if (par_clean()) { bool nn = false, ii = false, fi = true, no = true; for (int i = 0; i < vol; i++) for (int k = 0; k < 2; k++) { uint32_t w = bits32(z.v[i][k]) & 0x7fffffff; nn = nn | (w > 0x7f800000); ii = ii | (w == 0x7f800000); fi = fi & (w < 0x7f800000); no = no & (w < 0x7f800000) & (w >= 0x00800000); } sym_assert(q.r[0] == nn, "isnan anywhere"); sym_assert(q.r[1] == ii, "isinf anywhere"); sym_assert(q.r[2] == fi, "isfinite everywhere"); sym_assert(q.r[3] == no, "isnormal everywhere"); } }
    else { std::string s = me == 0 ? std::string(ch, len) : std::string("zzzzzz"); QDPInternal::broadcast(s); Real r; ColorVector w; r.elem() = sr; w.elem() = sv; if (me) { r = Real(zero); w = ColorVector(zero); } QDPInternal::broadcast(r); QDPInternal::broadcast(w);
      OScalar<R> p = r; if (par_clean()) { bool ok = (int)s.size() == len; for (int i = 0; i < len && ok; i++) ok = s[i] == ch[i]; sym_assert(ok, "broadcast string"); ok = samew(word(r.elem(), 0), word(sr, 0)); for (int k = 0; k < Words<V>::n; k++) ok = ok & samew(word(w.elem(), k), word(sv, k)); sym_assert(ok, "broadcast object"); } }
  });
  sym_cover("end");
}
