// global sums: exactly the sites of the subset, exactly once
#include "qf.h"
static TableFunc f; static Set st; static int vol, nc; static bool in[64];
#define W(x, s) word(x.elem(s), 0)
typedef double D;
template<class T> static D sq(const T& x) { D r = 0; for (int i = 0; i < Words<T>::n; i++) { D w = word(x, i); r += w * w; } return r; }
// hermitian inner product of two site objects of complex words
template<class T, class U> static void ip(const T& x, const U& y, D& re, D& im) { re = im = 0; for (int i = 0; i < Words<T>::n; i += 2) { D a = word(x, i), b = word(x, i + 1), c = word(y, i), d = word(y, i + 1); re += a * c + b * d; im += a * d - b * c; } }
template<class F> static auto wsum(const F& a, int w, bool all) { D r = 0; for (int s = 0; s < vol; s++) if (all || in[s]) r += word(a.elem(s), w); return r; }
#define EQ(A, B, M) eqw((D)(A), (D)(B), M)
// everything for a field type of n words
template<class F> static void sums(const char* n, const Subset& sub) {
  F a; symfill(a, n); enum { N = Words<typename std::decay<decltype(a.elem(0))>::type>::n };
  auto t = sum(a); for (int w = 0; w < N; w++) EQ(word(t.elem(), w), wsum(a, w, true), "sum over the lattice");
  auto u = sum(a, sub); for (int w = 0; w < N; w++) EQ(word(u.elem(), w), wsum(a, w, false), "sum over a subset");
  auto e = sum(a + a, sub); for (int w = 0; w < N; w++) EQ(word(e.elem(), w), 2 * wsum(a, w, false), "sum of an expression over a subset");
  auto g = sum(-a); for (int w = 0; w < N; w++) EQ(word(g.elem(), w), -wsum(a, w, true), "sum of an expression");
}
template<class F> static void norms(const char* n, const Subset& sub) {
  F a; symfill(a, n); D all_ = 0, some = 0; for (int s = 0; s < vol; s++) { D q = sq(a.elem(s)); all_ += q; if (in[s]) some += q; }
  EQ(word(norm2(a).elem(), 0), all_, "norm2"); EQ(word(norm2(a, sub).elem(), 0), some, "norm2 on a subset"); EQ(word(norm2(a + a).elem(), 0), 4 * all_, "norm2 of an expression"); EQ(word(norm2(a + a, sub).elem(), 0), 4 * some, "norm2 of an expression on a subset");
  F l; auto m = localNorm2(a); (void)m; multi1d<F> v(2); v[0] = a; symfill(v[1], "v1"); D all1 = 0, some1 = 0; for (int s = 0; s < vol; s++) { D q = sq(v[1].elem(s)); all1 += q; if (in[s]) some1 += q; }
  EQ(word(norm2(v).elem(), 0), all_ + all1, "norm2 of an array"); EQ(word(norm2(v, sub).elem(), 0), some + some1, "norm2 of an array on a subset"); multi1d<F> none; EQ(word(norm2(none).elem(), 0), 0, "norm2 of an empty array");
}
template<class F> static void inner(const char* n, const Subset& sub, bool im_ok) {
  F a, b; symfill(a, n); symfill(b, "b"); D r = 0, i = 0, rs = 0, is = 0; for (int s = 0; s < vol; s++) { D x, y; ip(a.elem(s), b.elem(s), x, y); r += x; i += y; if (in[s]) { rs += x; is += y; } }
  auto p = innerProduct(a, b); EQ(word(p.elem(), 0), r, "innerProduct"); EQ(word(p.elem(), 1), i, "innerProduct"); auto q = innerProduct(a, b, sub); EQ(word(q.elem(), 0), rs, "innerProduct on a subset"); EQ(word(q.elem(), 1), is, "innerProduct on a subset");
  auto p1 = innerProduct(a + a, b); EQ(word(p1.elem(), 0), 2 * r, "innerProduct, expression first"); EQ(word(p1.elem(), 1), 2 * i, "innerProduct, expression first"); auto p2 = innerProduct(a, -b); EQ(word(p2.elem(), 0), -r, "innerProduct, expression second"); EQ(word(p2.elem(), 1), -i, "innerProduct, expression second");
  auto p3 = innerProduct(-a, b + b, sub); EQ(word(p3.elem(), 0), -2 * rs, "innerProduct of expressions on a subset"); EQ(word(p3.elem(), 1), -2 * is, "innerProduct of expressions on a subset"); auto p4 = innerProduct(-a, b, sub); EQ(word(p4.elem(), 1), -is, "innerProduct expression first on a subset"); auto p5 = innerProduct(a, -b, sub); EQ(word(p5.elem(), 1), -is, "innerProduct expression second on a subset");
  EQ(word(innerProductReal(a, b).elem(), 0), r, "innerProductReal"); EQ(word(innerProductReal(a, b, sub).elem(), 0), rs, "innerProductReal on a subset"); EQ(word(innerProductReal(-a, b).elem(), 0), -r, "innerProductReal of an expression"); EQ(word(innerProductReal(a, b + b, sub).elem(), 0), 2 * rs, "innerProductReal of an expression on a subset"); EQ(word(innerProductReal(-a, b + b).elem(), 0), -2 * r, "innerProductReal of expressions"); EQ(word(innerProductReal(a, -b).elem(), 0), -r, "innerProductReal, expression second"); EQ(word(innerProductReal(-a, b, sub).elem(), 0), -rs, "innerProductReal, expression first, on a subset"); EQ(word(innerProductReal(-a, -b, sub).elem(), 0), rs, "innerProductReal of expressions on a subset");
  multi1d<F> va(2), vb(2); va[0] = a; vb[0] = b; symfill(va[1], "a1"); symfill(vb[1], "b1"); D r1 = r, i1 = i, rs1 = rs, is1 = is; for (int s = 0; s < vol; s++) { D x, y; ip(va[1].elem(s), vb[1].elem(s), x, y); r1 += x; i1 += y; if (in[s]) { rs1 += x; is1 += y; } }
  auto v = innerProduct(va, vb); EQ(word(v.elem(), 0), r1, "innerProduct of arrays"); EQ(word(v.elem(), 1), i1, "innerProduct of arrays"); auto vs = innerProduct(va, vb, sub); EQ(word(vs.elem(), 0), rs1, "innerProduct of arrays on a subset"); EQ(word(vs.elem(), 1), is1, "innerProduct of arrays on a subset"); EQ(word(innerProductReal(va, vb).elem(), 0), r1, "innerProductReal of arrays"); EQ(word(innerProductReal(va, vb, sub).elem(), 0), rs1, "innerProductReal of arrays on a subset");
}
template<class F> static void multi(const char* n) {
  F a; symfill(a, n); enum { N = Words<typename std::decay<decltype(a.elem(0))>::type>::n };
  auto t = sumMulti(a, st); sym_assert(t.size() == nc, "one sum per colour"); auto e = sumMulti(a + a, st);
  for (int c = 0; c < nc; c++) { for (int s = 0; s < vol; s++) in[s] = in_table(f, s, c); for (int w = 0; w < N; w++) { D x = wsum(a, w, false); EQ(word(t[c].elem(), w), x, "sumMulti"); EQ(word(e[c].elem(), w), 2 * x, "sumMulti of an expression"); } }
  multi1d<F> v(3); v[0] = a; v[1] = -a; symfill(v[2], "v2"); auto m = sumMulti(v, st); sym_assert((m.size2() == 3) & (m.size1() == nc), "sumMulti of an array: shape");
  for (int c = 0; c < nc; c++) { for (int s = 0; s < vol; s++) in[s] = in_table(f, s, c); for (int k = 0; k < 3; k++) for (int w = 0; w < N; w++) EQ(word(m(k, c).elem(), w), wsum(v[k], w, false), "sumMulti of an array"); }
}
void harness_main() {
  qh_start_param(2, 1, 1, 2); vol = Layout::vol(); int kind = (int)sym_param("kind", 0); nc = (int)sym_param("nc", 2);
  symtable(f, nc, "col"); int c = (int)sym_param("colour", 1); if (kind == 4 || kind == 5) for (int i = 0; i < vol; i++) f.tab[i] = (int)sym_concrete(f.tab[i]); st.make(f); const Subset& sub = st[c]; for (int s = 0; s < vol; s++) in[s] = in_table(f, s, c);
  if (kind == 0) { sums<LatticeReal>("a", sub); sums<LatticeComplex>("z", sub); sums<LatticeRealD>("d", sub); sums<LatticeColorVector>("v", sub); }
  else if (kind == 1) { norms<LatticeReal>("a", sub); norms<LatticeComplex>("z", sub); norms<LatticeColorMatrix>("u", sub); norms<LatticeFermion>("f", sub); norms<LatticeRealD>("d", sub); }
  else if (kind == 2) { inner<LatticeComplex>("z", sub, true); inner<LatticeColorVector>("v", sub, true); }
  else if (kind == 3) { inner<LatticeFermion>("f", sub, true); inner<LatticeColorMatrix>("u", sub, true); }
  else if (kind == 4) { multi<LatticeReal>("a"); multi<LatticeComplex>("z"); multi<LatticeColorVector>("v"); }
  else if (kind == 5) { // integers, scalars, real inner products, field of scalars
    LatticeInteger n; symfill(n, "n"); unsigned t = 0, u = 0; for (int s = 0; s < vol; s++) { t += W(n, s); if (in[s]) u += W(n, s); }
    sym_assert((unsigned)word(sum(n).elem(), 0) == t, "integer sum"); sym_assert((unsigned)word(sum(n, sub).elem(), 0) == u, "integer sum on a subset"); auto ms = sumMulti(n, st); for (int k = 0; k < nc; k++) { unsigned x = 0; for (int s = 0; s < vol; s++) if (in_table(f, s, k)) x += W(n, s); sym_assert((unsigned)word(ms[k].elem(), 0) == x, "integer sumMulti"); }
    LatticeReal a, b; symfill(a, "a"); symfill(b, "b"); D r = 0, rs = 0; for (int s = 0; s < vol; s++) { D x = (D)W(a, s) * (D)W(b, s); r += x; if (in[s]) rs += x; }
    EQ(word(innerProduct(a, b).elem(), 0), r, "real innerProduct"); EQ(word(innerProduct(a, b, sub).elem(), 0), rs, "real innerProduct on a subset"); EQ(word(innerProductReal(a, b).elem(), 0), r, "real innerProductReal"); EQ(word(sum(a * b, sub).elem(), 0), rs, "sum of a product on a subset"); EQ(word(sum(a * b).elem(), 0), r, "sum of a product");
    Complex z, y; symfill(z, "z"); symfill(y, "y"); auto sz = sum(z); EQ(word(sz.elem(), 0), word(z.elem(), 0), "sum of a scalar object"); EQ(word(sum(z, sub).elem(), 1), word(z.elem(), 1), "sum of a scalar object on a subset"); EQ(word(norm2(z).elem(), 0), sq(z.elem()), "norm2 of a scalar object"); auto sm = sumMulti(z + z, st); sym_assert(sm.size() == nc, "one per colour"); for (int k = 0; k < nc; k++) EQ(word(sm[k].elem(), 0), 2 * (D)word(z.elem(), 0), "sumMulti of a scalar object");
    multi1d<Complex> vz(2), vy(2); vz[0] = z; vy[0] = y; symfill(vz[1], "z1"); symfill(vy[1], "y1"); EQ(word(norm2(vz).elem(), 0), sq(vz[0].elem()) + sq(vz[1].elem()), "norm2 of an array of scalar objects"); EQ(word(norm2(vz, sub).elem(), 0), sq(vz[0].elem()) + sq(vz[1].elem()), "norm2 of an array of scalar objects on a subset");
    D x0, y0, x1, y1; ip(z.elem(), y.elem(), x0, y0); ip(vz[1].elem(), vy[1].elem(), x1, y1); auto vi = innerProduct(vz, vy); EQ(word(vi.elem(), 0), x0 + x1, "innerProduct of arrays of scalar objects"); EQ(word(vi.elem(), 1), y0 + y1, "innerProduct of arrays of scalar objects"); EQ(word(innerProductReal(vz, vy).elem(), 0), x0 + x1, "innerProductReal of arrays of scalar objects"); auto zi = innerProduct(z, y); EQ(word(zi.elem(), 0), x0, "innerProduct of scalar objects"); EQ(word(zi.elem(), 1), y0, "innerProduct of scalar objects"); EQ(word(innerProductReal(z, y).elem(), 0), x0, "innerProductReal of scalar objects");
    auto msm = sumMulti(vz, st); for (int k = 0; k < nc; k++) for (int i = 0; i < 2; i++) EQ(word(msm(i, k).elem(), 1), word(vz[i].elem(), 1), "sumMulti of an array of scalar objects");
  } else if (kind == 7) {
    LatticeReal a; symfill(a, "a"); LatticeBoolean m; symfill(m, "m"); { for (int s = 0; s < vol; s++) W(m, s) = sym_concrete(W(m, s)); D x = 0; for (int s = 0; s < vol; s++) if (W(m, s)) x += W(a, s); EQ(word(sum(where(m, a, LatticeReal(zero))).elem(), 0), x, "masked sum"); }
  } else { // packed sub-lattices
    LatticeColorVector a, b; symfill(a, "a"); symfill(b, "b"); typedef std::decay<decltype(a.elem(0))>::type T; OSubLattice<T> p(sub, a); D r = 0, i = 0; for (int s = 0; s < vol; s++) if (in[s]) { D x, y; ip(a.elem(s), b.elem(s), x, y); r += x; i += y; }
    auto q = innerProduct(p, b); EQ(word(q.elem(), 0), r, "innerProduct of a packed subset field"); EQ(word(q.elem(), 1), i, "innerProduct of a packed subset field"); auto q2 = innerProduct(b, p); EQ(word(q2.elem(), 0), r, "innerProduct with a packed subset field"); EQ(word(q2.elem(), 1), -i, "innerProduct with a packed subset field");
    auto t = sum(p); for (int w = 0; w < 6; w++) EQ(word(t.elem(), w), wsum(a, w, false), "sum of a packed subset field");
OSubLattice<T> pb(sub, b); auto cc = localColorInnerProduct(p, b); auto dd = localColorInnerProduct(a, pb); auto ll = localInnerProduct(p, b); int j = 0; for (int s = 0; s < vol; s++) if (in[s]) { D x, y; ip(a.elem(s), b.elem(s), x, y); EQ(word(cc.getF()[j], 0), x, "colour inner product of a packed subset field"); EQ(word(cc.getF()[j], 1), y, "colour inner product of a packed subset field"); EQ(word(dd.getF()[j], 0), x, "colour inner product with a packed subset field"); EQ(word(ll.getF()[j], 1), y, "local inner product of a packed subset field"); j++; }
  }
  sym_cover("end");
}
