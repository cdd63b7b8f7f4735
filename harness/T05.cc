// files and random numbers in the message-passing build: the data of the whole lattice in one stream, whichever node holds it
#include "par.h"
#include "bin.h"
#include "seed.h"
#include "qdp_disk_map_slice.h"
namespace QDP {
void readArchiv(BinaryReader&, multi1d<LatticeColorMatrix>&, uint32_t&, int, int);
void writeArchiv(BinaryWriter&, const multi1d<LatticeColorMatrix>&, int);
uint32_t computeChecksum(const multi1d<LatticeColorMatrix>&, int);
}
static multi1d<int> coord_at(int i) { return par_coord(i); }
static int rank_at(int i) { return par_rank(coord_at(i)); }
template<class T> static void putg(Bytes& e, const Glob<T>& g, int r) { for (int k = 0; k < Words<T>::n; k++) put(e, g.v[r][k]); }
template<class T> static void holds(const OLattice<T>& f, const Glob<T>& g, const Glob<T>& old, const bool* in, const char* m) { bool ok = true; for (int s = 0; s < Layout::sitesOnNode(); s++) { int h = par_here(s); for (int k = 0; k < Words<T>::n; k++) ok = ok & samew(word(f.elem(s), k), (!in || in[h]) ? g.v[h][k] : old.v[h][k]); } sym_assert(ok, m); }
// write what `wr` writes and the number 99, compare with e; read it back into a field that held `old`
template<class T, class W, class R> static void both(const Glob<T>& g, const Glob<T>& old, const bool* in, const Bytes& e, W wr, R rd) {
  OLattice<T> f, h; g.fill(f); old.fill(h); BinaryBufferWriter w; wr(w, f); uint32_t ck = w.getChecksum(); std::string s = w.strPrimaryNode(), t = w.str(); int z = 99; write(w, z); std::string u = w.str();
  BinaryBufferReader r(u); rd(r, h); uint32_t ck2 = r.getChecksum(); int y = 0; read(r, y); bool bad = r.fail(); if (!par_clean()) return;
  if (Layout::primaryNode()) sym_assert(equal(e, s), "the bytes of the lattice in file order"); sym_assert(equal(e, t), "every node may ask for the bytes"); holds(f, g, g, 0, "writing leaves the field alone"); holds(h, g, old, in, "every site is read by its node, other sites stay"); sym_assert(y == 99 && !bad, "exactly the field is consumed"); sym_assert(ck == crc(e) && ck2 == ck, "checksum of the bytes on every node");
}
template<class T> static void whole(const Glob<T>& g, const Glob<T>& old) { Bytes e; for (int i = 0; i < par_vol(); i++) putg(e, g, rank_at(i)); both(g, old, 0, e, [](BinaryWriter& w, OLattice<T>& f) { write(w, f); }, [](BinaryReader& r, OLattice<T>& f) { read(r, f); }); }
template<class T> static void site(const Glob<T>& g, const Glob<T>& old, int r) { Bytes e; putg(e, g, r); bool in[64]; for (int i = 0; i < 64; i++) in[i] = i == r; multi1d<int> c = par_coord(r); both(g, old, in, e, [&](BinaryWriter& w, OLattice<T>& f) { write(w, f, c); }, [&](BinaryReader& q, OLattice<T>& f) { read(q, f, c); }); }
template<class T> static void subset(const Glob<T>& g, const Glob<T>& old, const Set& st, const ParTable& t, int c) { Bytes e; bool in[64]; for (int i = 0; i < par_vol(); i++) { int r = rank_at(i); in[r] = t.tab[r] == c; if (in[r]) putg(e, g, r); } both(g, old, in, e, [&](BinaryWriter& w, OLattice<T>& f) { write(w, f[st[c]]); }, [&](BinaryReader& q, OLattice<T>& f) { read(q, f[st[c]]); }); }
template<class T> static void slice(const Glob<T>& g, const Glob<T>& old, int t) { Bytes e; bool in[64]; for (int i = 0; i < par_vol(); i++) { in[i] = par_coord(i)[3] == t; if (in[i]) putg(e, g, i); } both(g, old, in, e, [&](BinaryWriter& w, OLattice<T>& f) { TimeSliceIO<OLattice<T> > s(f, t); write(w, s); }, [&](BinaryReader& q, OLattice<T>& f) { TimeSliceIO<OLattice<T> > s(f, t); read(q, s); }); }
typedef LatticeColorMatrix::Subtype_t CM;
static void archive(Glob<CM>* g, int ms) {
  // words of a colour matrix: row by row, real and imaginary part
  multi1d<LatticeColorMatrix> u(Nd), v(Nd); for (int d = 0; d < Nd; d++) { g[d].fill(u[d]); v[d] = zero; }
  BinaryBufferWriter w; writeArchiv(w, u, ms); std::string s = w.str(); uint32_t cs = computeChecksum(u, ms); BinaryBufferReader r(s); uint32_t chk = 77; readArchiv(r, v, chk, ms, 4); if (!par_clean()) return;
  Bytes e; uint32_t sum = 0; for (int i = 0; i < par_vol(); i++) for (int d = 0; d < Nd; d++) for (int k = 0; k < ms; k++) { uint32_t b = bits32(g[d].v[rank_at(i)][k]); e.put(b, 4); sum += b; }
  sym_assert(equal(e, s), "links in file order"); sym_assert(cs == sum, "checksum over all nodes"); sym_assert(chk == sum, "checksum of the data read, on every node"); bool ok = true; for (int d = 0; d < Nd; d++) for (int l = 0; l < Layout::sitesOnNode(); l++) for (int k = 0; k < ms; k++) ok = ok & samew(word(v[d].elem(l), k), g[d].v[par_here(l)][k]); sym_assert(ok, "every link is read by its node");
}
static Seed at(uint64_t m) { Seed x; setseed(x.elem(), m); return x; }
template<class T> static void check(const OLattice<T>& x, const OLattice<T>& old, const Seed& S, const ParTable* f, int c, const char* m) { int V = par_vol(); Seed per = at(power(MULT, V + 1));
  for (int s = 0; s < Layout::sitesOnNode(); s++) { int r = par_here(s); if (f && f->tab[r] != c) { for (int k = 0; k < Words<T>::n; k++) sym_assert(samew(word(x.elem(s), k), word(old.elem(s), k)), "other sites stay"); continue; } Seed z = S * at(power(MULT, r + 1)); for (int k = 0; k < Words<T>::n; k++) { sym_assert(samew(word(x.elem(s), k), (typename Words<T>::w)frac(z)), m); Seed y = z * per; z = y; } } }
template<class T> static Seed after(const Seed& S) { Seed per = at(power(MULT, par_vol() + 1)), z = S; for (int k = 0; k < (int)Words<T>::n; k++) { Seed y = z * per; z = y; } return z; }
template<class T> static void rnd(const Seed& S, const Set& st, const ParTable& f, const Glob<T>& old) { OLattice<T> a, b, o; old.fill(o); b = o; Seed e, e2, e3; RNG::setrn(S); random(a); RNG::savern(e); random(b, st[1]); RNG::savern(e2); Real q; random(q); RNG::savern(e3); Seed S1 = after<T>(S), S2 = after<T>(S1); Seed z = S2 * at(MULT);
  if (!par_clean()) return; check(a, o, S, 0, 0, "fill of a field, whatever the nodes"); check(b, o, S1, &f, 1, "fill of a subset"); sym_assert(sameseed(e, S1) && sameseed(e2, S2) && sameseed(e3, z), "the nodes keep the same seed"); sym_assert(samew(word(q.elem(), 0), frac(z)), "scalar draws agree on all nodes"); }
void harness_main() {
  par_start(); int kind = (int)sym_param("kind", 0), vol = par_vol(), sub = 0; ParTable f; f.nc = 3; for (int i = 0; i < vol; i++) f.tab[i] = (i * 5 + i / 3) % 2; if (sym_param("onenode", 0)) for (int i = 0; i < vol; i++) f.tab[i] = par_coord(i)[0] < 1;
  typedef LatticeReal::Subtype_t R; typedef LatticeComplexD::Subtype_t C; typedef LatticeInteger::Subtype_t I; typedef LatticeColorVector::Subtype_t V; typedef LatticeBoolean::Subtype_t B;
  static Glob<R> a, a2; static Glob<C> z, z2; static Glob<I> gi, gi2; static Glob<V> v, v2; static Glob<B> bo, bo2; static Glob<CM> u[4]; static Set st; Seed S;
  int iv = 0; double dv = 0; char ch[4] = {0, 0, 0, 0}; int len = 0; Complex cv;
  if (kind == 0) { a.sym("a"); a2.sym("b"); gi.sym("i"); gi2.sym("j"); z.sym("z"); z2.sym("y"); bo.sym("o"); bo2.sym("p"); v.sym("v"); v2.sym("u"); }
  if (kind == 1) { z.sym("z"); z2.sym("y"); gi.sym("i"); gi2.sym("j"); bo.sym("o"); bo2.sym("p"); sub = sym_choose("site", 0, vol - 1); }
  if (kind == 2) { v.sym("v"); v2.sym("u"); a.sym("a"); a2.sym("b"); bo.sym("o"); bo2.sym("p"); sub = sym_choose("colour", 0, 2); }
  if (kind == 3) { z.sym("z"); z2.sym("y"); sub = sym_choose("t", 0, par_n[3] - 1); }
  if (kind == 4 || kind == 7) for (int d = 0; d < 4; d++) u[d].sym("u");
  if (kind == 5) { iv = (int)sym_int("i", 32); dv = sym_f64("d"); len = sym_choose("len", 0, 3); for (int i = 0; i < len; i++) { ch[i] = (char)sym_int("ch", 8); sym_assume(ch[i] != 0 && ch[i] != '\n'); } symfill(cv, "c"); }
  if (kind == 6) { symseed(S.elem(), "S"); a2.sym("old"); v2.sym("old"); }
  par_run([&](int me) {
    st.make(f);
    if (kind == 0) { whole(a, a2); whole(gi, gi2); whole(z, z2); whole(bo, bo2); whole(v, v2); }
    else if (kind == 1) { site(z, z2, sub); site(gi, gi2, sub); site(bo, bo2, sub); }
    else if (kind == 2) { subset(v, v2, st, f, sub); subset(a, a2, st, f, sub); subset(bo, bo2, st, f, sub); }
    else if (kind == 3) slice(z, z2, sub);
    else if (kind == 4) archive(u, 18); else if (kind == 7) archive(u, 12);
    else if (kind == 5) { // numbers and strings: written by the primary node, known to all after a read
      std::string s(ch, len); BinaryBufferWriter w; write(w, iv); writeDesc(w, s); write(w, dv); write(w, s); write(w, cv); multi1d<int> m(2); m[0] = iv; m[1] = ~iv; write(w, m); std::string all_ = w.str(); bool wf = w.fail();
      BinaryBufferReader r(me == 0 ? all_ : std::string("xyz")); int i2 = 0; double d2 = 0; std::string s2 = "old", s3 = "old"; Complex c2 = zero; multi1d<int> m2; read(r, i2); readDesc(r, s2); read(r, d2); read(r, s3, 8); read(r, c2); read(r, m2); bool rf = r.fail(); uint32_t k1 = w.getChecksum(), k2 = r.getChecksum(); int i3 = 0; read(r, i3); bool end = r.fail();
      if (par_clean()) { sym_assert(!wf && !rf && i2 == iv && same(d2, dv) && same(c2, cv), "numbers reach every node"); sym_assert(s2 == s && s3 == s, "strings reach every node"); sym_assert(m2.size() == 2 && m2[0] == iv && m2[1] == ~iv, "arrays reach every node"); sym_assert(k1 == k2, "checksums agree on every node"); sym_assert(end, "all nodes see the end of the data"); } }
    else { rnd(S, st, f, a2); rnd(S, st, f, v2); }
  });
  sym_cover("end");
}
