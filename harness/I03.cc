// Binary writers and readers: what is written is read back, consuming exactly the bytes written, words stored big-endian.
#include "bin.h"
#ifndef KIND
#define KIND 0
#endif
// one value: the bytes appended are the expected ones, and reading them back gives the value and stops after them
struct Chan { BinaryBufferWriter w; Bytes e; };
static str tail(BinaryBufferWriter& w, int from) { return w.str().substr(from); }
template<class T, bool OPS = false> static void rt(const T& x) { const bool op = OPS;
  BinaryBufferWriter w; int pre = 0xABCD; write(w, pre); T c = x; if constexpr (OPS) w << x; else write(w, x); sym_assert(same(x, c), "writing leaves the value alone"); write(w, pre);
  Bytes e; put(e, pre); put(e, x); put(e, pre); sym_assert(equal(e, w.str()), "bytes written, most significant first"); sym_assert((int)w.currentPosition() == e.n, "the writer is at the end of what it wrote");
  BinaryBufferReader r(w.str()); int p = 0; read(r, p); T y; memset((void*)&y, 0x5a, sizeof y); if constexpr (OPS) r >> y; else read(r, y); sym_assert(same(x, y), "the value read is the value written"); sym_assert((int)r.currentPosition() == e.n - 4, "exactly the bytes written are consumed"); int q = 0; read(r, q); sym_assert(q == pre, "the next value follows"); sym_assert(!r.fail() && !w.fail(), "no failure"); }
template<class T> static void member(const T& x) { BinaryBufferWriter w; w.write(x); Bytes e; put(e, x); sym_assert(equal(e, w.str()), "member write"); BinaryBufferReader r; r.open(w.str()); T y; memset((void*)&y, 0, sizeof y); r.read(y); sym_assert(same(x, y), "member read");
  BinaryBufferReaderWriter rw; rw.write(x); T z; memset((void*)&z, 0, sizeof z); rw.read(z); sym_assert(same(x, z), "reader and writer in one"); sym_assert(equal(e, rw.str()), "bytes of the combined stream"); }
template<class T, bool OP = true> static void prim() { T x; symv(x, "v"); rt(x); if constexpr (OP) rt<T, true>(x); member(x); }
template<class C> static void cont(const C& x, const Bytes& body, C& y) {  // x: the container written, y: a used one of another size
  BinaryBufferWriter w; write(w, x); int post = 77; write(w, post); Bytes e = body; put(e, post); sym_assert(equal(e, w.str()), "bytes of the container"); BinaryBufferReader r(w.str()); read(r, y); sym_assert((int)r.currentPosition() == body.n, "consumed exactly"); int q = 0; read(r, q); sym_assert(q == 77 && !r.fail(), "next"); }
static int size_of(const char* nm, int small) { static const int L[] = {0, 1, 2, 3, 4, 5}; int k = sym_choose(nm, 0, small + 2); return k <= small ? L[k] : k == small + 1 ? 17 : 67; } // all small sizes and two large ones
void harness_main() {
  qh_start(2, 1, 1, 1);
#if KIND == 0
  prim<char, false>(); prim<int>(); prim<unsigned int>(); prim<short>(); prim<unsigned short>(); prim<long>(); prim<unsigned long>(); prim<long long>(); prim<float>(); prim<double>(); prim<bool>();
  { char c; symv(c, "c"); BinaryBufferWriter w; write(w, c); BinaryBufferReader r(w.str()); char d = 0; r >> d; sym_assert(d == c, "operator >> char"); }
#elif KIND == 1
  { int n = size_of("len", 4); str s; for (int i = 0; i < n; i++) { char c = (char)sym_int("s", 8); sym_assume((c != '\n') & (c != 0)); s += c; } int t = 0x01020304; int form = sym_choose("form", 0, 2);
    BinaryBufferWriter w; if (form == 0) write(w, s); else if (form == 1) w << s; else w.write(s.c_str()); write(w, t); Bytes e; for (char c : s) e.put((unsigned char)c, 1); e.put('\n', 1); put(e, t); sym_assert(equal(e, w.str()), "the characters and a newline"); sym_assert((int)s.size() == n, "untouched");
    int room = sym_choose("room", 1, 3); BinaryBufferReader r(w.str()); str u = "old contents"; if (form == 1) r.read(u, n + room); else read(r, u, n + room); sym_assert(u.size() == s.size(), "length"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (u[i] == s[i]); sym_assert(ok, "characters"); int v = 0; read(r, v); sym_assert(v == t && !r.fail(), "what follows the newline is read next"); }
#elif KIND == 2
  { int n = size_of("len", 5); str s; for (int i = 0; i < n; i++) s += (char)sym_int("s", 8); short t = -2; bool mem = sym_choose("member", 0, 1);  // any bytes, newlines and zeros included
    BinaryBufferWriter w; if (mem) w.writeDesc(s); else writeDesc(w, s); write(w, t); Bytes e; e.put(n, 4); for (char c : s) e.put((unsigned char)c, 1); put(e, t); sym_assert(equal(e, w.str()), "length and characters");
    BinaryBufferReader r(w.str()); str u = "old"; if (mem) r.readDesc(u); else readDesc(r, u); sym_assert((int)u.size() == n, "length"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (u[i] == s[i]); sym_assert(ok, "characters"); short v = 0; read(r, v); sym_assert(v == t && !r.fail(), "next"); }
#elif KIND == 3
  { std::complex<float> a; symv(a, "a"); rt<std::complex<float>, false>(a); std::complex<double> b; symv(b, "b"); rt<std::complex<double>, false>(b); }
  { Real x; symv(x, "x"); rt(x); } { RealD x; symv(x, "x"); rt(x); } { Complex x; symv(x, "x"); rt(x); } { Integer x; symfill(x, "x"); rt(x); } { ColorMatrix x; symv(x, "x"); rt(x); } { DiracFermion x; symv(x, "x"); rt(x); } { SpinMatrixD x; symv(x, "x"); rt(x); }
  { Boolean x; symfill(x, "x"); rt(x); }
  { Seed s; symfill(s, "s"); Seed o = s, t; BinaryBufferWriter w; write(w, s); Bytes e; putsite(e, s.elem()); sym_assert(equal(e, w.str()), "a seed is its four words"); BinaryBufferReader r(w.str()); read(r, t); bool ok = true; for (int i = 0; i < 4; i++) ok = ok & (word(t.elem(), i) == word(o.elem(), i)) & (word(s.elem(), i) == word(o.elem(), i)); sym_assert(ok, "seed read back"); }
#elif KIND == 4
  { int n = size_of("n", 3), old = sym_choose("old", 0, 1); multi1d<int> a(n); Bytes e; e.put(n, 4); for (int i = 0; i < n; i++) { symv(a[i], "a"); put(e, a[i]); } multi1d<int> b(old ? 5 : 0); cont(a, e, b); sym_assert(b.size() == n, "size"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (a[i] == b[i]); sym_assert(ok, "elements");
    BinaryBufferWriter w; write(w, a, n); sym_assert((int)w.str().size() == 4 * n, "no size in the counted form"); BinaryBufferReader r(w.str()); multi1d<int> c(n + 4); for (int i = 0; i < n + 4; i++) c[i] = -9; read(r, c, n); ok = true; for (int i = 0; i < n + 4; i++) ok = ok & (c[i] == (i < n ? a[i] : -9)); sym_assert(ok, "counted form"); }
  { int n2 = sym_choose("n2", 0, 3), n1 = sym_choose("n1", 0, 3); multi2d<short> a(n2, n1); Bytes e; e.put(n2, 4); e.put(n1, 4); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) { symv(a[j][i], "a"); put(e, a[j][i]); } multi2d<short> b(1, 1); cont(a, e, b); sym_assert(b.size2() == n2 && b.size1() == n1, "sizes"); bool ok = true; for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) ok = ok & (a[j][i] == b[j][i]); sym_assert(ok, "elements");
    if (n1 && n2) { BinaryBufferWriter w; multi1d<short> flat(n1 * n2); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) flat[i * n2 + j] = a[j][i]; write(w, flat, n1 * n2); BinaryBufferReader r(w.str()); multi2d<short> c(n2, n1); c = (short)0; read(r, c, n2, n1); ok = true; for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) ok = ok & (a[j][i] == c[j][i]); sym_assert(ok, "counted form"); } }
#elif KIND == 5
  { int n3 = sym_choose("n3", 0, 2), n2 = sym_choose("n2", 0, 3), n1 = sym_choose("n1", 0, 2); multi3d<char> a(n3, n2, n1); Bytes e; e.put(n3, 4); e.put(n2, 4); e.put(n1, 4); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) for (int k = 0; k < n3; k++) { symv(a[k][j][i], "a"); put(e, a[k][j][i]); } multi3d<char> b(1, 1, 1); cont(a, e, b); sym_assert(b.size3() == n3 && b.size2() == n2 && b.size1() == n1, "sizes"); bool ok = true; for (int k = 0; k < n3; k++) for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) ok = ok & (a[k][j][i] == b[k][j][i]); sym_assert(ok, "elements"); }
#elif KIND == 6
  { int n4 = sym_choose("n4", 0, 2), n3 = 3, n2 = sym_choose("n2", 1, 2), n1 = 2; multi4d<char> a(n4, n3, n2, n1); Bytes e; e.put(n4, 4); e.put(n3, 4); e.put(n2, 4); e.put(n1, 4); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) for (int k = 0; k < n3; k++) for (int l = 0; l < n4; l++) { symv(a[l][k][j][i], "a"); put(e, a[l][k][j][i]); } multi4d<char> b; cont(a, e, b); sym_assert(b.size4() == n4 && b.size3() == n3 && b.size2() == n2 && b.size1() == n1, "sizes"); bool ok = true; for (int l = 0; l < n4; l++) for (int k = 0; k < n3; k++) for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) ok = ok & (a[l][k][j][i] == b[l][k][j][i]); sym_assert(ok, "elements"); }
  { int n5 = sym_choose("n5", 1, 3), n4 = 2, n3 = 1, n2 = sym_choose("m2", 1, 2), n1 = sym_choose("m1", 1, 2); multi5d<short> a; a.resize(n5, n4, n3, n2, n1); Bytes e; e.put(n5, 4); e.put(n4, 4); e.put(n3, 4); e.put(n2, 4); e.put(n1, 4); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) for (int k = 0; k < n3; k++) for (int l = 0; l < n4; l++) for (int m = 0; m < n5; m++) { symv(a[m][l][k][j][i], "a"); put(e, a[m][l][k][j][i]); } multi5d<short> b; cont(a, e, b); sym_assert(b.size5() == n5 && b.size4() == n4 && b.size3() == n3 && b.size2() == n2 && b.size1() == n1, "sizes"); bool ok = true; for (int m = 0; m < n5; m++) for (int l = 0; l < n4; l++) for (int k = 0; k < n3; k++) for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) ok = ok & (a[m][l][k][j][i] == b[m][l][k][j][i]); sym_assert(ok, "elements"); }
#elif KIND == 7
  { int d = sym_choose("dims", 1, 3); multi1d<int> sz(d); int tot = 1; Bytes e; e.put(d, 4); for (int i = 0; i < d; i++) { sz[i] = sym_choose("size", 1, 2); tot *= sz[i]; e.put(sz[i], 4); } multiNd<int> a(sz); for (int i = 0; i < tot; i++) { symv(a.getElem(i), "a"); put(e, a.getElem(i)); } multiNd<int> b; cont(a, e, b); sym_assert(b.numElem() == tot && b.size().size() == d, "size"); bool ok = true; for (int i = 0; i < tot; i++) ok = ok & (a.getElem(i) == b.getElem(i)); for (int i = 0; i < d; i++) ok = ok & (b.size(i) == sz[i]); sym_assert(ok, "elements"); }
#elif KIND == 8
  int n = size_of("n", 3);
  { std::vector<double> a(n), b(2); Bytes e; e.put(n, 4); for (int i = 0; i < n; i++) { symv(a[i], "a"); put(e, a[i]); } cont(a, e, b); sym_assert((int)b.size() == n, "size"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & same(a[i], b[i]); sym_assert(ok, "vector elements"); }
  { std::list<int> a, b; b.push_back(3); Bytes e; e.put(n, 4); for (int i = 0; i < n; i++) { int x; symv(x, "a"); a.push_back(x); put(e, x); } cont(a, e, b); sym_assert((int)b.size() == n, "size"); bool ok = true; auto p = a.begin(); for (int x : b) ok = ok & (x == *p++); sym_assert(ok, "list elements"); }
  { Array1dO<long> a(n), b(1); Bytes e; e.put(n, 4); for (int i = 1; i <= n; i++) { symv(a[i], "a"); put(e, a[i]); } cont(a, e, b); sym_assert(b.size() == n, "size"); bool ok = true; for (int i = 1; i <= n; i++) ok = ok & (a[i] == b[i]); sym_assert(ok, "elements from one"); }
  { std::pair<short, float> a, b; symv(a.first, "k"); symv(a.second, "v"); Bytes e; put(e, a.first); put(e, a.second); cont(a, e, b); sym_assert(same(a.first, b.first) & same(a.second, b.second), "pair"); }
#elif KIND == 9
  { int n = sym_choose("n", 0, 2); std::map<int, double> a, b; b[5] = 1; int k[2]; double v[2]; int base = sym_choose("base", -1, 1); for (int i = 0; i < n; i++) { k[i] = base + i * 7; symv(v[i], "v"); a[k[i]] = v[i]; } Bytes e; e.put(n, 4); for (int i = 0; i < n; i++) { put(e, k[i]); put(e, v[i]); } cont(a, e, b); sym_assert((int)b.size() == n, "size"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (b.count(k[i]) == 1) & same(b[k[i]], v[i]); sym_assert(ok, "map entries"); }
  { int n = sym_choose("m", 0, 2); std::vector<std::pair<int, multi1d<short>>> a(n), b; Bytes e; e.put(n, 4); for (int i = 0; i < n; i++) { symv(a[i].first, "f"); int m = i + 1; a[i].second.resize(m); put(e, a[i].first); e.put(m, 4); for (int j = 0; j < m; j++) { symv(a[i].second[j], "s"); put(e, a[i].second[j]); } } cont(a, e, b); sym_assert((int)b.size() == n, "size"); bool ok = true; for (int i = 0; i < n; i++) { ok = ok & (b[i].first == a[i].first) & (b[i].second.size() == i + 1); for (int j = 0; j <= i; j++) ok = ok & (b[i].second[j] == a[i].second[j]); } sym_assert(ok, "nested containers"); }
#elif KIND == 10   // several writes of chosen types, through a buffer, a file, and a file opened for both
  { int where = sym_choose("stream", 0, 2), t[3]; int iv[3]; double dv[3]; Bytes e; BinaryBufferWriter bw; BinaryFileWriter fw; BinaryFileReaderWriter frw; BinaryWriter* w = &bw; str f = scratch("I03.dat");
    if (where) { fw.open(f); w = &fw; if (where == 2) { fw.close(); frw.open(f); w = &frw; } }
    multi1d<short> ar[3]; for (int i = 0; i < 3; i++) { t[i] = sym_choose("type", 0, 3); switch (t[i]) { case 0: symv(iv[i], "i"); put(e, iv[i]); write(*w, iv[i]); break; case 1: symv(dv[i], "d"); put(e, dv[i]); write(*w, dv[i]); break; case 2: { bool b = i & 1; put(e, b); write(*w, b); break; } default: ar[i].resize(2); e.put(2, 4); for (int j = 0; j < 2; j++) { symv(ar[i][j], "s"); put(e, ar[i][j]); } write(*w, ar[i]); } if (where < 2) sym_assert((int)w->currentPosition() == e.n, "position after a write"); }
    BinaryBufferReader br; BinaryFileReader fr; BinaryReader* r = &br; if (where == 0) { sym_assert(equal(e, bw.str()), "bytes"); br.open(bw.str()); } else if (where == 1) { sym_assert(fw.is_open(), "open"); fw.close(); sym_assert(!fw.is_open(), "closed"); fr.open(f); r = &fr; } else { frw.flush(); frw.rewind(); r = &frw; }
    Bytes sofar; for (int i = 0; i < 3; i++) { switch (t[i]) { case 0: { int x = 0; read(*r, x); sym_assert(x == iv[i], "int"); put(sofar, x); break; } case 1: { double x = 0; read(*r, x); sym_assert(same(x, dv[i]), "double"); put(sofar, x); break; } case 2: { bool b = !(i & 1); read(*r, b); sym_assert(b == (bool)(i & 1), "bool"); put(sofar, b); break; } default: { multi1d<short> x; read(*r, x); sym_assert(x.size() == 2, "size"); sym_assert((x[0] == ar[i][0]) & (x[1] == ar[i][1]), "array"); sofar.n += 8; } } if (where < 2) sym_assert((int)r->currentPosition() == sofar.n, "position after a read"); }
    sym_assert(!r->fail(), "no failure"); char c; read(*r, c); sym_assert(r->fail(), "and nothing is left"); }
#elif KIND == 11   // positions
  { BinaryBufferWriter w; int v[4]; for (int i = 0; i < 4; i++) { symv(v[i], "v"); write(w, v[i]); } BinaryBufferReader r(w.str()); int at = sym_choose("at", 0, 3), how = sym_choose("how", 0, 4), x = 0; read(r, x);
    if (how == 0) r.seek(4 * at); else if (how == 1) r.seekBegin(4 * at); else if (how == 2) r.seekRelative(4 * at - 4); else if (how == 3) r.seekEnd(16 - 4 * at); else { r.rewind(); at = 0; } sym_assert((int)r.currentPosition() == 4 * at, "position"); read(r, x); sym_assert(x == v[at], "value at a position"); sym_assert(r.getChecksum() == QDPUtil::crc32(0, w.str().c_str() + 4 * at, 4), "seeking restarts the checksum");
    int y; symv(y, "y"); if (how == 0) w.seek(4 * at); else if (how == 1) w.seekBegin(4 * at); else if (how == 2) w.seekRelative(4 * at - 16); else if (how == 3) w.seekEnd(16 - 4 * at); else w.rewind(); write(w, y); v[at] = y; Bytes e; for (int i = 0; i < 4; i++) put(e, v[i]); sym_assert(equal(e, w.str()), "writing at a position replaces what was there"); sym_assert(w.getChecksum() == QDPUtil::crc32(0, w.str().c_str() + 4 * at, 4), "seeking restarts the checksum"); }
#endif
  sym_cover("end");
}
