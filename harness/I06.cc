// NERSC gauge archive: the binary payload, the unstored row and the checksum.
#include "bin.h"
#ifndef KIND
#define KIND 0
#endif
namespace QDP {
void readArchiv(BinaryReader&, multi1d<LatticeColorMatrix>&, uint32_t&, int, int);
void writeArchiv(BinaryWriter&, const multi1d<LatticeColorMatrix>&, int);
uint32_t computeChecksum(const multi1d<LatticeColorMatrix>&, int);
}
typedef multi1d<LatticeColorMatrix> Gauge;
typedef REAL W;
static int lexi(int k) { multi1d<int> c(Nd); for (int d = 0; d < Nd; d++) { c[d] = k % Layout::lattSize()[d]; k /= Layout::lattSize()[d]; } return Layout::linearSiteIndex(c); }
static W& at(LatticeColorMatrix& u, int s, int i, int j, int c) { auto& z = u.elem(s).elem().elem(i, j); return c ? z.imag() : z.real(); }
static bool samebits(W a, W b) { return sizeof(W) == 4 ? bits32((float)a) == bits32((float)b) : bits64(a) == bits64(b); }
static uint32_t fw(W x) { return bits32((float)x); }
// the stored numbers of one link: the first rows, row by row, real part then imaginary part
static void link(Bytes& e, LatticeColorMatrix& u, int s, int ms, uint32_t& sum) { for (int i = 0; i < ms / 6; i++) for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++) { uint32_t w = fw(at(u, s, i, j, c)); e.put(w, 4); sum += w; } }
static void near3(W x, W y, const char* m) { sym_feq(x, y, m); }
static void third(LatticeColorMatrix& u, int s, W (&r)[3][2]) {
  for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; W p[2][3][2]; for (int k = 0; k < 2; k++) for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++) p[k][j][c] = at(u, s, k, j, c);
    // conj(p0a p1b - p0b p1a)
    r[i][0] = (p[0][a][0] * p[1][b][0] - p[0][a][1] * p[1][b][1]) - (p[0][b][0] * p[1][a][0] - p[0][b][1] * p[1][a][1]);
    r[i][1] = -((p[0][a][0] * p[1][b][1] + p[0][a][1] * p[1][b][0]) - (p[0][b][0] * p[1][a][1] + p[0][b][1] * p[1][a][0])); } }
static void check_links(Gauge& u, Gauge& v, int ms) {
  int V = Layout::vol();
  for (int d = 0; d < Nd; d++) for (int s = 0; s < V; s++) { W r[3][2]; third(u[d], s, r);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++)
      if (i < ms / 6) sym_assert(samebits(at(u[d], s, i, j, c), at(v[d], s, i, j, c)), "a stored row comes back"); else near3(at(v[d], s, i, j, c), r[j][c], "the third row is the conjugate cross product of the stored ones"); } }
static void fill(Gauge& u, const char* n) { u.resize(Nd); int V = Layout::vol(); for (int d = 0; d < Nd; d++) for (int s = 0; s < V; s++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++) at(u[d], s, i, j, c) = (W)sym_f32(n); }
static void payload(int ms) {
  Gauge u, h, v(Nd); fill(u, "u"); h = u; int V = Layout::vol(); uint32_t sum = 0; Bytes e;
  for (int k = 0; k < V; k++) for (int d = 0; d < Nd; d++) link(e, u[d], lexi(k), ms, sum);
  BinaryBufferWriter w; writeArchiv(w, u, ms); sym_assert(equal(e, w.str()), "links in lexicographic site order, directions within a site, row by row, most significant byte first");
  sym_assert(computeChecksum(u, ms) == sum, "checksum is the sum of the stored words");
  for (int d = 0; d < Nd; d++) for (int s = 0; s < V; s++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++) sym_assert(samebits(at(u[d], s, i, j, c), at(h[d], s, i, j, c)), "writing leaves the links alone");
  int z = 77; write(w, z); BinaryBufferReader r(w.str()); uint32_t chk = (uint32_t)sym_int("junk", 32); readArchiv(r, v, chk, ms, 4); sym_assert(chk == sum, "checksum of the data read"); int y = 0; read(r, y); sym_assert(y == 77 && !r.fail(), "exactly the payload is consumed"); check_links(u, v, ms); }
// archives stored in double precision
static void wide(int ms) {
  Gauge v(Nd); int V = Layout::vol(); uint32_t sum = 0; static double q[16][4][18]; BinaryBufferWriter w;
  for (int k = 0; k < V; k++) for (int d = 0; d < Nd; d++) for (int i = 0; i < ms; i++) { double x = sym_f64("q"); q[k][d][i] = x; uint64_t b = bits64(x); sum += (uint32_t)b + (uint32_t)(b >> 32); write(w, x); }
  BinaryBufferReader r(w.str()); uint32_t chk = 5; readArchiv(r, v, chk, ms, 8); sym_assert(chk == sum, "checksum of the 32-bit words of double precision data");
  for (int k = 0; k < V; k++) for (int d = 0; d < Nd; d++) for (int i = 0; i < ms; i++) sym_assert(samebits(at(v[d], lexi(k), i / 6, i / 2 % 3, i % 2), (W)q[k][d][i]), "each link element, to the precision of the build"); 
  if (ms == 12) for (int d = 0; d < Nd; d++) for (int s = 0; s < V; s++) { W t[3][2]; third(v[d], s, t); for (int j = 0; j < 3; j++) for (int c = 0; c < 2; c++) near3(at(v[d], s, 2, j, c), t[j][c], "the third row is the conjugate cross product of the stored ones"); } }
void harness_main() {
  qh_start_param(2, 2, 1, 1);
#if KIND == 0
  payload(18);
#elif KIND == 1
  payload(12);
#elif KIND == 2
  wide(18);
#elif KIND == 3
  wide(12);
#endif
  sym_cover("end");
}
