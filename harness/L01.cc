#include "qf.h"
#include "qdp_util.h"
void harness_main() {
  qh_start_param(2, 2, 2, 4);
  const multi1d<int>& n = Layout::lattSize();
  int vol = n[0] * n[1] * n[2] * n[3];
  sym_assert(Layout::vol() == vol && Layout::sitesOnNode() == vol, "volume");
  multi1d<int> x(Nd);
  for (int i = 0; i < Nd; i++) x[i] = sym_range("x", 0, n[i] - 1);
  int s = Layout::linearSiteIndex(x);
  sym_assert(s >= 0 && s < vol, "site index in range");
  multi1d<int> y = Layout::siteCoords(0, s);
  for (int i = 0; i < Nd; i++) sym_assert(y[i] == x[i], "coordinate -> site -> coordinate");
  int t = sym_range("s", 0, vol - 1);
  multi1d<int> z = Layout::siteCoords(0, t);
  for (int i = 0; i < Nd; i++) sym_assert(z[i] >= 0 && z[i] < n[i], "coordinate in range");
  sym_assert(Layout::linearSiteIndex(z) == t, "site -> coordinate -> site");
  sym_observe("site", s); sym_observe("z0", z[0]); sym_observe("z3", z[3]);
  sym_assert(Layout::nodeNumber(z) == Layout::nodeNumber() && Layout::nodeNumber() == 0, "one node");
  // the coordinate field
  for (int mu = 0; mu < Nd; mu++) { LatticeInteger c = Layout::latticeCoordinate(mu); sym_assert(word(c.elem(t), 0) == z[mu], "coordinate field agrees with the numbering"); sym_assert(word(c.elem(s), 0) == x[mu], "coordinate field at a coordinate"); }
  // C interface
  { int cc[4]; Layout::QDPXX_getSiteCoords(cc, 0, t); for (int i = 0; i < Nd; i++) sym_assert(cc[i] == z[i], "C siteCoords"); int xx[4] = {x[0], x[1], x[2], x[3]}; sym_assert(Layout::QDPXX_getLinearSiteIndex(xx) == s && Layout::QDPXX_nodeNumber(xx) == 0, "C linearSiteIndex"); }
  // lexicographic numbering
  multi1d<int> l = crtesn(t, n);
  int r = l[0] + n[0] * (l[1] + n[1] * (l[2] + n[2] * l[3]));
  for (int i = 0; i < Nd; i++) sym_assert(l[i] >= 0 && l[i] < n[i], "lexicographic coordinate in range");
  sym_assert(r == t && local_site(l, n) == t, "lexicographic numbering");
  sym_assert(Layout::linearSiteIndex(t) == Layout::linearSiteIndex(l), "site index of a lexicographic site");
  // checkerboards are contiguous halves
#if QDP_USE_CB2_LAYOUT == 1
  sym_assert(((z[0] + z[1] + z[2] + z[3]) & 1) == (t >= vol / 2), "checkerboard halves");
  sym_assert(rb[0].hasOrderedRep() && rb[1].hasOrderedRep() && rb[0].start() == 0 && rb[0].end() == vol / 2 - 1 && rb[1].start() == vol / 2 && rb[1].end() == vol - 1, "checkerboard ranges");
#elif QDP_USE_CB3D_LAYOUT == 1
  sym_assert(((z[0] + z[1] + z[2]) & 1) == (t >= vol / 2), "3d checkerboard halves");
  sym_assert(rb3[0].hasOrderedRep() && rb3[1].hasOrderedRep() && rb3[0].start() == 0 && rb3[0].end() == vol / 2 - 1 && rb3[1].start() == vol / 2 && rb3[1].end() == vol - 1, "3d checkerboard ranges");
#elif QDP_USE_CB32_LAYOUT == 1
  int col = (z[0] & 1) | (z[1] & 1) << 1 | (z[2] & 1) << 2 | (z[3] & 1) << 3 | (((z[0] >> 1) + (z[1] >> 1) + (z[2] >> 1) + (z[3] >> 1)) & 1) << 4;
  sym_assert(col == t / (vol / 32), "32 colours contiguous");
  for (int c = 0; c < 32; c++) sym_assert(mcb[c].hasOrderedRep() && mcb[c].start() == c * (vol / 32) && mcb[c].end() == (c + 1) * (vol / 32) - 1, "32 colour ranges");
#else
  sym_assert(s == lexrank(x), "lexicographic layout");
#endif
  sym_cover("end");
}
