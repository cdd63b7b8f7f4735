// the predefined sets on a shape; the site is symbolic
#include "setcheck.h"
static int pick(const int* tab, int n, int idx) { return tab[idx]; }
static void member(const Subset& sub, int site, bool in) {
  bool found = false; int hits = 0; for (int i = 0; i < sub.numSiteTable(); i++) hits += (sub.siteTable()[i] == site); 
  sym_assert(hits == (in ? 1 : 0), "predefined subset lists a site exactly when its coordinate has the colour");
  if (sub.hasOrderedRep()) sym_assert((site >= sub.start() && site <= sub.end()) == in, "predefined subset's range");
}
void harness_main() {
  qh_start_param(2, 2, 2, 2);
  int vol = Layout::vol(); int x[4]; multi1d<int> c(Nd);
  for (int i = 0; i < Nd; i++) { c[i] = sym_range("x", 0, Layout::lattSize()[i] - 1); x[i] = c[i]; }
  int s = Layout::linearSiteIndex(c);
  int p4 = (x[0] + x[1] + x[2] + x[3]) & 1, p3 = (x[0] + x[1] + x[2]) & 1;
  member(all, s, true); sym_assert(all.hasOrderedRep() && all.start() == 0 && all.end() == vol - 1 && all.numSiteTable() == vol, "the whole lattice");
  member(even, s, p4 == 0); member(odd, s, p4 == 1); member(rb[0], s, p4 == 0); member(rb[1], s, p4 == 1); member(rb3[0], s, p3 == 0); member(rb3[1], s, p3 == 1);
  sym_assert(rb.numSubsets() == 2 && rb3.numSubsets() == 2 && mcb.numSubsets() == 32, "colour counts");
  sym_assert(rb.latticeColoring()[s] == p4 && rb3.latticeColoring()[s] == p3, "stored colourings");
  int m = (x[0] & 1) | (x[1] & 1) << 1 | (x[2] & 1) << 2 | (x[3] & 1) << 3 | (((x[0] >> 1) + (x[1] >> 1) + (x[2] >> 1) + (x[3] >> 1)) & 1) << 4;
  sym_assert(mcb.latticeColoring()[s] == m, "multi-colour colouring");
  int tot = 0; for (int k = 0; k < 32; k++) { tot += mcb[k].numSiteTable(); member(mcb[k], s, m == k); } sym_assert(tot == vol, "multi-colour sizes");
  sym_assert(even.numSiteTable() + odd.numSiteTable() == vol && rb3[0].numSiteTable() + rb3[1].numSiteTable() == vol, "sizes");
  for (int q = 0; q < 2; q++) { for (int i = 1; i < rb[q].numSiteTable(); i++) sym_assert(rb[q].siteTable()[i] > rb[q].siteTable()[i - 1], "increasing"); for (int i = 1; i < rb3[q].numSiteTable(); i++) sym_assert(rb3[q].siteTable()[i] > rb3[q].siteTable()[i - 1], "increasing"); }
  sym_observe("site", s);
  sym_cover("end");
}
