#include "setcheck.h"
void harness_main() {
  qh_start_param(2, 1, 1, 2);
  TableFunc f; symtable(f, (int)sym_param("nc", 2), "col");
  Set s; s.make(f); check_set(s, f);
  for (int c = 0; c < f.nc; c++) { sym_assert(&s[c].getSet() == &s, "subset names its set"); }
  Set t(f); check_set(t, f);
  { bool any = false; for (int c = 0; c < f.nc; c++) any = any | s[c].hasOrderedRep(); if (any) sym_cover("ordered"); else sym_cover("scattered"); }
  // remake with the complementary colouring
  TableFunc g = f; for (int i = 0; i < Layout::vol(); i++) g.tab[i] = f.nc - 1 - f.tab[i];
  s.make(g); check_set(s, g);
  { TableFunc h; h.nc = f.nc + 1; for (int i = 0; i < Layout::vol(); i++) h.tab[i] = f.tab[i] + (i == 0); s.make(h); check_set(s, h); s.make(f); check_set(s, f); }
  sym_observe("n0", s[0].numSiteTable()); if (s[0].numSiteTable()) sym_observe("t0", s[0].siteTable()[0]); sym_observe("o0", s[0].hasOrderedRep());
  sym_cover("end");
}
