#pragma once
#include "qf.h"
// everything a Subset says about itself against the colouring
static inline void check_subset(const Subset& sub, const TableFunc& f, int c, const char* who) {
  int vol = Layout::vol(), cnt = 0; bool member[512];
  for (int s = 0; s < vol; s++) { member[s] = in_table(f, s, c); cnt += member[s]; }
  sym_assert(sub.numSiteTable() == cnt && sub.siteTable().size() == cnt, "subset size");
  if (sub.numSiteTable() != cnt) return;
  int k = 0; for (int s = 0; s < vol; s++) if (member[s]) { sym_assert(sub.siteTable()[k] == s, "site table lists exactly the subset's sites in increasing order"); k++; }
  sym_assert(sub.color() == c, "colour of the subset");
  if (sub.hasOrderedRep()) { sym_assert(cnt > 0 && sub.end() - sub.start() + 1 == cnt, "contiguous range has the size of the table"); for (int i = 0; i < cnt; i++) sym_assert(sub.siteTable()[i] == sub.start() + i, "contiguous range lists the same sites"); }
}
static inline void check_set(const Set& set, const TableFunc& f) {
  sym_assert(set.numSubsets() == f.nc, "number of subsets"); if (set.numSubsets() != f.nc) return;
  sym_assert(set.latticeColoring().size() == Layout::vol(), "size of the colouring");
  for (int s = 0; s < Layout::vol(); s++) sym_assert(set.latticeColoring()[s] == f.tab[lexrank(Layout::siteCoords(0, s))], "stored colouring");
  for (int c = 0; c < f.nc; c++) check_subset(set[c], f, c, "");
}
