#include "setcheck.h"
// a history of operations on three sets; `model` holds the colouring each set must have
void harness_main() {
  qh_start_param(2, 1, 1, 2);
  TableFunc f, g; symtable(f, 2, "f"); g.nc = (int)sym_param("gnc", 3); for (int i = 0; i < Layout::vol(); i++) g.tab[i] = (f.tab[i] + i) % g.nc;
  int op = (int)sym_param("op", 0);
  if (op == 0) { // copy construction, original remade
    Set a(f); Set b(a); check_set(b, f); a.make(g); check_set(b, f); check_set(a, g); for (int c = 0; c < f.nc; c++) sym_assert(&b[c].getSet() == &b, "copy's subsets name the copy");
  } else if (op == 1) { // assignment over another colouring, original destroyed
    Set b(g); { Set a(f); b = a; check_set(a, f); } check_set(b, f);
  } else if (op == 2) { // copy construction, original destroyed; then the copy is assigned onwards
    Set* a = new Set(f); Set b(*a); delete a; check_set(b, f); Set c; c = b; b.make(g); check_set(c, f); check_set(b, g);
  } else if (op == 3) { // remaking the copy leaves the original alone; self-assignment
    Set a(f); Set b(a); b.make(g); check_set(a, f); a = a; check_set(a, f); b = b; check_set(b, g);
  } else if (op == 4) { // a subset copied from a set describes the same sites while the set lives
    Set a(f); for (int c = 0; c < 2; c++) { Subset s(a[c]); check_subset(s, f, c, ""); Subset t; t = a[c]; check_subset(t, f, c, ""); Subset u; u.make(a[c]); check_subset(u, f, c, ""); sym_assert(&u.getSet() == &a && &s.getSet() == &a && &t.getSet() == &a, "set of a copied subset"); t = u; check_subset(t, f, c, ""); }
  } else { // assignment chains of different sizes
    Set a(f), b(g), c(f); c = b; b = a; check_set(c, g); check_set(b, f); a.make(g); check_set(b, f); a = c; c.make(f); check_set(a, g); check_set(c, f);
  }
  sym_cover("end");
}
