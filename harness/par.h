// The message-passing configuration, simulated: every node's program is run in turn (see qmpstub/qmp.h).
#pragma once
#include "qf.h"
static int par_n[4];
static inline void par_layout(int) { Layout::init(); multi1d<int> n(Nd); for (int i = 0; i < Nd; i++) n[i] = par_n[i]; Layout::setLattSize(n); Layout::create(); }
static inline void par_start() { static int argc = 1; static char a0[] = "harness"; static char* av[] = {a0, nullptr}; static char** argv = av; const char* e[] = {"lx", "ly", "lz", "lt"}; for (int i = 0; i < 4; i++) par_n[i] = (int)sym_param(e[i], 2); QDP_initialize(&argc, &argv); }
static inline int par_vol() { return par_n[0] * par_n[1] * par_n[2] * par_n[3]; }
static inline int par_rank(const multi1d<int>& c) { int r = 0; for (int i = 3; i >= 0; i--) r = r * par_n[i] + c[i]; return r; }
static inline multi1d<int> par_coord(int r) { multi1d<int> c(Nd); for (int i = 0; i < Nd; i++) { c[i] = r % par_n[i]; r /= par_n[i]; } return c; }
// run f on every node, its layout set up first
template<class F> static void par_run(F f) { qmpnet().run_nodes([&](int me) { par_layout(me); f(me); }); }
static inline bool par_clean() { return qmpnet().clean; }
// values of a whole lattice, by lexicographic rank of the global coordinate
template<class T> struct Glob { typedef typename Words<T>::w w; w v[256][Words<T>::n];
  void sym(const char* nm) { for (int r = 0; r < par_vol(); r++) for (int k = 0; k < Words<T>::n; k++) symw(v[r][k], nm); }
  void fill(OLattice<T>& f) const { for (int s = 0; s < Layout::sitesOnNode(); s++) { int r = here(s); for (int k = 0; k < Words<T>::n; k++) word(f.elem(s), k) = v[r][k]; } }
  T at(int r) const { T x; for (int k = 0; k < Words<T>::n; k++) word(x, k) = v[r][k]; return x; }
  static int here(int s) { return par_rank(Layout::siteCoords(Layout::nodeNumber(), s)); } };
static inline int par_here(int s) { return par_rank(Layout::siteCoords(Layout::nodeNumber(), s)); }
struct ParTable : public SetFunc { int nc; int tab[512]; int operator()(const multi1d<int>& c) const { return tab[par_rank(c)]; } int numSubsets() const { return nc; } };
