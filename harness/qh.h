// Common set-up for harnesses that drive the library through its public interface.
#pragma once
#include "qdp.h"
#include "sym.h"
using namespace QDP;
static inline void qh_start(int a, int b, int c, int d) {
  static int argc = 1; static char a0[] = "harness"; static char* av[] = {a0, nullptr}; static char** argv = av;
  QDP_initialize(&argc, &argv);
  multi1d<int> n(Nd); n[0] = a; n[1] = b; n[2] = c; n[3] = d;
  Layout::setLattSize(n); Layout::create();
}
// the shapes are parameters of a job: one decimal digit pair per extent
static inline void qh_start_param(int a, int b, int c, int d) { qh_start((int)sym_param("lx", a), (int)sym_param("ly", b), (int)sym_param("lz", c), (int)sym_param("lt", d)); }
