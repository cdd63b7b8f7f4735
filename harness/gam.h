// The documented gamma matrices (manual, section Spin Conventions; and the Dirac-Pauli basis), as tensors.
#pragma once
#include "tens.h"
template<class F> static Ten<F> gen_(int mu, bool dp) {
  Ten<F> g(4, 4, 1, 1); F one = 1; auto S = [&](int r, int c, F re, F im) { g.at(r, c, 0, 0) = {re, im}; };
  F s = dp ? -one : one;
  switch (mu) {
  case 0: S(0, 3, 0, s); S(1, 2, 0, s); S(2, 1, 0, -s); S(3, 0, 0, -s); break;
  case 1: S(0, 3, -1, 0); S(1, 2, 1, 0); S(2, 1, 1, 0); S(3, 0, -1, 0); break;
  case 2: S(0, 2, 0, s); S(1, 3, 0, -s); S(2, 0, 0, -s); S(3, 1, 0, s); break;
  case 3: if (dp) { S(0, 0, 1, 0); S(1, 1, 1, 0); S(2, 2, -1, 0); S(3, 3, -1, 0); } else { S(0, 2, 1, 0); S(1, 3, 1, 0); S(2, 0, 1, 0); S(3, 1, 1, 0); } break;
  }
  return g; }
template<class F> static Ten<F> gam_(int n, bool dp) { Ten<F> r(4, 4, 1, 1); for (int i = 0; i < 4; i++) r.at(i, i, 0, 0) = {(F)1, 0}; for (int mu = 0; mu < 4; mu++) if (n >> mu & 1) r = r * gen_<F>(mu, dp); return r; }
