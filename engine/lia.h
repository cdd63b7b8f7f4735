// Integer reading of a query: bit-vector nodes as mathematical integers with intervals, wrapped only where an interval says so; doubles that hold
// provably small integers are read as those integers. Decided by z3's linear integer arithmetic. Exact: a node outside the fragment ends the attempt.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <unordered_map>
struct Lia {
  struct Fail {};
  typedef __int128 W;
  struct I { z3::expr e; W lo, hi; };
  z3::context& ctx; std::unordered_map<ER, I> ci, cu, cs, cf; std::unordered_map<ER, z3::expr> cb; std::unordered_map<uint64_t, z3::expr> syms; z3::expr_vector side;
  Lia(z3::context& c) : ctx(c), side(c) {}
  z3::expr num(W v);
  I val(ER e);        // congruent to the node's bits modulo 2^width
  I asU(ER e); I asS(ER e);
  I fp(ER e);         // a floating-point node that holds an integer exactly
  z3::expr B(ER e);
private:
  I raw(ER e); I opaque(ER e); I cap(const I& x);
  I keepU(const I& x, unsigned w); I keepS(const I& x, unsigned w); I divc(const I& x, W c); I modc(const I& x, W c, const I& q);
  I fpraw(ER e); z3::expr braw(ER e); I mul(const I& a, const I& b); I fit(I x, unsigned w);
};
bool wantsLia(const std::vector<ER>& cs, bool fpa);
