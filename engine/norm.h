#pragma once
#include "expr.h"
#include "gf2.h"
typedef std::vector<int> Mono; typedef std::map<Mono, __int128> Poly;
struct Norm {
  struct N { Poly p; unsigned __int128 lo = 0, hi = 0; int key = 0; };
  std::unordered_map<ER, N> memo; std::unordered_map<ER, ER> bmemo; std::unordered_map<std::string, int> ids; std::map<int, std::pair<Poly, unsigned>> floors;
  int intern(const std::string&); int atom(const std::string&); Poly floorp(Poly p, unsigned k); const N& node(ER e); bool arith(ER e, N& n); ER simp(ER e); Gf2 gf;
};
