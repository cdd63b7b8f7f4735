#pragma once
#include "expr.h"
#include "norm.h"
#include <z3++.h>
#include <set>
#include <memory>
#include <unordered_map>

enum Mode { M_REAL, M_FPA };
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, simplified = 0, cached = 0, modelHits = 0, probes = 0, domain = 0, modular = 0, linear = 0; double time = 0, maxTime = 0; };

class Solver {
public:
  Mode mode; unsigned timeoutMs; SolverStats st; uint64_t seed = 1;
  Solver(Mode m, unsigned to);
  // is pc /\ cond satisfiable?
  Res check(const std::vector<ER>& pc, ER cond, Model* model);
  const std::vector<uint64_t>& symbols(ER e) { return symsOf(e); }
  Norm norm;
  std::string lastDump;
  std::string dumpDir;
public:
  z3::context ctx;
  std::unordered_map<ER, Z3_ast> cB, cV, cR, cF;   // bool, bv, real, fpa
  std::vector<z3::expr> keep;
  std::unordered_map<uint64_t, Z3_ast> symV, symR; std::unordered_map<uint64_t, z3::expr> symI; // symbol variables
  std::unordered_map<uint64_t, int> symUse;
  z3::expr put(std::unordered_map<ER, Z3_ast>& c, ER e, const z3::expr& x) { keep.push_back(x); c[e] = x; return x; }
  z3::expr B(ER e); z3::expr V(ER e); z3::expr R(ER e); z3::expr F(ER e);
  z3::expr Rconst(double d);
  z3::expr opaqueR(ER e);
  z3::expr opaqueV(ER e);
  const std::vector<uint64_t>& symsOf(ER e);
  std::unordered_map<ER, std::vector<uint64_t>> symCache;
  bool hasFP(ER e, std::set<ER>& seen);
  const std::vector<uint32_t>* domain(uint64_t s, const std::vector<ER>& singles);
  bool byDomain(const std::vector<ER>& pc, ER cond, Model* m, Res* r);
  std::map<std::vector<uint32_t>, std::pair<bool, std::vector<uint32_t>>> domCache;
  std::unique_ptr<z3::solver> inc; std::unordered_map<ER, z3::expr> incLit; Res incremental(const std::vector<ER>& cs, Model* m);
  bool probe(const std::vector<ER>& cs, Model* m, int tries = 12);
  Res isolated(z3::solver& s, unsigned to, const std::vector<ER>& cs, Model* m);
  std::string what;   // the place being decided, for messages
  void getModel(z3::model& zm, const std::vector<ER>& cs, Model* m);
  std::map<std::vector<uint32_t>, std::pair<Res, Model>> qcache;
  z3::expr RNE() { return z3::expr(ctx, Z3_mk_fpa_round_nearest_ties_to_even(ctx)); }
  uint64_t rng = 88172645463325252ull;
  uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
};
