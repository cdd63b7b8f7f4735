#pragma once
#include "expr.h"
// Bit-level linear forms over GF(2): every bit of a term as a xor of (symbol or opaque subterm, bit) atoms.
struct Gf2 {
  typedef std::vector<uint32_t> Lin;   // sorted atom numbers; atom 0 is the constant one
  std::unordered_map<ER, std::vector<Lin>> memo; std::unordered_map<uint64_t, uint32_t> atoms; uint64_t work = 0;
  const std::vector<Lin>& bits(ER e); bool touches(ER e);
  int equal(ER a, ER b);   // 1 always equal, 0 never equal, -1 not decided
  std::unordered_map<ER, bool> tmemo;
};
