// 47-bit seeds: four limbs of 12, 12, 12 and 11 bits
#pragma once
#include "qf.h"
template<class T> static void symseed(T& x, const char* n) { for (int i = 0; i < 4; i++) word(x, i) = (int)sym_int(n, i < 3 ? 12 : 11); }
static void symseeds(LatticeSeed& f, const char* n) { for (int s = 0; s < Layout::sitesOnNode(); s++) symseed(f.elem(s), n); }
template<class T> static uint64_t value(const T& x) { uint64_t v = 0; for (int i = 3; i >= 0; i--) v = (v << 12) | (uint32_t)word(x, i); return v; }
template<class T> static bool limbs(const T& x) { bool ok = true; for (int i = 0; i < 4; i++) ok = ok & (word(x, i) >= 0) & (word(x, i) <= (i < 3 ? 4095 : 2047)); return ok; }
template<class T> static void setseed(T& x, uint64_t v) { for (int i = 0; i < 4; i++) { word(x, i) = v & (i < 3 ? 4095 : 2047); v >>= 12; } }
#define MASK47 ((1ull << 47) - 1)
// product modulo 2^47 by columns of limb products, each column below 2^26: sum over i+j=k of x_i*y_j
template<class T, class U> static uint64_t product(const T& x, const U& y) { uint64_t v = 0; for (int k = 3; k >= 0; k--) { uint64_t c = 0; for (int i = 0; i <= k; i++) c += (uint64_t)(uint32_t)(word(x, i) * word(y, k - i)); v += c << (12 * k); } return v & MASK47; }
static const uint64_t MULT = ((1222ull << 36) + (1498ull << 24) + (712ull << 12) + 1645) & MASK47;
static uint64_t power(uint64_t a, uint64_t n) { uint64_t r = 1; for (; n; n >>= 1) { if (n & 1) r = (r * a) & MASK47; a = (a * a) & MASK47; } return r; }
static inline bool sameseed(const Seed& a, const Seed& b) { return value(a.elem()) == value(b.elem()); }
static inline float frac(const Seed& s) { Real r = seedToFloat(s); return (float)word(r.elem(), 0); }
