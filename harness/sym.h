// Interface between a harness and the symbolic executor (engine/) or the native replayer (sym_native.cc).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
extern "C" {
uint64_t sym_int(const char* name, unsigned width);     // fresh symbol of `width` bits, zero-extended
float sym_f32(const char* name);
double sym_f64(const char* name);
void sym_assume(int cond);
void sym_assert(int cond, const char* msg);
void sym_feq32(float a, float b, const char* msg);       // equal as numbers (replay: up to rounding)
void sym_feq64(double a, double b, const char* msg);
uint64_t sym_concrete(uint64_t v);                       // fork over the feasible values
void sym_cover(const char* name);
long sym_param(const char* name, long dflt);
void sym_observe(const char* name, uint64_t v);
void sym_observef(const char* name, double v);
void sym_allow_abort(int on);
void sym_fail(const char* msg);
void sym_end(void);
void* sym_alloc_at(uint64_t bytes, uint64_t modulus, uint64_t remainder);
void sym_trace(const char*, uint64_t);
void harness_main(void);
}
// symbolic int in [lo,hi]
static inline int sym_range(const char* n, int lo, int hi) { int v = (int)sym_int(n, 32); sym_assume((v >= lo) & (v <= hi)); return v; }
// one concrete value of lo..hi per explored path
static inline int sym_choose(const char* n, int lo, int hi) { return (int)sym_concrete((uint32_t)sym_range(n, lo, hi)); }
static inline void sym_feq(float a, float b, const char* m) { sym_feq32(a, b, m); }
static inline void sym_feq(double a, double b, const char* m) { sym_feq64(a, b, m); }
static inline uint32_t bits32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t bits64(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
