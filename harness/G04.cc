// the stand-alone scalar generator
#include "qh.h"
#include "qdp_rannyu.h"
typedef multi1d<int> Sd;
static uint64_t val(const Sd& s) { return ((uint64_t)(uint32_t)s[0] << 36) | ((uint64_t)(uint32_t)s[1] << 24) | ((uint64_t)(uint32_t)s[2] << 12) | (uint32_t)s[3]; }
static Sd sym(const char* n) { Sd s(4); for (int i = 0; i < 4; i++) s[i] = (int)sym_int(n, 12); return s; }
static uint64_t next(uint64_t x) { uint64_t M = (1ull << 48) - 1; return (x * 31167285ull + 1) & M; }
static void is(const Sd& s, uint64_t v, const char* m) { bool ok = s.size() == 4; sym_assert(ok, m); for (int i = 0; i < 4; i++) ok = ok & (s[i] >= 0) & (s[i] <= 4095); sym_assert(ok, "the state stays four 12-bit integers"); sym_assert(val(s) == v, m); }
// every step of the nested form is exact in double precision, so it is the state divided by 2^48
static double frac(uint64_t v) { double q = 1.0 / 4096, r = 0; for (int i = 0; i < 4; i++) { int l = (int)(v & 4095); r = i ? q * (l + r) : q * l; v >>= 12; } return r; }
static void num(double r, uint64_t v) { sym_assert(bits64(r) == bits64(frac(v)), "the number is the state's fraction"); sym_assert(r >= 0 && r < 1, "in the half-open unit interval"); }
void harness_main() {
  int kind = (int)sym_param("kind", 0);
  if (kind == 0) { RANNYU::RNGState_t st; st.seed = sym("s"); uint64_t x = val(st.seed); RANNYU::random(st); is(st.seed, next(x), "the documented recurrence"); sym_observe("v", val(st.seed)); }
  else if (kind == 1) { RANNYU::RNGState_t st; st.seed = sym("s"); uint64_t x = val(st.seed); RANNYU::random(st); for (int i = 0; i < 4; i++) sym_assert(st.seed[3 - i] == (int)((next(x) >> (12 * i)) & 4095), "limb"); sym_assert(bits64((double)st.seed[3]) == bits64((double)(int)(next(x) & 4095)),"l3"); sym_assert(bits64((double)st.seed[2]) == bits64((double)(int)((next(x)>>12) & 4095)),"l2"); num(st.ran, next(x)); }
  else if (kind == 2) { Sd s = sym("s"); RANNYU::setrn(s); Sd t = RANNYU::savern(); is(t, val(s), "the saved state is the one set"); RANNYU::RNGState_t st; st.seed = s; for (int i = 0; i < 3; i++) { double r = RANNYU::random(); RANNYU::random(st); sym_assert(bits64(r) == bits64(st.ran), "both forms give the same numbers"); t = RANNYU::savern(); is(t, val(st.seed), "both forms keep the same state"); } }
  else if (kind == 3) { Sd s = RANNYU::savern(); sym_assert(s.size() == 4, "the default state can be saved"); double a = RANNYU::random(), b = RANNYU::random(); RANNYU::setrn(s); double c = RANNYU::random(), d = RANNYU::random(); sym_assert(bits64(a) == bits64(c) && bits64(b) == bits64(d), "restoring the default state"); }
  else { if (sym_choose("draws", 0, 1)) RANNYU::random(); Sd s = sym("s"); RANNYU::setrn(s); int n = sym_choose("n", 0, 2); for (int i = 0; i < n; i++) RANNYU::random(); Sd m = RANNYU::savern(); Sd keep = m; double r[2]; for (double& q : r) q = RANNYU::random(); is(m, val(keep), "a saved state is a copy"); RANNYU::setrn(m); for (double q : r) sym_assert(bits64(q) == bits64(RANNYU::random()), "restoring the state restores the numbers"); }
  sym_cover("end");
}
